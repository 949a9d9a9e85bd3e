From 481b46a369cc96b786e408f187b2494acee11510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 01/96] fix: HalfEdge.contains_points took every downward edge
 for a horizontal one

The closing parenthesis of np.abs was misplaced, so np.abs(v[1]<1e-14) was true for
every edge with v[1]<0 and points on skew edges were reported as not contained.
---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 9a4a45a..7ce42a5 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2389,7 +2389,7 @@ class HalfEdge(Tree):
             # Discard points whose x-values don't lie on Edge
             in_half_edge[np.abs(p[:,0]-x0[0,0])>tol] = False
 
-        elif dim==1 or np.abs(v[1]<1e-14):
+        elif dim==1 or np.abs(v[1])<1e-14:
             #
             # Horizontal line
             #
-- 
2.43.0


From 8f652eb09deebf2932eda8a219baee200fbece04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 02/96] fix: QuadCell.reference_map divided by zero for
 rectangles not starting south-west

The inverse map of a rectangle used only the x-extent of its first and the y-extent of its
last side, which are zero when the first vertex is the south-east or north-west corner.
---
 src/mesh.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 7ce42a5..06adc81 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3960,8 +3960,13 @@ class QuadCell(Cell, Tree):
                 #
                 # Cell is a rectangle - the inverse mapping is explicit
                 #
-                s = (x-p_sw_x)/(p_se_x-p_sw_x)
-                t = (y-p_sw_y)/(p_nw_y-p_sw_y)
+                # (the first vertex need not be the south-west one: project 
+                # onto the two sides that meet there)
+                #
+                ax, ay = p_se_x-p_sw_x, p_se_y-p_sw_y
+                bx, by = p_nw_x-p_sw_x, p_nw_y-p_sw_y
+                s = ((x-p_sw_x)*ax + (y-p_sw_y)*ay)/(ax**2 + ay**2)
+                t = ((x-p_sw_x)*bx + (y-p_sw_y)*by)/(bx**2 + by**2)
 
                 x_trg = np.array([s,t]).T
             else:
-- 
2.43.0


From f6f7ce1c3bc555e403243f0332ea5cafaaac4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 03/96] fix: Forest.get_children(flag, reverse=True) ignored
 the flag and returned None

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 06adc81..491dc40 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1388,9 +1388,11 @@ class Forest(object):
             else:
                 children = []
                 for tree in reversed(self._trees):
-                    if tree.is_marked():
+                    if tree.is_marked(flag):
                         children.append(tree)
 
+                return children
+
 
     def add_tree(self, tree):
         """
-- 
2.43.0


From 17f156f4b41e1c56d6e815a678c41f968d205092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 04/96] fix: Forest.find_node returned a leaf for addresses
 below it

---
 src/mesh.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 491dc40..0e0c213 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1335,11 +1335,13 @@ class Forest(object):
         node = self
         while len(address)>0:
             a = address.pop()
-            if node.has_children():
-                if a not in range(node.n_children()):
-                    return None
-                else:
-                    node = node.get_child(a)
+            if node is None or not node.has_children():
+                # Address points below a leaf
+                return None
+            elif a not in range(node.n_children()):
+                return None
+            else:
+                node = node.get_child(a)
         return node
 
 
-- 
2.43.0


From d1c4221d5b57c1a4ee04b0290429ed1f98f1dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 05/96] fix: coarsening a sub-forest only merged children that
 were leaves of the whole forest

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 0e0c213..f1c6ddf 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1045,7 +1045,7 @@ class Tree(object):
                     # All children have to be LEAF nodes
                     #
                     coarsen = True
-                    if child.get_node_type()!='LEAF':
+                    if child.has_children(flag=subforest_flag):
                         coarsen = False
                         break
 
-- 
2.43.0


From 407a0ab963aeafdeeec47fd5c21ff3fccb805edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 06/96] fix: coarsening a flagged node left deeper descendants
 in the sub-forest

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index f1c6ddf..d7b8de0 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -1070,7 +1070,7 @@ class Tree(object):
                 # Remove subforest flag from children
                 #
                 for child in self.get_children():
-                    child.unmark(subforest_flag)
+                    child.unmark(subforest_flag, recursive=True)
             else:
                 #
                 # Delete children
-- 
2.43.0


From 9fe05703b15480aef97fe3531b428aba828132c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 07/96] fix: DCEL.get_boundary_half_edges failed without
 boundary and mis-sorted segments

With no boundary half-edge left (doubly periodic grid) merger_activity was
unbound; extendleft reversed the prepended half-edges; and the list was
modified while being iterated.
---
 src/mesh.py | 58 +++++++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index d7b8de0..ae8a425 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6294,7 +6294,6 @@ class DCEL(object):
         """
         assert self.dim()==2, 'Half edges only present in 2D grids.'
 
-        bnd_hes_conn = []
         bnd_hes = []
         #
         # Locate half-edges on the boundary
@@ -6302,40 +6301,37 @@ class DCEL(object):
         for i_he in range(self.half_edges['n']):
             if self.half_edges['twin'][i_he] == -1:
                 bnd_hes.append(i_he)
-                bnd_hes_conn.append(self.half_edges['connectivity'][i_he])
         #
         # Group and sort half-edges
         #
-        bnd_hes_sorted = [deque([he]) for he in bnd_hes]
+        conn = self.half_edges['connectivity']
+        bnd_hes_sorted = []
+        while len(bnd_hes) > 0:
+            #
+            # Start a new segment and extend it as far as possible
+            #
+            segment = deque([bnd_hes.pop(0)])
+            extended = True
+            while extended:
+                extended = False
+                for i_he in bnd_hes:
+                    if conn[segment[-1]][1] == conn[i_he][0]:
+                        #
+                        # Segment's head aligns with half-edge's tail
+                        #
+                        segment.append(i_he)
+                        extended = True
+                    elif conn[segment[0]][0] == conn[i_he][1]:
+                        #
+                        # Segment's tail aligns with half-edge's head
+                        #
+                        segment.appendleft(i_he)
+                        extended = True
 
-        while True:
-            for g1 in bnd_hes_sorted:
-                #
-                # Check if g1 can add a deque in bnd_hes_sorted
-                #
-                merger_activity = False
-                for g2 in bnd_hes_sorted:
-                    #
-                    # Does g1's head align with g2's tail?
-                    #
-                    if self.half_edges['connectivity'][g1[-1]][1]==\
-                       self.half_edges['connectivity'][g2[0]][0]:
-                        # Remove g2 from list
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extend(g2)
-                            merger_activity = True
-                    #
-                    # Does g1's tail align with g2's head?
-                    #
-                    elif self.half_edges['connectivity'][g1[0]][0]==\
-                         self.half_edges['connectivity'][g2[-1]][1]:
-                        if len(bnd_hes_sorted) > 1:
-                            g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                            g1.extendleft(g2)
-                            merger_activity = True
-            if not merger_activity:
-                break
+                    if extended:
+                        bnd_hes.remove(i_he)
+                        break
+            bnd_hes_sorted.append(segment)
         #
         # Multiple boundary segments
         #
-- 
2.43.0


From d8e736d333e34a16d2dcc3eef516d5b13033c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 08/96] fix: DCEL.get_neighbor returned the last face across
 boundary half-edges

---
 src/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index ae8a425..1e57ae7 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6280,6 +6280,9 @@ class DCEL(object):
                 'Cell not incident to Half-Edge.'
 
             i_nbr_he = self.half_edges['twin'][i_direction]
+            if i_nbr_he == -1:
+                # Boundary half-edge: no neighbor
+                return None
             i_nbr = self.half_edges['face'][i_nbr_he]
 
         if i_nbr != -1:
-- 
2.43.0


From 44090fda4f34399970f32c68371cf290da3d804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 09/96] fix: DCEL.get_boundary_points used boundary segments as
 half-edge indices

---
 src/mesh.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 1e57ae7..814fce5 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6417,11 +6417,13 @@ class DCEL(object):
             # Two dimensional grid
             #
             bnd_points = []
-            for i_he in self.get_boundary_half_edges():
-                #
-                # Add initial point of each boundary half edge
-                #
-                bnd_points.append(self.half_edges['connectivity'][i_he][0])
+            for segment in self.get_boundary_half_edges():
+                for i_he in segment:
+                    #
+                    # Add initial point of each boundary half edge
+                    #
+                    i_pt = self.half_edges['connectivity'][i_he][0]
+                    bnd_points.append(i_pt)
         else:
             raise Exception('Only dimensions 1 and 2 supported.')
         return bnd_points
-- 
2.43.0


From 4f4145b1554396f2c6d250b8d750db418b29166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 10/96] fix: Interval.get_neighbor missed level-wise neighbors
 and picked the far child across periodic ends

---
 src/mesh.py | 88 +++++++++++++++--------------------------------------
 1 file changed, 25 insertions(+), 63 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 814fce5..d9686dd 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2788,78 +2788,40 @@ class Interval(HalfEdge):
             # =================================================================
             # Return Level-wise Neighbor
             # =================================================================
-            if pivot == 0:
-                #
-                # Left neighbor
-                #
-                nbr = self.previous()
-                if nbr is None:
+            #
+            # Go up the tree until there is a previous (next) interval
+            #
+            itv = self
+            nbr = itv.previous() if pivot == 0 else itv.next()
+            while nbr is None:
+                if itv.has_parent():
                     #
-                    # No previous, may still be periodic
+                    # Go up one level and check
                     #
-                    v = self.base()
-                    if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Search children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(0)
-                                else:
-                                    #
-                                    # There are no children at same depth as interval
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
+                    itv = itv.get_parent()
+                    nbr = itv.previous() if pivot == 0 else itv.next()
                 else:
                     #
-                    # Return previous interval
-                    #
-                    return nbr
-            elif pivot == 1:
-                #
-                # Right neighbor
-                #
-                nbr = self.next()
-                if nbr is None:
-                    #
-                    # No next, may still be periodic
+                    # No parent: check whether vertex is periodic
                     #
-                    v = self.head()
+                    v = itv.base() if pivot == 0 else itv.head()
                     if v.is_periodic():
-                        #
-                        # Get coarsest cell periodically associated with v
-                        #
-                        for pair in v.get_periodic_pair():
-                            nbr, dummy = pair
-                            while nbr.get_depth()<self.get_depth():
-                                #
-                                # Iterate through children until depth matches
-                                #
-                                if nbr.has_children(flag=subforest_flag):
-                                    nbr = nbr.get_child(1)
-                                else:
-                                    #
-                                    # There are no cells matching cell's depth
-                                    #
-                                    return None
-                                #
-                                # Found nbr at correct depth
-                                #
-                            return nbr
+                        for nbr, dummy in v.get_periodic_pair():
+                            pass
+                    else:
+                        return None
+            #
+            # Go down the tree, along the shared vertex, until depths match
+            #
+            while nbr.get_depth() < self.get_depth():
+                if nbr.has_children(flag=subforest_flag):
+                    nbr = nbr.get_child(nbr.n_children()-1 if pivot == 0 else 0)
                 else:
                     #
-                    # Return next interval
+                    # There are no children at same depth as interval
                     #
-                    return nbr
+                    return None
+            return nbr
 
         elif mode=='physical':
             # =================================================================
-- 
2.43.0


From f05e0579aab472d1f0fba732df0099c762c32f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 11/96] fix: Cell.get_neighbors(half_edge, flag) failed when
 the twin has no cell

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index d9686dd..04dcbbd 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3437,7 +3437,7 @@ class Cell(Tree):
                 #
                 neighbor = twin.cell()
                 if flag is not None:
-                    if neighbor.is_marked(flag):
+                    if neighbor is not None and neighbor.is_marked(flag):
                         return neighbor
                     else:
                         return None
-- 
2.43.0


From 58b32e21289fbcfc811e9795cbc02fb2f668e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 12/96] fix: Cell.get_neighbors(vertex, flag) ignored the flag
 for interior vertices

---
 src/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 04dcbbd..bebf371 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3468,6 +3468,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
@@ -3497,6 +3499,8 @@ class Cell(Tree):
                     #
                     # Full rotation or no neighbors
                     #
+                    if flag is not None:
+                        return [nb for nb in neighbors if nb.is_marked(flag)]
                     return neighbors
                 else:
                     #
-- 
2.43.0


From 0d38c9136af71eb37e0845051fda9bf14e6d62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 13/96] fix: Cell.get_neighbors lost neighbors around periodic
 vertices of refined cells

The pivot was only switched to its image for the cells stored as periodic
pairs (not their descendants), and the clockwise pass started from the image
left by the anticlockwise pass.
---
 src/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index bebf371..0e4f10d 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3453,11 +3453,12 @@ class Cell(Tree):
             #
             neighbors = []
             cell = self
+            vertex = pivot
             while True:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot)
+                half_edge = cell.incident_half_edge(vertex)
                 neighbor = cell.get_neighbors(half_edge)
                 #
                 # Move on
@@ -3477,18 +3478,18 @@ class Cell(Tree):
                     #
                     neighbors.append(neighbor)
                     cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
+                    vertex = half_edge.twin().base()
             #
             # Clockwise
             #
             neighbors_clockwise = []
             cell = self
+            vertex = pivot
             while True:
                 #
                 # Get neighbor
                 #
-                half_edge = cell.incident_half_edge(pivot, reverse=True)
+                half_edge = cell.incident_half_edge(vertex, reverse=True)
                 neighbor = cell.get_neighbors(half_edge)
                 #
                 # Move on
@@ -3508,8 +3509,7 @@ class Cell(Tree):
                     #
                     neighbors_clockwise.append(neighbor)
                     cell = neighbor
-                    if pivot.is_periodic() and len(pivot.get_periodic_pair(cell))!=0:
-                        pivot = pivot.get_periodic_pair(cell)[0]
+                    vertex = half_edge.twin().head()
             #
             # Combine clockwise and anticlockwise neighbors
             #
-- 
2.43.0


From 3f6a4886fe2da79e9d18bcfee45bcb5add67640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 14/96] fix: Mesh1D.mark_region/get_region on the boundary
 failed on periodic meshes

---
 src/mesh.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 0e4f10d..d886a22 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6774,6 +6774,11 @@ class Mesh1D(Mesh):
             subforest_flag: str/int/tuple, mesh marker.
         """
         if on_boundary:
+            if self.is_periodic():
+                #
+                # Periodic meshes have no boundary
+                #
+                return
             #
             # Entity adjacent to boundary
             #
@@ -6904,6 +6909,11 @@ class Mesh1D(Mesh):
         """
         region_entities = set()
         if on_boundary:
+            if self.is_periodic():
+                #
+                # Periodic meshes have no boundary
+                #
+                return list(region_entities)
             #
             # Restrict region to boundary
             #
-- 
2.43.0


From bc99e48cabcec101ac5e6d01b68411fba605e9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 15/96] fix: Mesh2D.get_boundary_segments(flag) skipped
 half-edges while deleting unflagged ones

---
 src/mesh.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index d886a22..521364c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7229,12 +7229,7 @@ class Mesh2D(Mesh):
             # Throw out he's that are not flagged
             #
             if flag is not None:
-                for he, i_he in zip(segment, range(len(segment))):
-                    if not he.is_marked(flag):
-                        #
-                        # Not flagged: remove from list
-                        #
-                        del segment[i_he]
+                segment[:] = [he for he in segment if he.is_marked(flag)]
 
         return bnd
 
-- 
2.43.0


From 3b0c383b2ec03ebdeb5892e95935ee603deb4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 16/96] fix: Mesh2D.get_boundary_segments dropped or duplicated
 half-edges when the boundary has several components

---
 src/mesh.py | 53 ++++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 521364c..952eda3 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7167,34 +7167,33 @@ class Mesh2D(Mesh):
         #
         # Group and sort half-edges
         #
-        bnd_hes_sorted = [deque([he]) for he in bnd_hes]
-        while True:
-            merger_activity = False
-            for g1 in bnd_hes_sorted:
-                #
-                # Check if g1 can add a deque in bnd_hes_sorted
-                #
-                merger_activity = False
-                for g2 in bnd_hes_sorted:
-                    #
-                    # Does g1's head align with g2's tail?
-                    #
-                    if g1[-1].head()==g2[0].base():
-                        # Remove g2 from list
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                        g1.extend(g2)
-                        merger_activity = True
-                    #
-                    # Does g1's tail align with g2's head?
-                    #
-                    elif g1[0].base()==g2[-1].head():
-                        g2 = bnd_hes_sorted.pop(bnd_hes_sorted.index(g2))
-                        g2.reverse()
-                        g1.extendleft(g2)
-                        merger_activity = True
+        bnd_hes_sorted = []
+        while len(bnd_hes) > 0:
+            #
+            # Start a new segment and extend it as far as possible
+            #
+            segment = deque([bnd_hes.pop(0)])
+            extended = True
+            while extended:
+                extended = False
+                for he in bnd_hes:
+                    if segment[-1].head()==he.base():
+                        #
+                        # Segment's head aligns with half-edge's tail
+                        #
+                        segment.append(he)
+                        extended = True
+                    elif segment[0].base()==he.head():
+                        #
+                        # Segment's tail aligns with half-edge's head
+                        #
+                        segment.appendleft(he)
+                        extended = True
 
-            if not merger_activity or len(bnd_hes_sorted)==1:
-                break
+                    if extended:
+                        bnd_hes.remove(he)
+                        break
+            bnd_hes_sorted.append(segment)
         #
         # Multiple boundary segments
         #
-- 
2.43.0


From 15149d433969d0f701ac025c10ab6e2dfd28bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 17/96] fix: Mesh2D.get_boundary_vertices left out the end of
 open boundary segments

---
 src/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 952eda3..8972d43 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -7241,7 +7241,9 @@ class Mesh2D(Mesh):
         for segment in self.get_boundary_segments(subforest_flag=subforest_flag,
                                                   flag=flag):
             for he in segment:
-                vertices.append(he.base())
+                for v in he.get_vertices():
+                    if v not in vertices:
+                        vertices.append(v)
         return vertices
 
 
-- 
2.43.0


From 7d45726fb7d4dcb804a0e60ee6110acc74da0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 18/96] fix: reference derivatives of 1D shape functions at
 several points

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index de5f18a..34a6312 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -605,7 +605,7 @@ class QuadFE(Element):
                                 p[:,i] = dN_ds*ds_dxy + dN_dt*dt_dxy
                 else:
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var)
+                        p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
 
             elif der[0]==2:
                 #
@@ -669,7 +669,7 @@ class QuadFE(Element):
                     # No mapping
                     #
                     for i in range(n_dofs_loc):
-                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:])
+                        p[:,i] = self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
             phi.append(p)
 
         if is_singleton:
-- 
2.43.0


From 8a278d9077e568a1c96eb3d3f4174a337a05e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 19/96] fix: shape function derivatives on rectangles that do
 not start at a corner of a horizontal side

---
 src/fem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 34a6312..eeb4ab7 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -558,6 +558,12 @@ class QuadFE(Element):
             'Local dofs not in range.'
         n_dofs_loc = len(local_dofs)
 
+        #
+        # Rectangles whose first side is horizontal have a diagonal Jacobian
+        #
+        is_aligned = isinstance(cell, QuadCell) and cell.is_rectangle() and \
+            cell.get_half_edge(0).base().coordinates()[1] == \
+            cell.get_half_edge(0).head().coordinates()[1]
         #
         # Compute shape functions
         #
@@ -585,7 +591,7 @@ class QuadFE(Element):
                             p[:,i] = self.dphi(local_dofs[i], x_ref, var=i_var).ravel()
                             p[:,i] = ds_dx*p[:,i]
                     elif isinstance(cell, QuadCell):
-                        if cell.is_rectangle():
+                        if is_aligned:
                             #
                             # Rectangular cells are simpler
                             #
@@ -624,7 +630,7 @@ class QuadFE(Element):
                         for i in range(n_dofs_loc):
                             p[:,i] = (ds_dx)**2*self.d2phi(local_dofs[i], x_ref, der[1:]).ravel()
                     elif isinstance(cell, QuadCell):
-                        if cell.is_rectangle():
+                        if is_aligned:
                             #
                             # Rectangular cell: mixed derivatives 0
                             #
-- 
2.43.0


From b546df8c63ca0d6b7a603fd911ef02349eb66104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 20/96] fix: locations of dofs distributed after an earlier,
 larger distribution

---
 src/fem.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index eeb4ab7..4b39af8 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2194,10 +2194,6 @@ class DofHandler(object):
         """
         Construct a list of all vertices in the mesh
         """
-        # Check if dof_vertices already set
-        if len(self.__dof_vertices) >= self.n_dofs(subforest_flag=subforest_flag):
-            return
-
         # Reference nodes
         x_ref = self.element.reference_nodes()
 
-- 
2.43.0


From 2df1d985295ed02102c941ac10ba6e439cf18b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 21/96] fix: numbering of dofs again after refinement keeps
 shared dofs shared

---
 src/fem.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fem.py b/src/fem.py
index 4b39af8..cfb0cfd 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1234,6 +1234,15 @@ class DofHandler(object):
             subforest_flag: str/int, identifies the submesh on which to
                 distribute dofs
         """
+        #
+        # Cells split since a previous distribution inherit existing dofs
+        #
+        for cell in list(self.__global_dofs):
+            if not self.element.torn_element():
+                self.share_dofs_with_neighbors(cell)
+            if cell.has_children():
+                self.share_dofs_with_children(cell)
+
         dim = self.element.dim()
         if dim==1:
             for interval in self.mesh.cells.traverse(mode='breadth-first',
-- 
2.43.0


From 6a1e1f758518807e1ddd5ff3e0d9cc0ab7d5340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 22/96] fix: dofs of a refined periodic mesh with a single root
 interval

---
 src/__pycache__/diagnostics.cpython-312.pyc | Bin 4167 -> 4142 bytes
 src/__pycache__/fem.cpython-312.pyc         | Bin 80837 -> 81410 bytes
 src/__pycache__/mesh.cpython-312.pyc        | Bin 194850 -> 194594 bytes
 src/fem.py                                  |   2 +-
 4 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/__pycache__/diagnostics.cpython-312.pyc b/src/__pycache__/diagnostics.cpython-312.pyc
index 7b90cc876a7c03b11e409b72486d4fd05896f6a1..1c8bbbf94a4a0f47011270b6bdca75eeb988d30c 100644
GIT binary patch
delta 33
ncmX@Euug&JG%qg~0}#Xoea+g)BhSPpp<k3*kiXfB=`Sw;o5cyL

delta 58
zcmZ3da9n}sG%qg~0}%YybjjSvBhMsnsGpIao2s9Ym{+V@o?4WbTBM(zS)yN9nwXNC
MTAZ=jkm)Zk0RIaU3jhEB

diff --git a/src/__pycache__/fem.cpython-312.pyc b/src/__pycache__/fem.cpython-312.pyc
index b103122e4c1a63c9ba0ca18fa781a074a32a3e0b..3653e1d5a91783577010c9c0367e809bd2541297 100644
GIT binary patch
delta 7443
zcmcIJd3=*qw%^Ux><ev@E_4N20<>6m3YMi|Q`vNYQ7IUjuWg{D<t8v~No|WDi>#i3
z4?#zq5e7tM30fT$K@kKIr&cIL<~N(~jgI59BD{ISjL&z^{n9oK!uZe2@5kx=?%B^h
z=iG(&{;pc}FO~TNlSwbIU&os77r!eWF@LYpSO-(FraC-GT{2eFVHSk7x#8s#o+HlO
zkj86V(q9m0N-z<5@V7n}@=G2}$So&c^J*=4O449|iM@Z&DWe4;qzEQ=jt?s2Q7xeX
z!Z3@|V8Y;34g2&E0SY@DkWr?G`>!U!_(595;%qoMJWZ`mVN6}f36o=yc^rv0H5e*{
z24hI+7PhKOo7uN1*soLV;#|o7I0?QgF)7U<6MR>a59Kq`VT!vSF~d@~bGpe(P>ENK
zlC~0hHDvN~$qkl}Vk>Fh(ZihqopL+fq2)2U20^Pkomk;(cP1GO&C`1;LKeuMly|S$
zo8V1YqX_BB6=Ru%kTn!DgX-(mY&K>NsWz6Vgsm$76Fm$_hG!?)Ee5)zhuR7EIP+~~
ziVC4jQL1ABu!U?POUP2LK-t?A8x1OkX|Nq6?34W(dNC87x}j{O3ki$4sdGb?7cB>s
zGC{m4p<b~ww>5Y;H#j!>gMgVfI?gmNxr1qm|IRV5`VQPl=omaQMa$!#ZX?}3HQ1xB
zrjJ&~%sN8$P$Cb%Bb0=H>sbh5z2!^cW}YeiOL*7{V#5|);gtBbyNfgAvy_`Tb)>E<
zrC`fc*97+EO-L2yvx;c2G&otBDVh)USmj&O?BO0^=}a>x6im|?tX^xqmKiN9E|inb
z1f|mkv;5vP&1vdUjBsQcCeOMa!hT?d8t;@m$?@Frsn_TXId7YKDHuZ=R;@0S97^Gl
zj~ed4(!<DfrlDLF@cVo0roY51y)~&CZ=dg}KZ5)ACa3*dZuK2>_x=&wx7VHCgPV*@
zDs~H7GNPr<x_3iHD5KHR==73uWwh9hyx23kiaj%4#E{#FP~TQW7B8!g`+lgbvOCMl
z7F$+1(QHh&*g99Up-*%!Pu;f@3+JZm8~cU&gwpt0r*hagl-~Wt%P~8Yi8FlMH%i;P
zYo=e6zI!Gol+}feugn)zg1@+X6AS6#pKgQhu4qxmRM3FrTiU=7l@Ky69tvb+BK-cU
z4$jOlH5%m&<N=0xfOT1domTg=&XMi^ZImHPRxx!M;dwK&^duE(9~{#d(fa~Ee<0}b
zmx)xvnpwo?3oN8!8Jnr75+kMxF}SeOQ&qlD^j3%w)gn(oj2OzQtEt!L_XNd2L{%wz
zytJ6HQa6IP5G0@^wTDtq9X*K?r*T5#si_hDURNH?<M`Tzpns^;h&C+rRQW3Wq8BP2
zIz;lMlQ|>{PTa49aSvyZaCpJP#ia4NUT|dXQ9WPTW*>Y_P&kSXyW59NY8^JIZP*n4
zec5PjH)gaNGj=X(GiJ9Nb6btMZN~oX#$m0-VQt0{hnKY)NB=0IZ<NGT)S(n~i5*74
zVq2%YoR|Uo=KoW9C9PlhrP547egYpZNJ(zbp52-~yDj^Hon%+`&IvpF?9yCQ68lf!
z#)3CF?OO})Rgecjw<w*_&T7q`)s}sKH*E)_eE^0pa%pF(gw$dGxV8w&7fo=_AFDc7
zWG*H8^Zm@F8vTbRbE!e!rZksY^=$*qrFQ*AgSj+Se{ra}G*f>m&0N}7-_EcuefvO5
zX@UN7lBINL_{&9aD@g<nmLDdE!t*QMCPWRreakgJRjQret_Vv$t(yD|_V{ZVOsTHZ
zf5rBfZ}HUC46_}HaHx8Y2B)Y6^fg<_HP~IVi+l?smhB|h;iF|+$$!HmbRGFSd_mVi
z&2lxY2<#>Qg5JRw$#-xz_-lBh)(D~H&yepSb;W)KQNmlb>F~!D8x#s9EdAL&g;ELj
z+I<QYBI=0^M%7JWu&Hh`=>tdVN3ik#))mWRlZ_oT0+^gl!uuX5Y)XQfl{O<au>%Ta
z#}a{Z7EK}}WA;9`#V+G*cf$9PW#7USFVr3<)D<T*9v`nXicf9W8Fefj{@SoTI?jNW
zM@tQN^%O}mVQynxlp+ffnku8?Z1{CkO>~?CGn<>D<9?8^YL3;6Qs!ecx<f*8;a981
z7~*Zt>-OoRCLJtwXrXa!AMihBiAwAbuRJy<I(EUt)%Qln1K_>YvkW8R?9GRHYuvXe
zDd?f($;X|B(Q$l(;lamC4C8vvYVJb5349gPa&+*u)d0q|R@neeAtLYQ$ZpGrM6DYF
zU#xvCIxd1M>sq4YG4THSEr$Ez^o&JO)0wCYcyzl7&Tg2^$d_#{f;mq-X`PM4bK`<p
z3<Vpv8D{mAL&gEwv?;1-Je=ON);ba?_)1K}Q9fk<JW(cqCQ!k_&AT(Z7t4-H@{!Kk
zQ=P_*2F_&$K5YFVJedR~Tc4LLjbkN~p<vrK`+StjJ&DIp0mGAz-5#%*imDef)pKDu
zBr)5YcND>D*d)8gz2g4GxJK@Ss-LenJcv4D5^y?<+`dhAmwPI+{gAseP-i*QnFqUf
zCc(4YG~nIQ%fRk?Jp|5#*LH*q3wq9KW+C(9=wjO71*tgmVI(QTnBG1Pv!QtBdP7-H
zVdQ?$J=I38gn#$cAC#mTjz3dK=7l?+nWfOwAmuWcyytG>ht+%jq))&J1g%i>T%IC<
zz$V?m@TuosSCK35=)UQs5zg<+C+ovE_Zi8c5K`welh~bB5VB}GTK5<m*IOrg0=__j
zx4OL2<M&pH^e7D3|JfkKMN~`0K;<oL8<0&evmwFjF!8`%RRf!atOE`pFW3{_#h|<@
zK<mmRIIq!#i(belWFu4_yoa2F@WJhck23081g}QHo%V>-x55+jtq^~Qvet#`UR<W^
zgH}=0PuDQu(nNQ2b~Nw>qVr%nTtYqz&py0Z(TkIFN(HB+Pr`>s2a=TVKaMUZCXP_^
zD9|;q^4P@0F8YW@Tv#SnRnbQH?Xe_VBN`U<m<1{@GJNBhgY<d|ZBWVr4r4&qK>Dk>
zWEQwzeL8;?BBN@NKY%-2Ry6XDqd;9W@<V*{z|^vqG{g3mfn-7WWXk|e*;SMW47d`w
zf=Gf`B`y{HLGC%-#RNo5R4f;%$j(m-mwIaGSY*K%y0o&lwoVxlZB=y{3ud*S?qzsc
z#4|AC_#h&}%Hwa$=^0nL1&L4+-Ht#)fId*}B^pnEiC{khUUHeJiYHYq&LLP0PrSWA
zQHyz*49XJ+$jb0bCq5?zzI@q8zZdqr0~-Fl7e>E3fIJ`ezN;gKqbTB41T9c|Y6Lj}
zhfa+rN2P5BlCO0Or8C(XSOLv9hbRNK5N!R@4iTeXg^x9`=QaNHq6(0W;~@K24#cR5
zuyM8unr<dbQ;Z~$z1!$4%8=4a_&d=icEq>Bk<*E!7eer}f9<DJ;MkcYFiz7E!Wf5k
zDKbpcvy(IY;<aSyYZo!Gf<+~4*1?o`*@^uq6U?7z=u0SAY92rez;a#<n@^kBi%Yy7
zJ5j)qGfw!_7_TYDB}c3-Hm{L&!LpB?;rGwf5bb6bs{@2?hVf^|J1{F}xXct^v?vcH
zt~ne%J2jWG>#STq5jCcFAfgRY&kB*UleMngS5>tTvm0)n&9h>0@cff`Mnd7aah|g(
zmdAKsYZ9(!2=<hnN$n{ETT=$MB@MbJsC2{Dxi2R=rLo(_wkHm1O&s(|V!>r=QoFUF
z)mpGW_=$DcWlLhaC9Bnvb<vW;G5M|5{QcgG)}b9b#@=BJH=H}K)Er0MyJ6;qeknX%
zkD}FK1|kV~C#b0o&<Je0Fj&KL@(jFlp)YwG{&Jze!mJM4K5}cwn=tocLD3sbj;oiP
z@&}OJi0sVWps!2}(6>+xMkHeHan%Sg-N!FZARjz=smOt$rQ485*L4?RU18RxJ{sh&
z?+bsskf!&GzKY64)ijV9{>7!8#>U?w7q8yr?j?|`XE&mFa(68Ty@+#YA^jLfpCD*M
z(2fAF%QS-E1N^+iKtx$nT@z9J{9dt^Ucm`175O@PQ7ydk=QMI2TK}9^_$jCM)~t{V
zScwu2;G6;DAlC8~k0{x?)9+Bl6>xoaZ`wPIqCUx8T|QOb6AHSLV@Y_+X9KN6dC_tQ
zx-u-rJ#O*GD6S0wYv9Z?`09ElX#>-ZjPZQkFg&c!`h&h;9X*3~ae3!)^c&>(PaI+B
zDXVQkHV@sQU&4|by)!Tv^^O=DJ%Iqb$Z>}>n(*EmdyS3UIBp0}B;LMaOhRFJU!*Lr
zqapq;oWs~N(`tk4%1GILUZ7vI8JAUVt7tgwK)P0>OJK1J*42n|SM4^RIoUtf2@G#U
z&m^)0_W6SWz6?}$Ncu)WGRSVpswC;;YD)pT1SS+>2}X=m3@)dBz8eK7=9NnmQ3k{y
z-|ixM%v>r~U~AtkRq08g9gU*@gMimCk9CK1R8R8A(^5oFG6|J#>d6jr6go~7!K#}M
zID9%UIYeG0olh}t_Q1^FXO$s=wNyKt2pe*OCguSDg;eZeMjd_IVF$bhbx6&como0&
zB>A8?orLYo+@R@xya?LC^Vf9AWg<z$EEStb8hiC)k3^E+M4Wt>B0Xy&+L%{BCXZ1h
zOE7@+mOeKTn<1@J|Ki^4`Oq$<n92BVUX4^|CRs!&?J|=IW8P%`&v04f+CRn^<<r3l
z49iIbybRw(L<@fIL%<UyMar^}JUfrwr-<jv&7=6aG~YsU3r;cG`m~tDW2=E#*VS2e
zX<3_`#i*Ku4t-0Th0G?#lbQBO7X2wz-$_YEDEz|FGTBDPDI2j_Q}+KC0>$HjOHUm*
zK8WCHMDa@E781M?^Dcn@7a}``1>@4mS;;Nr{_(ugdf3ATe+2m>BZ_Fdy58p~7ON`2
z9^fUFofMMeEhFqiuP{Z=GrT!HElqclRE?ZM(o!dJk((`&lf0}e;~R`@^tVhHJLK?U
zxPgM7#|aYAu=7YDSWPjZTuwRmd)YXm^7_hx5p6lGUb;lA3s5vzPU0$&ZA5`+6Os03
zlk{o41!8xjd`Ea6M|?H-g5r`zl=Z$E`Q68jQF(>Uxzgo;aMR_(g=EfQsd7b{nZvyO
zUTV%E8x(q7i>VKJUDX?T=*!5B!Di<<d?AwctdahdM~0K#Ey?}KPqp%5VP^5gl5b5f
z<L4m+hY=iMfOQ11+_StY$SmpZljy$O<M|>PaXGttyu9Th3HSF8IO5yhMKtCTg3G)S
zUEfhi(k9(RHA;`yOV1%CCT>KBt)Q&ZSLKz{<gG3@&LT}1!7&D0$<g>oj}($*D{nym
zfk>V~SEO}?WS9ZB2)PR%lFk&8es(pRh^Q;svA8m#spMUjUXaKTQbEEkz9FPsm63}s
z@f=ccMRYiuI1oJouaUkQ!PX$TrC=lp5Nmf_&?GuiIx>o3he+2(5mEmFn{ugUOs3Z)
z&uB8d@pUA555e0A_`Z!hl)NAEO6J9ag~`teau(&FJ$(_NA#@aiA_PM*GTkTEmB@x*
z58DO;&oSg`;TwfQt-Yp6RcButWz?v%zwI@VsPDdZk3z~SBC|BvYB%YaDy=ADJq$Tr
z_K4cQd}&Rc{2IAII$1;>a`7t~KM!*iJ=NaSj$K;qU0x*?(_+azhLo7AbtHA&yz2t~
Yz3!E^k0F`1We(DNtK)`%f4Ry32R=HWf&c&j

delta 7067
zcmcIod3aPsw(rwh(t9VJq_dJh5<&w3!oGw}!tP@cb(92RPx^**2u-N&0KpCk3IYNW
zJi<lB8DRtkQ3q`_F5`zF!!m#pU|9MMGx)~AamFPw_|(xEUY)v~ttEW^^E%&mQuoxU
zU;WOhQ>W_QM}E-$?i;Q3l*M9H@!ypJMc(UWuUc<uGhO{F7B7<eSGaxt{ACjJNv!_@
zZ=nB@8n<VW<gW-hbQ22o*DWg5+T2jd_+8-44eCASg}qcNmJ)Cf82#4gV#0(6As2lU
zhNdr2)tQ2tB2}Yq-YS)<&Kz(mMk-ZhG8QB_@M@7&V+oq^i=uq_k#un2tSLquJ~0<8
zIDeuu+w6f9KEk7;SsH=;F=+PaNK<DGsvBX|?mz}sUd*tRcL2^3!2h0V1RGwPm<ic9
z`)UHtnrQ&*lT-7iTRbtIm^JF4p<G?afr7SR2Ms~5&~a@C9a(Lhpj9<$eH#K9{6YMJ
z>Oc-QPD<3MEAw!6L8_H4jOI|FEmCc^m#G)1%GC1=oU=V>4_brPay3n}MZM9a<vn%w
z{h&bB#c{q)v`vm}=X{^_CEI>YWXdQ~!MKhzyQDsZQ`h)zMY9`y8+IPJ1H1TWgxmS&
z(cJ;TLH-%;;*l@}Rh7!RG)ysI@f5Qzp@SwdKQWjPj28=$7<AD86+8qTy%md6Bs`lZ
zP_sIr^3~40L*zF05F_(>;*Fa+%+Quo*f7=Q<WHWMR8@(ZvaBwN=b3udyOBIAj*bDg
z=9v>Sr|C^Lk9|cfXR4}nwPl?dXH4tQ^LgboXKttTQC3x@+RtaAU!$5W3AUxvy6CBH
zw_x>mN+)MD!tEBUJ}H>gWkM!XXyf?S;|t~tCW{5>;M%ZAs9F>BwmYXc4>kC%M02^F
zHy)_(dUK@wM1-!rN&QI(x;t=4`-uo$b4c%qARkVLgfYBGWJHPtugG;7!HjxqeUb;t
zHIXu57G)x%txR<L5yrqSFmzpFWQt9*x6`I+-HKTqx1z3lTQc*0TU_f}*Y)V6k8jgw
zchuvvGmP~)!5+a>ksB#OW(U*TpTx$_3U(unXlF-k)7msS5&L#c_h4pQZ&Xp-_@Y+j
z8_<3n1&#RGM3bRM#M8EInHQD2KPoOcT2;_g*@q4jzIhMKOsqF4htV9apTi3`Q1Lb_
zYi-&8-&z?8vX)Pm5t=e9%Lqy6ojYm<8^enRD<bhO7h$8<@AdfuZeN+iVo0HLGv=;k
zhsi=u3bWT=%A_)GvY<+0$4I4jS653ukE<u97MJ73;@@a{ay5=G$w5y^CX5NKE*S&r
z7Gr3{d<~c{r)6GB>)V{x_d;5~(Ad&UfV;8up%mM8*wKCa`0d#{^fxq+csDja^xMw1
zGu_kGFdctUmeIksh1*WYvt_PWe!Qj*{_e*82%hmpbBAe9YOHe$jlb__Ee7MMBx|wW
z*le~In~cqat;KfZ`2=fmqVas8wK&yyA;(&rY5W84%`yIAu&vl-yqIAt?iYH@b4UXh
zaZ<$r*cbYy;t+ren<{Jc_h@v^e^!PDE{xT|bsSZ_+;W|lUq6MXL3LmWew37eB`f3b
zuhmoF6YRHSiT)Gb&y2WdNh5rQL)i}a9Gls8_yQ~ajnIPM``5u&xH_;7ZlI-RAN(&i
z)w~4Xpl9g|@GY8`?S=2~^<{h2->b27`3veF)Oesa0n=-rRR5cr&!cIX8NJILShHdt
znDP9I$zZ~?hbKWd9KUubZ$JI;n6|bpIM5W!uM2Dt=gWkJ-omd3oZow^6S1K#-ekU0
zcO0hI#Vcsh<Dy}0ondpLV57RDX0<EbG$xZX{Zx-19ZbLj0UcgmSrhTbiEHY&M%u}E
zPs2P@pU!hY3Vzj48?i{mU$3f&wA1jeN2(+3bo~1x4N4nZ8g%&lqqFS>!YQE$wTB6^
zaLnparf4_1w|e<N1g{6qT615dosC!5Opmm4@S(?MnF^v9=HZRUihcyzs}-~xUVYT$
zgw|R$N5uw50l4ty+6ktSowfSj1W+iJ^x7%|KC>=OVWICs9m9FYR2;qD7NOP`SFe9F
z(jJU~$D1PUAy~FyvuSb^_E3VDBCzdp5`O=L1D9=V&9Gtk`NpmGyJ^V%QSlp&CpT>|
zP4A2bBk-9gHbv$eiSEs7a|V)y2!0W@dXY#ZEPE8-Xq?datIYPb5=O#2%2GduD9?^i
zHed$-Tec<3emh$ji+|d(Tk#+Y1|Qn2!!u8AO8gm75<W&*z<7KfAMLtde-{y%8$~1y
z&pwq93Bd$R-`c2zKzJ|W&~*qVVa&GmrhAD`hfJM}=eBK80wZG54id#zKZW?X+xX<~
z$iVO9WK&5L;8dKmJ!pEcvsOQi21}8_srcn;8{YeL|IGWztc=#G>o`rvD^IUC&F>7z
zkAmGh&cpf8@?TujKqWr-Yyr#;ZFqK;TECDitMH>;qoD#bfBip3et4=FiBo8LE)Ue9
zLC^hF3l}hD?|;DxT(CDE9t~~XYX<c)z{4(wb0s%jVZY1m_xk&J7MJr^R1ZJEUcxi`
zKJH6>VJ*F(vV2b4&mUD;jBeU&4Gl9Y!^A5rUVU+odbz;t-awrRN~gc(=jDr;<PVgV
zSGgCwOObg)g@;!s;I&oS(AoV10oJ1C<!NvfXS}>sT`LfJ))PW2D~WlRx&z*&(j^-G
zDDM)buS|=F_a}q~zA{IXO-uzRMsvILERT~6>wZpdMfAA$)d}#Y&}Xk!s^f*Zuv806
zwh1c^_5nxese?6O5gj_F7-7;IcMWf|59_7UGO4PHt>Dv$qb*DPl%SBZH7Gom{(?~B
z8%f}JiYRFmyaN=x2H_;0Zi<I#_~)i)^6SVVLPa3cdrMX%)T;>95Luyt-r2bK&9xB3
z0dMtz2SO!p_12HLOrXexD@M!`j*+UQMUpQdqQSOufUt#0<r0(l4W@LFyP6f!ka|3H
zDATl)cPob5@zX<np%jzed*{B+5oM2)5v>YqB=IB(V#<U=M3McH#B(IXj-%5_2@B;7
zBe4>D9-a?=TyyvcEDcRL@;5M19<lCZx)VnoMZI|5i5HIchF^tl9W{XIWwLmc#B1m{
zHWc2*X~)K?KUSmtvtc-(uQmq6calx=7AuUwaVHbykFC%hU|SzZ#`Pbjsr_+s|1@yo
zxN8=<dtb<gdvN|)dNkQLdia(0wV+!03c_9{3@7HFbYS(6SiEt<Axk5{A-`aSUWBaH
z2IZZ7_#JWH3A3!GMo0X4C#>i^n}GEv;?aFJ5$B&U;(-%dY&q@>75u&$V%Kvg_5oXu
z`%aA$NioA^W+M9hJ&>m_&N!Wkw@yvLMW^%Zl!Q#^hfycu?$cu}?`wJ1QSoR{wIqj%
z&Yafhe@k}TFsV5=ML@kq)*&v!F$<(XY4u`1yNLHT_t%TnI)dw)bKqTkrMZ{-mNs;`
zxkwL9m~pvZ)*Bqh6|d0QN5joDe5u3&-ZIJ0-ob^JQ(zmexjY_@;ql8OlgJykg)9vf
z?yB-q$+JLWE6{l*8{WZDS6pBZNmsU;>rauLNX}#?)>6<EX|s*G#L_AOpvSW$hyXi7
ztq)0jK;j$;dT(PFNgSicW-h{->c!Pzo!94)ma_|_h-DJz?Uy_>Ee5Zr!ExMvJ+I)R
zu=Z3hRWkQK1hboTCUR3+UP^m5tl^S<OMMrx<@$7<Z-t+vKuPHSPx{#FMS2Rdw{u0X
zJ4Zv$li<}V;sw1kFurz5Ai_ppdtk}8u-RAI7DGQv<%TY+QkcZ5QS^A_@dajj1GVf3
zAE9K%acaFyupd#27K7a)A?TC4>^c{IE7xUp`Y9Xp7|#4QP5q57RQ2s1bG`6Luy0?X
zF8vT|@F~q89MDV41N>cw@mEb1`#V>=><WLP&i+Amr@08n@Zbh&t0kr0wDad~_Uh;b
zIS@8-M4rH2U%)Tci76h*Z|a~MY?CkPAOp@ceXRpaOhE&oo0$}-VLnlz{frXNr4MWT
zQa~I5VIyTUlNNXv``9*lkOc}7i4^-M2?9{^;vaIY1@b_acUd44%H+cq*alkMa4aA1
zZAy|qw1PQyA-_2=s8wUujowr%<jq#l;e|qny3#DWt^8~2i9b5z*ZY9Y0OA9sCa9v~
zlgP`CL0hK{IAntjGVwxRhdjy#X}p8J+0H!9JM{r49zNobAGh(U!wqyxfw{bRwy#tE
z$i{E(T!kx###l8}!#9o%P}cE0|DbOQSL@|f>5wkZvqPMz?UPt#H~M5IZ?f}iSY)*P
zH#_tMt!#^f@e}EQn!%d5<jW?K_%(`#*rOsB4)O_<WAshxc#DMCyzf)TE_ysCZ-|4u
zL=nbIq!lYK()Ta&@i;!&A^D3q$QrOAmS-fL1`Vp4MwQvNE^x`#quJKuyeWHU;Dv{G
zJ^Wt3oe!VSn|;nS`?5K{Mc<Sb53|8~BsOv4aO2VZoQb2&Wjb_^OlW$-0b@1rl>9*w
zq&^@MiFWQk(4$CF`WD|_WnG32`${+?GAGvUFI8UYuX6KnY+K#?i#*N=qaoC^(g{X&
ze&i?@HLGn#msVhgW8GC%qJ~70Nq#*AT<~SnpHtu!Lzxm}+KTK8PL3b<Vq3Hj(Pv2k
zVLd;Y{ei{od3tmz0jKzfwH|L-ARJrH7B5;T)%qC`SJJskaxdlOSt+M-OEzRo71fdo
zAroiA`_vMPAy$zVE38@JtrlN4ly4jdxXzWK1V${Nath1$=fF6)Aj>&W0RNIt=D_3X
zTd_^|<-%K9I3U}4Ln<`Ly?etDXl#0@H#`tqPfm(NVswL1UQG6p?nM&&NxZ}buLDxK
zyQV6@XKgR3<f>Bo#lpnU*8$;-DE-PoM<&9z|E3llc3}%`Yo&a~@iQo_<+naAD<rpv
zeJK|Xg0zWW)0`T&$HRU{!>GuG4K%E*!dvB0@`OJ0C~-PUHm{KQ4HvHDNMPh=20^l2
z)SzqBDRTRQd~^^DHqkMnRN@z9&0xq)RB=UESHW+K6=8jakJ5sjlt&MS1+cei&tNFm
zcI!_5QNVaA&_rwySL}=20vlx42p)V(Q{@QogS|aS!g7fG`AFWIC-)l#l5r1VXlG1f
zpUb}-1w(uX3G6)*?~-_j#M>mqnJM<I$lXJv3z6F*eKLqoCJ7?KhLRXA9?7KrI=7UD
zk=Q}Ek)86mLP*k&(2c&a9OQY0FiW4SD}t6;a;Ol7C6JvfF|6~|EUK<mKC7*f|5FHa
zUE)QB>VUwCx-<SOws6s6Pfe9Hh84=IM#F?LUIV1A``Jwu{lEEuqgo9!Vcq1LD$)3+
bT=$?B9ABwO-drAAl?3UHNnfkzzhM4<e?lmE

diff --git a/src/__pycache__/mesh.cpython-312.pyc b/src/__pycache__/mesh.cpython-312.pyc
index 30b4dbee2ff34256e1203f57e30527a6350a9b09..eb225fc3c764745bf4b032cd5b35ff5386242c9f 100644
GIT binary patch
delta 19220
zcmcJ1d3=;b((qKznfuNplbZx`5JG@(815uMKtMUf1K1Eq2tgR&nQ+A?1l9x82#Jr-
zL~#jtfd_(72VD_GWnC8~0faER3g~*QR|t6U?z{R`)icS2sQbR}A76eyYWnG;x~jUm
ztGc?I-5mkD+XI6C78K-fz`x)-ep&4Q*@57v11w?vmGb4wn$HFtDTi!r$BJ3jf-+-`
z#W`AQ^+apy8v=#WPutL%7+7SO>o6E<tW+we)d?;PcR^iDnW(XV!3idVYTOW}T|XvT
zj`|paf-K4`%mC+b6*goN4!Ld_SdCWIDhK=<qN1S8__X;cK?E5LV5qa349-y5bP5u+
zSXYqDD;5!2-9&$_&~=0M#}m=oK3B16FDMUaKe-Bntjb7irK})ur#7W3Ra;pV3+J?Z
zs^VhKVP<vUOr^X$XTh>k#Z~USWHcCDbG1WNRe_nU_RKx&TI`wc+ec|5S6=HF3-#mL
zB4g#`hRIEd2lMJDzaKf~q7lNzLi3K5RRHIj!&X0T5}zBiQcr|-?6&XV^X6Ane+&Nn
z<&Q6#;DhFM8!Z;N)O_cC{Q)j(FKo_(5^cZ-iIy6pDmH}5hR;Q!$pvdc%i6LUi*|4M
z7S?DD^#hAGsZDujQuA6<^G>A>IcJY+3k%=TyUFxK$gYr+$pcP02DXL`Y_rE<iCovP
zuBr5-J)_=qIm{3eUY~yNlI;WTb+(5;*RTp;injXx{_wf>#QnpdsQKLe8U%b!lCcr^
zLR<GhUzn~v`G5;XXo*|D*5+-Uq20W#*mebrGfm3p+TLxmEpyE%qg|T6+^CI|33ALv
z5!d{h>;;JSlkL~Q>gI&T9T4+xY%(>|;>AqpQwV&nwLUl*HZ&(blmbFIs}=4T2b-Jk
z-f_+t>!D7J%J)?5P6FpB!>Z(JE2<K-olVhElu;c#ewkA4s_GoEZO!jAtuWa>pt?5Y
zd#&)XoOt^1gec_;E1l&_%bisv3zw8uD1XOX<s<FB#|9&fZ#;%WXVqTV>w+U%=95b@
z&JzMLRe6qTeL}!W-~xe95oDUCPMtb4Gg_Or%AuWkGB$we{E>=VwAWWfIA&2&00I+%
zbM)y)sUR)mso9Z{=EzGq0p{3_c$>NRrD(f3xg)PxKGn+vKWi^Pdr7M}5Tza2AA>sm
z!Tvf3(=L7+Azxc5EP?*B%9X0}H92LKOM5rpcVGxWcJrIhtpvz#&VRlEV5)ZP1vf-s
zgGg=ri^*c1Ro1S7SnayAy|nLN%z}6=*<A<~&1LR)ERdk}e>DNZwJEQ*g0ng4aJVrh
z9BIrnE4fIo$F!h)$r7bMQJt$zJdyx?v<if7?am{Op$U|oLSO)aK3dKj@zCCU?Hd#P
zEJG=$x3>M*9Rb5BIfB3-E&bi0kgS!wI|x2%*517cFq-&EPzY6ZWO3<|h2zR9%5y4R
zCCkf|%4KDh3x?Z#)VCkc89km5B_VLp{7+6+f=I4JMRinHdslf?7lHy*Wu+Ij8iX}v
zSc!;kcC{Q7qnP|bR8T~~M`jmGUMVP4$zvr^lsM-rxl}t_t2}uvOl*GP<inr^pAIq4
zFLjkyXba!p6HlyG2X)c1sJyhyNi<Bse64jtoHp+CQp;pQavhJ+vD0a=viaia6v)(b
zu?W?k<nJTOh3gP<>t**EZFrjlRBcw<i;zzejAI(R^-9FvrT3~GesPHQ%7^~iZD&)1
zW)gCtBOj!lyAY$jan=F%X&;^40AuyBAZc{NRJFR&`9LTAa>Wi2r+qZes<~$*G#~dk
zU;>NLC%m!UIv`9}4bvDx?HlG&m#ebESwcNLq~(7265PxJ`T4_MeveU)H)3@y`G&aW
zqQ5&tCU;arQkg@52kk~mv97U#F&SgDjUT5&k@oDzx$t!JxsS&IjAFd`=Og_NU(LzQ
zpPtpOy|5sQar;n=!j6>!1fCEtjmwqtRh7$Dy7p@S{=lw%cOeyyY7w9Op!Gf<DU<>&
z>C<Sx_X%}162wAkzWLK4xS@w|MiSon1QsIb90%&?DlwH|Ms-Y=2K6A}!{&~E++c$9
zTJb*<C$bdglN6E(V~{Qu-MCS%kFgB;WC0~m%8x)80T$mF?b(0EqtK51b0U1z9R1ZA
zq0d{cJ3?#xCLek=pZX>qz=g8RhQ7^--yMe}A3heIo$w_RSc%jqtF*w2*TcZ(xfg?s
zp-*8B{gwIOiZfT)r2X76p!uoGWdas!p+9DK>&~T3_;HYBEn&#j*8f-uqniKuV-A=#
zwQ1am=7cMemef12aOU_-f5q2h4^lR1Gk-}>y%+0wK=Hr|Weee3LSQL@%>-%?$P^1i
zY0bangWCM<FDK0oM#SvIBe_aFRb(-&mLHg5BfRWhU;%qT<^xo)l>m#DTclA7U$b8H
zIb1#x1|!p-q?&sPJWYVa;Q^<@Y*tgwZ3I+l4Tl-<jeB-DtQ28`F>kL~c^rSn<6mYX
zS({oOR9>YfQ5zq@)9CXW0=%xxq7-WgO*~}|fq4YFRFIWiA$?Q!6Rj>vttPOJ0Q25R
zsYeMsPaxlbGUv5aUwT=62pp3QQShP|3Ub7k5F<;YVFjeQPewxl1e0=3#YK(fGgPL=
zK#@oWdH53%FYk<jFwmrofuAfoE3^&?Wtx04796lkz7-2CaHrhnfZp(D`HBMu!yb2s
z1L7edjVNLY%4BRjBtV%QN<aJEH^f5>r1;8d!YSnlu9|5J<>my4g_q@?1ehi2EZY*{
z;gCYrP-9Y|3~t4NRYJAv=O&t*A*xAk7$D*;HD=Yke*3nMAkm}@!OYUhkPz^@)kAB{
z&g*=*RFk&C6)&72GNpqY;Tk`%$duWbd@aKdVz(X_(X!qH0kSp?Y!T)fYn>H+TUbkd
zLfv-NEXRJ0A}bgO(c6+C$XKG9wXrWp$&yqEG-hFOQzJwLbdnxH^@oW_nVSm1kxtC+
zoP<afBfSb;ND`u(fxdW|l{l{lWnUNNACOE)5|$d9YFn@B{HJ*N*S3tY%X9C6zsXsw
zvnYq15|PA|G1Hsz<ol46iY`=*pXxUUSAZHDa_8se&W7Bns;$Of_4n~JSoLRqWLzrb
zY6UMx5}V0JlXoQKpHjgp;Uh>eDV>CL6`E@No#S;OpG)_X*POyF0f{)>m-p2BkVtZl
z2b(tfWxFoJG}T6ZM#`6yAi!4;Y{UY$KkA>DNRu%$ME7HP74^-(WST>?oa-~pXRLU}
z_Mw7Xs0y#oE*YEw_AK&Em6s5BjFnZZJVx{|bQfbMRX>ctV_IHXsVIdqcO%ZLiVWy&
zc@uYIE<bsH228FEHbmGr6}F{i?wPiGQhln-ZpeNhXMdr)_&{;<BrFJzs_)wtfm^GF
zQKuqO+iixp#GN^fIVT-i^@VNO1NKjQa?<wHo!O1qJ8}*d9xi^V_|KCX3fuh+>DhZ$
z>|VUxxYO2X+u^@|fqT(`Ma_%r$F|vHWKBcO1GQ~gea~c#tZmI2c`|EshXG<!8YgWp
zY>H}&PexxlHl^KSNKR`{F+@Z+^li_;AK9;=pVq&r=!vPjrk+g8I}x6Tbe)MvZH-9X
zlh_iGdMaXAn<HUozs7zC%U@gZ^5Q+lXM^_!pUfC`FziG|{@bM|9oI8u@yYEWUFf2_
z@SP0LYY#O<+BZ!)7Zm2cDGM4+Jq^@c61GBsM=ni<_J^2UUjJN}iw1?=F0RHaGcU>q
zXe3rqD}AWtP5oh%Wo7`5L5BS1B203B)*lpekQM9g4e_r3vV1VyoOU;jpRKZF`Lar9
zl}q7`h;S`bQW2ZSG{4g6QU=KjgCQT@lL<p`$=c{1G6cReF4}+%$7lL=v)F84*wnDm
zyNifo1GAC(Fe|02%9r5&iW#78b<@HOP;bgf%yU^VmCS$o>Rm7I%g6QdxcjMmIAj{l
z>m@VE7LU5bO%$Q@SY0dU^KQT=7dBfeb@d2=-JsQ1MZu%;&}c{$UkAAVJ{lgk*6yJ)
zobU!VW6Bfs$##$}BCSYl5wRa;E`@3yqFg3nH+{wtV6OLJL1w7V<g-+1KY`ys=dmp=
zU9fC^Wofe0V_j5^o@S|2;eqtg{~Wb#mc5E06P}loiy;nT-HVE02!zul*Ef9Uv2WaT
zJ}&o9gx)!9VVOEsnuS#DC;>K~?@@}4=A)E)UivAxylj!llVGrQiZI7tnrD)8CPA*e
zO96*`d=j{zx7%?oJYj?@^2k&epHIfj6Hu}Uw?ZZ5xEFFMWW_y!&hA;P!Q3}f;nm85
z>)>wK<vw;D90ha_(TK(>7qD@4SRw8Pa=K$U<vu(O(DqQVa$deS9fraO(lP^{m4S01
zO1?7#(!{5M?)Dk52<+cdExi*=;l7`BEK4rC0j7$t0^NsiK*KU>v0mn@>{B7!v!fI}
zrc$N6RB0z{JP6&~9?*6*MTTC&qG~^;ma3ZF$8LlzqCX3rho9Xoa=iBHitZ6>)^^i#
zT_NQ?w?H0*xewn0a{(^NggM}dAk<fHqCSz6=Ah~)%0+YFQMf=`1er1y$1DAbQP{5V
z-$duv1c>#{9oc+RMPlJ<WTX<+AxwD%Za!D(TXgq^KR_YmcZsCa<LCA?B|0~B#G!YX
zI-6H6D0dB&KbOFD;w~flC8@@dDv<X;(IMl8EV+CpB>JPHA~r;;rVSCY|Gyzd`*yCM
z{BR!R1kJ24pr>M}v8YgEl}Ym<R*v}@9gEku3A;S}obU_Brl$4aoU58t1A97s<m?47
zS<Y+58twlLfwI07OlSkKPu-lOyAoop`y*oZzY24RwM;y1><q}&*#75E1e*2%X(H-Z
z{h*hC3|i~%&|RHKQ5C!O@96O$WjDnw5MWp!YW!9s>`Y~vN+V3TO{_f~<vzXuz*P1E
zP1qpaKC^3Bgu>Mw;*m6Xyz*bfJWmkG+F4#%v1tA>#icw+rCn;Syi3g<Cu9M-!XKfG
zp;W0zj#>n<;e#k6ivSI%M>yxpd5a**?n2ApU1hs1wIH|PT(TBmz`|t`@|i`DAKGH?
zyWe&ux1cq*;I+I{xy7<$5%jf3IW~=N3y(%qose=Seo$-tp#9@d#t)bMD<Qo$Cced<
z-qvr(>7*%5%E4ZTvtP=7t?K>!$-Bjgq$w>iQ`+LvS|ZcXen%yqiA-yaOl!L7RAf$D
zTxxw$TSA|me`x%}$%KAq5(c&=3_O{TS3kae0QwK@!wjjtTLP2X(3L1^`>p<8D{6@!
zbTWP-6OsDAAVU6kCB(-4haTn3#W139hA;%DU+Ks*Bu|Aa9i#N0ctgy1aM5PrNObi0
zJkybWCWLRMM32A5^yV-V!lMz<<42i}W|<Jmq+=r5{pMnLMAUA;fgrQ#GbKJ_Np@1{
znv1%5VG9?mk1rd|d#KV+1lVY%({R_(Cz;RRS-WuTgO@LJl`JinpDl%yxO%Kw9m$Kq
zf@RLCQnd132jC5NFDJY%a;Sz*N+YH^*OqOaU0l7kG|I3QkRtwxk?j?*2G+}GRzT7%
zyma&O#4M3QE40WdR|tGUfLAa!R=k1&t~lMcbos;@#l&<^pf|N3utWAyU{cIFFsEE9
zFr}I8m!?93IZChETi@Nen-uiK;UDt#mAGK`mLIKzF*96*fmi5Flw!eanDPXbU_ehP
zUr<%*tXNXsIh{VGN~P34uc`l_&mba^J+05^^9#9R6%<3T`{h-jfd~;4Nsp&W)lt({
zmX@)IyW{TbUbhAU%(cufPjsTfV_I5{)}Q6XcAA$3a`^PP<UHz&XFm(IfIe|eF?cM>
zvZ~Uma^3&%C)#eJMjVVDMyUj<%InJ{Om#XYL#1sU^n!NTcO4q|f$p8_;76;4V&=*Q
zx#KR}5TBJF-vzm_TZV3gBzS~8`&e|GCT)a7SnjUe2>&uW-XYxBr$M=c06CY+-v}I+
z>+XX%$9tHrj_48t`jTEHbGw`GgAE{d2g|>WfkgMrEf6Mx=BT2~kN0&#nI*^6LyFWI
zpjYh*H9+;N#{GmEsQS}yjlCvX4e{oMdh=pyV$=w4UUW4E{MAUkM77fwg}v11GN`uU
zuU-G8ylPwtYr?u(#$44hmcF97X^gjNY-dyHX@CPMjw*^!@t^AG+`AUx&U9`m;*C@N
zWT=LQt+pP<+SCXpK3)cEu)vm}`UM!uOsYJ;6@7t3xle=PkR<;}Kgn|QHW*%#q9&>-
zOi;3##7q$Lz0@!@MUD67Cv@hky@-`+)FxynTullvc<UspdL1OPTb=MKt4z5T?N;tq
z?Dby{z-dU8C$^$9kjA9gdh7Jn%8MG(*M}*xrmH4pY*m=tFc~6)w`4336=>+@W@4Wi
zGPwZ~6Km7dj9BccwvYZ>A!>VjbJEoenIj=~T85fh7C3^)F)H(G(`wU+h1x!~y*pV!
z7SnZ7Yckb7$OyAmlco0VO7~UMyt&!GPfk)orrx)j)k%%o*PD~=r6!1|31Vt2c(`-@
z=ZP|ZJH!T|DQDhDo^f*CcIY3_uO`m99bJoldXG`&P0TlzW#rW4sD5eyD`^nxO9+p3
zf7M?N<lJD+4dvWimQ_rdQSDzL)c$403Q-|Cl}F8yV;W&_R4x|f{;H^B2lS1|>8y(<
zi}&EsWIr`kzTF6gzd>~EfErxvoy(By0l!J%z~7{BkUFq7lZK-v4^vs38mtad^}HdN
z(({I5X<sfKhN)~$U4x~1UcNf0R@F0ytHbnhR)^H4Q8gAver+F4)7;MMHvS{jYgE<>
zb*SpAJzVwG9<2JbWhCNc4MD9LLHN{O-bor@s5P*}M<JrlDkFPT(QAxW2X`u$+DH9$
z9aPtvF=~ESo!-Cdidm`|s}Ap0XJr1bIwM2{$e&J5+HZ74lf1A~$L_(84AQ?0QIkV@
zlhl8dSA|D+DYZ9MJEk+Ir#cNBUprPWt1alPqk2=dg`GLwTa{VLEO!boG%Ymp3>m=D
zu4}vNUmfb-0GvXhRG~IXO<gEv;O~r12RNh4751g#y7J=OiynqdGwhM~?}lM>A1C9%
z+waAg`Vxn-+s+w%5C>)W08ImZXCAD(Q@yC1Ei0RLit~G5rf#$ElIf2?a_&BA^CT8z
z7U@2fZ;$>Y74b&BEB>t<kgFeoDZ@B4znRK?J{RrHJ)(3C{#)x2^YM57TG|CyqB$<D
zs$7PFlb!PGM_>Rn%fv_FWhjy>)<J}9e-yF_*yP7&z|xCC*45EnMiP&J%awBHg7T83
zrOQPKdgAlkMUTOQfKfC@a+9SoVUK0cs=Yz=1@)pWHmOHOw0*m!VNsK4nA=pk$FghD
zez9wAYt+E~(+`FnxZ&XR*TP=9;lSM1$ijMP``=gnG{%7uHn-msaGf=?B{XNwNK<QG
z&Rk(SX^o$2HJwh4pBre}YsAB5Upzv2L2lRwNdwtkVvpugk{)>kok4m``FuNeT?qKg
z6Z;@PV4cw%s~7vr;a{Q!&3zUwS^ANKbEnMQkAY&Fd-Hx6C@}2)`g4#2i)H(BkR47Z
zH=W!6-PBo@%xOkHCd^&Z47<VJy*!JsttOTESjM~neKGV}^a9kw68ZiMFb?u$+>4NG
zxj?#Nqf?CxCpB13fI{?m&Vazj!XnBeV3N1Li1C_5M0mP9cN9z#PeK37kG!y{NZe5Q
zfg8s4?%KzBg36XH<nv^Xr*!i;i#X^YZ$5}&w-IjTAOrz=Wb0po2^i6P`z2^F4q?|0
zeHuK_qW)_LY{gHH#aTjVdxqyYFtbQ*IRw2X-G-Gj^{s`+k3u<mi?xK~SK$xLyPgWz
z_w6wia^=4cK?<yq39mvr%yf@?6^4o!A`RJPx;Qk*9Is~=*+Cv{b;R_pBgCbpx0drc
zYmI#UH8?0%b2Z#bY<V4`;12g=ufxZpmX-zfIHxM)Whl=g$PCmcKV$ET=<rDB$A>Hv
zUJy1A15D3)N|CEfw>1b8&+BD`-bo;rz;XgB5V+`K1#XnJr<(j_&|44{bZ;o;{(!mb
z4VQzpbKeY-^WTEEV4=)73TaW?;~MIM9e3_*zZSMS!k;@QFifsHiZRudtR!w!lIH|u
zN$sytn0Y()h;bNZ5NjItdefY7Cl-24G+0WY{N=AO*1_0W`FL!(2U_41e|gJ0Fv)Ts
z(ebH#@*PNu$Rmz;e7m+Vbh;QR+uuR=evjM#Z*bHc7KtsU>W)44Strl8K$N~^;f`3C
zQCQ0pN&yPgGma-wKuBR3^DuD7Ox?HCEw2Jh-T%C=QKE@x4yxWwDH^Fsc%;EYWv84N
z0=E-jc48^jPTe>t6-R(sjHgrrfkXmH1d`?9Ru~AMxI0?mOVc%js2S!PSmfhpPQ{LV
zw0}Vb#IVQYTA@_wn^*5Fiadh{ej8-|8JOxgz@jB^8v$SB`Fgqg4D=DV3vJ%Jaj;o_
zb_VB2iaWRs&Vqd#(W4@`>d<ei{P`@T`4!;aLRp7}co8MeJ>CPWt?`Sg0V#nV*5UC9
z#5`1zEP3`k^hsm;=cAt&E!GDf1$}{#sTUw4mB*5X3a1cDmR3ZMdBL)k&MI%zNIEY-
z3C4%ty8x*$+1+sgzA#PNN&R)kScx89L}|Ho(WVq9iuV@C{a9G-nBHaFdMe94nf3*&
z!&&pl7cj8jW<s@<z!n13xaS(n%0S>zDZYeZaJL)R*aKoTv&-!8QkX{a89)QaIBO`y
zI7tUPPawFBz6i^{Ut>u9kbC~u@K;l9kA-9|wblo`i!9%2@(krMD&NNYMru(;H1I~9
z)tzJE^D(dU1cw(`Ru$G9R#xsgg4aq`?Y9XB37047{a;z+nTrrAz6f)Fc@dIL*Va+z
z_^(rQaWQ97c+&M?!^Z)OV-B@qVe7oenLj}P97zbb6Y!DeTlIO3e2_{XB5=Dr@B^+I
zo8{krK#lI}zVrk53;O{o`VEbayaH)3!F|mY_zYmLO#T-n=RJvae_LfHI?;<-Rk|dn
zr^?K5SN#j}t+hR-06T?$LUdD62G0`-K0)w=@J$0|nx(-5(?peb5qObA@|$x)*^T8M
zW7+am`m|VOK-W@vgc?0cfQCqUj8cyictXgeJ47r_n{uN_g-Z9`Mlr|;Psu|Tk<?Ai
zS;JW`d$<y;R0Lj;epWFIo?#!zJ=-e&6^>Ew8y!M{d*wS0Q5+CV9deN8kW7dZZw0(U
z8HWfY%WvXD1@y<82I3V_OKRpZJ4=_AyF8|<(h3(|9^)00_3s$9V7=i5!K9x=`Erk9
zIjU}tx|GW&!1{4AJ0ql&9@E0o1?3zz!(O;iXebG(8$#KXB<z_K()5`1bEHo>O)XtY
zf2>X6I)is9c~zcELRmiMHYE$YCF#%9ahHYEBc<F8E5cEk-$z_O>vgKcF;gCHUIdR(
zA6C4Mxu_H`@b#w}Ed-LWtITkH8T5%T4Rbx_H6=?co%~a}MyZqM`iRWPQ-sG@S+Yi<
z3Fr|ESGmG<|2{We*y4|1W_46i;kd~;-mv1zC8bJ9g;H7ex_f52XfQ|lP948TTwWIB
ze`SjmLs+ad7`QMq{TWDyew4~Q(Ue7Vv<%Hr3Y9Q>Epk^sk(9)3xe*bs1QOuzFt0Ez
z^5cFYMYb;yW@*k5cw5TdD@S+&Ej%z%is2#;4#=UyMQ`|<oI6}h59o(<e92-BlrIk#
z>B%QBLsyman3}3wpzluz<PbP2VT6beWfG242Fv$7*>8kMfiL8BBZNIFjq+(V)F&M;
zLC556BSiWXVlXpOABewDwVsGD&tt(WvXxb9J(f!6!pbG(3dN;8=GDuTGSqESagT9T
z)f)8czZ)S6EF=<Fq&_-LyU-n{jhEvv=2l1W5Ye!dEL4^)EvZ=QT9o5<juaC@c)}=G
zNPZiLQl2ZUax4sNjl3fKE&W&C#e%6gUzm7(xE8L&i>mBR@W8NCc;I*lS@&(FO2z6$
zxc|e`p<JFXG;+vM31)sQi>8PiXq2ugA`9M-f0`l^aT{=Gig?>3UT1e%J~&+jTZY6S
zQFgg+I+oXKVYj5p_UU4ESd}X9;tUW6e3-UGD?J@8kFORMf0c7<OwOCNu{Ypd_Gn>+
z@m&1zL}8WZXNWNY=CS~825SSmO57u7imw2U%FJ0}WGLMP(Fc_U^sZbrOZ1N5HG!l!
z6@6Of{8PDamgt4oidwNe;V8DM4%3IB+hNy8WWx26jJQ#>_=VWF54>j`T@}A@qsY@f
zywy)UC}he_VuUQcNenPk{84COwRkhBNmxS!u~=p%YVi(#tUO*K?Am=3{md9H>ub_N
zYwg6fwVx4#Vx}sJ!SkQmb@vEw7Zo8Z&sNbXnYT>aa3XS6nYA<WR?$_t#$0B@Gfa!J
zyv&czGVw9NLZU}Cs^&5?k;3Ho6U027I4gazI3w{Gv9&}*5rMg2AY9ILZp(GJEvLHL
zGA3>tp&i)WD^TwqIlVyzKC&cK!C>&dTd*ilx18=2*|p<$1l;r=_=UP>Ra22+i`g6c
z#ACo3b5#TjfQUDDGT$KTLQHhdiFdKQ=bUEw&}>nqPnoU}*QW<fl$qmsvBn9(8o+8#
z8n2&eq+ks`&fwL+<6pXbdAYM}N%_JmrICtgAK=}md93rDWjGsfnpffvUjJU^bb5ll
znMozICYG1sRgm%ux<>D@m9MEnT;*lFg_EswM4_dMRI5@t=89xFdaj5y3cucR&RmgF
z`+jIzyBWXQ0}Y{(TWasF-M+3hBxjSUEjDgb@Q1-+{4`<OiQvS`HiJEW`;9wiH_qM@
z_Rt?%;<Hai_uDi9A2e(#J{#_6i%YJzwZ*4)7(&Am@l?|uw|zoWLF2Wp_KZDYt@gfq
zs`eM{tv;Btx8{U>1RkQsChrVx3~s8eIu(=MmYUvZYl}_TUeQ$AxVSYob5BZZZ1#TB
z{+S2-4-PmGbRu>nw>T4%)f$tvC+}2DE;iY2yI@ahi%DWUgyw8aLVF7K-eERG#I^S^
z1jU^ROlb{FX-Yp8n00wj=R1pOCxa8)^9?y8PKS(Wic5dMRDa{vpc5e@T5Kb(;1A!%
zd2>+sIGYT`S%f$9y~~MJPA?JD&Es(j0lj|-N3}<jjcPA2g)^_lC`;Fh=xBWks76*~
zR(`s<$ggCyrmcbIER&&bfQ+3d$^*LF@4M%T{sp{vMjKHBe7cfMy5PP0?@z<-y|)xe
z)xr>vVl1z6QS2}oJ)n7FsO3`{@O?6?RP?V+G=w@@Y_aVLhT!lmH{E^Hy|-*1a8C(J
z)DgdFQd?ZonYf{?aYIkWUDIK(1ZCG-c@)iI+4V(OCq8-S=*H1|MzzM}AIxiw8}nLN
zYg{3YZzLXM_il~s-Bk8|WZ#PcSiRkdt=q%(&Mq4b5%DeYV@`&TbssGietr%%eOHh~
z-8bTu)9bl>xme7?P~n(c#dWpJHVdH3jwsJuJ#E-&<@xj`PPEKa-Efi*r?4CIK3S;K
z1kMm>L*TK|)Z$6xr{L8BPAV)wI@3g>T0(CHJQf+eL|lNk<i#bzE`E-2`!5v^ljUVZ
zkr_e(v1?x?l;r9tuMr@Ns=PsfXF09x3RCZ(!Fh`c@`<oP1o&0NLCPcWyxg)v6!*$A
z$8<Px!)Xp|FE9p~Z5@erv*S|US}^D8tq$s*aJV8Kf?A)SmP}o7r>TUS%`!U=Z&L@X
zSnSsNb7y?>!ec61P`-p4c}ykvR7JPdEK2qi`EZs3CS;5WYd&$&t<Ti|*eQov>g07*
zVi2rz-(Dp$K@2z2@o)$cT5X$xJ}5nrX_74~MIT+P780wBUL_*^hf!|?s%73P(N7FB
z@~vg}ZL7pLrp%tS{4Oc7;WiN$$`W9y=$a>AxlJV9#9i<<nMKDqS>;#=%s?6;W^wo;
zc)Z(4p@IPfcxQV9vV@TXyv5~G-jst>k(KsaB=#H~xj_{pAyXb!#cX)W9akeB6{3Kp
z<e+Y<!%0d5in_nI`6kx=ZLK(FEF)K5_kYKdtnQ>Ss;9i&lzNX+bVFvZH@Lx5sD*Mr
zpmHXK9pe*}$3dWzl%fk29`o9g%Ca@e`!ewk;fN(%)nQ&ze8<?AW8Ks45Q(B6&177Z
zSTIbBi+bP<IA7oJzLnWQ=pV-ObukVy+!yW=YhWNBnxm5HyBQ3Z`j8x<T$)7Q^-iaI
zkgVGzZh}1bKQ>|4PVU;;t<}|CD>F$nto!<+spv!yC0$#5?_${%wz)#=Ms%`^(V((Q
zXGO{UWoxdNEAADK`=3Ib68!<?M_Ia2r1}}l1p6Ze_^>ijF6|I_?{_o0H0M6^lgsOb
zLxz8aU;88dL+f%)hP8lhsF52q$^pe9I$pIrZR+$b(0bgC*251EnunB`Yy9PP+i<_~
z?Pg(<4{XLO(u6bjJ`odQsqse-XDD9J9$bd$->Qdw+rtTo*A?<dC&`6J@?l@$b#^4j
zR(B_nvle7S3g+zjJTkEdDJ@J&7k_#u%R7YScNlaKgLRWS8N~js|Nq6vYuy;J)SVzk
z-0yA?ABw!GdXR!On$!!Qq1bc<=~4z|80pqcq#M&n6~@Z8`$cgmPYm=zy|ZJG%+<uG
z<WjUuE{dM6H(bmy1lrp|BF=;)wT2{}3Q0ku80N0gL@$B&@|w2dhH?}sfn5oxA`8ra
zs-<&qXUOw_7sPY6iC{UfSR}|_whF6u$3eUpuuY`NBd<W5TuRsf2BzVgfH6`8%15`M
zmzFjgKijq;pwu=gvb$=;=!Hw9w@}{qHbzLAq%eWm{g@Pg7PEPZWg%Bnd6uIS+7Ic{
zB|@&HE(ewkPhOsPES8Z}Iv7D`fOIHj%qFqTCGdfK@j;OqORYSC<c!d*N{)iF@N;Fy
zgQ6(+Q<C4c*gu{X<l)`+hk9=cIU5k&U5w~Y#>8*G?xa1tB{bVT<stD43}ISK*bGCv
zY=3BUt_l-VVRevqo?@5*x4+}$A0HO|639j?=ZRQ4xxiR0u|ISC)V*d@4teZh(Q7QP
zGrUML=d24f@s&RiXJrHke@}}&iV6rkA^ZPHj87dS%o*+DO@;|D8QKQtUo!py@Udut
z(PqxlE%qp{-P->rk!ejDL(P5G2+8z@af+y~EApqu#L!;tm>#e1Bm=QVW*pl=J)p~0
zC0I^-Ttr#O<MBkvF{+5F)m=oN;o=KaY`Eg74<2W_Dya`UTdy(HB^fR~LXko#e-d18
zEbs)<m9Q0fg=;BVAcY5mEzBe=M2dQN1O*&%OC=QSi}dh7KBcZcC%{pdaU_ND1SSw5
zew8p;@C5FP$I9|2#9BN<`}hg*uu&{wTbM>szUn9%>49tuyTz2AK-QGIu$&+Dxm%tR
zJ0N^1qD5Q6M6xfKAlE%3?6E$Zs^jT=!@5uIdq%VhC-;^@m-}?ftJmt3!V&5!3W?P&
z7RR|;_K719;1f)}e0V?3|3UKQ{TM^~tNd=iSS|yW;U(_rvhskq*MfTmbCsVwd{M*(
z9q+ccHqzc&?z>a?r+3>{TkthLzNc5}%S`xdM7wYoF2*L+f;$SCVuK{@=+Ry#B~ryW
z0_~rhwgv=I6X#H@LK_VUU*WU4c^~=l3mmyT5zKh{j!&8FR5wsZk1O;_)ws1)M}WI#
ze(P_=J#&5M#yn?zfbf!C3w6g;Gj5SB-L}Y<DvIy$pKqnpx5)T{$fDYi^fn|NV+7dJ
z<ZWqUW=vSmVnTCwRUpEzbG<~nT7)8RQ2iE@yKK-lo(N_^ndoXXzC()C=<U!hd=3-@
zPj@Y|_%Ln#dl0Sd-0JU#7ojbx|44(XL3)%7eL;j615jl9pBGWF{%Szym1r=i{$<u`
z+VcCOVIhgin$r+CJlkaG7Bc8b8PqkX0$)Zwe-&@hI&X5rZ8!k;O$;oEQi;(Rjv3Gh
z;_-c)q0WO>M{HdY1WVVY5L5S5rmb`bDfh0~BF;VQMX^ED>PM3pQs52L9Viz)xDckV
z0X$22IpOJ_LggrJZ>Z7d#)i<;Yor2R9C*cEL7%&@KZ-26a53lqilKA$|A0z|l08sD
zsWI)Aln6>i5{N?JF`^mp*f2m*QnjpXnZ6@6E?879;UTnZue>DkEa$L4SDO6cB{8lR
zcb)(Dz=9)14=fb4*%P-b4Y!@Kr?=YEPvU?6F!0%-dxt)C%?W!R#|StYpqz@y@&*->
zo5C6$JChodPR3^KDR_3m-r5OIO*|1hm@9h&3Ik8Y<n#<E5Q_g>K%w98)4{`=>~&T3
z6Yi^N2_C-5hybsA$Ha9Q9Db7kV<o+_Puu0(Ka0m^xAh%(I$>hd^!@YQOAah~E${sy
z#ShLukub5|+6WE)?SrWS-v17b*yMkuqYw-sBd&A=8e(#;bPO~k;tLhr-W%Rb4=;9@
z-ZJ?WCt3b7IJ!8^@^+x9I882p1;ZA9lAB%;xdC~)UgCW0r>(f#!S5KgdY35xr>1IL
zg*RdAY}$Zrb}eUppq~RBx&HWXhzvL+3P<W=j~(GPq}yq<*+C!;>%2k0z5!R`ofE4B
zYe+8N;((d*!9ya&QiS%%wN$=-Nc0(J_UpT8!nx>#4udhMFWu*f^A1jjL4@_?hipx@
z6ZVX@nB<)yjUjvB{g|waW-PjB#0KqVY~LQ}j(k<r`h|CSIc!dFb_|k_{Y50#`iNyi
zz>Xj5dNR_k+qEN<`WBVhdl^K3LQqDz?CZ=Seszb3^15?|pQ)6`x6r$AyMi$fw-flM
zEqymQmRyQ1gR-<#xfSnPSKtk)>F!(K7FpH>WB^gFKJSXeI2FBCc0+h0-s3d$8k%}M
z$>&g8?<Ef35U}98Hegs2U++Z7fEGN0aJc)mh_7v7EHIM9RNVk)$*i+t$P$(p3#iNc
z)5n^{$L7u_FK=YPN4QT)^GIkPlWa;U<r5m?UO;)dd`%kffueMHcZuef&O3GCjB)>R
zR+O0VZd}PnB6<`n72jQdfO!8A!LQ!R`8IBdX@0kj+h^|PkHmZ!%;cM>J$obzvFG3M
zC=r3~QMM<@N$131#}J~Jyh+`!tf0?D2r@${W^ujm9Fn{TrG@~DawetNr`$*>9#Qr)
znT#Ispv6>$!1dC2UR)Dc3g(DQ#l`@0Onba6K98qUi@omT!{<da)c$W`47i%(2AVN*
ztb;wiF1H0=V)St3{-Y=7B4uR7CLoW0A`<X@+&7<yC=qxa5q~{_X+}N(?sfs5T(=xw
z<Y0h%>}Mj>IGuHnEZF#&sO?uPmjXz+{t%ZHo$VSaPp7u?TEp7J4y1{y7s*Gy6a`S>
z{_IO}&g5YHn2+u>^@9H!OsL+=kMi8NB4#j6`rqwG-z4tGcDx7T|I~s^p&anNh;Z1@
zJ$5Z$Qdy<X9=&%$S1)h*P85Uce&jnb&}?BUKa?L_7P%Jg?x+m=UL<wq5BXm7wdnNA
zS3kkW<u#ZAf028?7ned==gt!Wq<EQrq-p)$qfQz~%-aY&M4*Qn)lnXSIC<#@G0MW<
z7v#_%#VsRwV~|ET$j#Rsem?YHN%G?hCVc$Pp-GOA@s@}6r%t~2BMx|z{Q5^RA$Wm5
zL~fdO*+9RSC(E%viKLuKHi+G{=CXl)FW(Y+s~Ms;<y|(=@8vlGtE^aBRX_8xfl`;N
z<mR75!Suoi$lWyLvVndtPwtb2b?^&+F5dzREs(Vd>(lS$=|RQ#;+sC{_wuah5+e-W
TwCb{fe%p(z^8}c9)Aj!VyoyBI

delta 19714
zcmcJ134ByV()d)*k(u20OeXh5NFWCZ;Rb<l9{~kX5sV=jLJ*ShCR|}+biKHggr_tp
z2#5-(t6`%IUI^|dy1K5!sKoI?y!Z16$LF!@xBRQ>%@MM=|L^$!<IkFY{kp5FtE;<?
z?#DwtArGAk34bFjELewsO<8Me8~%DI{E3j%yuu~*%N>PFD(js2s~t+6Ln*AOZ7f`|
zva)))!?~p6Sjfwc;5?zzNu3LBjaIMRo2EXoB0s3CTHkD{8>=2a60c5khCzXP>)%qs
zC+HR?>U7OP^wJfi!onn5wehB*I-L_XCsd1O6X@!|pmXVOjZzQg#H;NehlQDxx%doq
z!x4WDVUag}3_%bi#|;wk+wK-&#yEqnE^=ENq=bOZC2oy#8I)+3JoF*N%afI0Q3pD&
zmRX;RSoJ>VG@(pYKXaBvo0ZWxP-O*yI|$sMmNaJCJyiUFz=s4rBJeSRPt=CSMB67=
zYzm#LI2;94^_7a#QFmUC%wMDKYitb7>$K)|SqC0i++`iCX0DtbJE(PHcWi>3(KcgG
z%Db^eXY~*@sAK)gMu1N`{&Ur%2KaJoL9BXY-4F0(#{pNc34c0%ch~@)j-_{*OmMDa
z#odJf->ZA?84L?#(G8Fyn)R~nOOYa!d^KsyYFMD&yXAXWq2AV7JoZ#XT4zMsI}sV(
zF|j)*?#bF;xVNw?qogZoaA(Zm?!?s7iK)BC>=<((y(@8G>x2tox`^o3oK4HN5871M
z6RwMll|^5Q<c@^4c>vSZhOLG0rMhS9Fc{zQ{#F%2za$};34EoK$L$cKZo1bBv(<g~
zI$@Y<z3*GdQg?5*tC3rR#pYPGZI)H`+z272&HW6zwV=-1HpToi_RcjZU#gF8yWVuY
z5#_dB4U%`ozH80twx#Wk*b#BS@UAWYtWiW2sBI4<cAStIfLwgDeK<HfGI#6*+pmbC
zJlEu71i48kmcCR^-9H1GJF*@~2SY9>_o|b3PK1peckeu{FMglM>Xi%BkY}1EF*isl
zqKeDTx4L_eJ&vb3d{VvQa5nlTduzvE_N*|NsZ*|5xu8ydq#%hNJQ0dxac!MrxudSJ
zV)3%d8n5=KZI6^9>#sh7Q*TnAJ?Mm^YW`!(l1~!?QLg*}f0Z)?f(U#{;4}5`V`EIr
z?T_l;9!rh`z*;>4Vo5PmDO4T!`1P^T#@O?DA;yGrNoHgA`S>_v!MUQ22OiHbz~9uP
zPo0MdHR}CX^+dZ3?CK}&o7F?@aq2CHA|bt_?a&Z_{vEIVVI{zjjxkTS0Zda*KI4XH
z>=L6sa5x=R>&3&1AyLh8mqAs>68Gz-)FdLE#Y_;eAn=%{)-^hmRh7$>DD}#tov^ec
z^QCCLEef0F8d=63LzQFMGNphz7pgN~PKIptCWIa8hL?BbGtM-6S41G2zzD)#LLkgX
zhlzdLG3$?$Ev6yVCQIG<=i5U@P;n%IVs*fqLq#gc&~9Y9<xMNDBKhW7fH5QlNKzks
zD?to3t49xyR4=?$Fk&KgN<rYny-Sytrja5>n&PHZE?YdYy2er9bTn2pIF#D@>e{L?
zsQgMgzL%dagv5^3Cy$6R%zQCnDkBi!#y=ph3>0eQ2_ivM)Gbm9sr3MLdDnE9*zs)F
zE{LVBO<{h*iz=OtDs}0*2h@4*MuaVKR8}t~@-wiNJajz{aO!)@P16ZWIZxPI?`6Y^
zj{kTs9dfl=e1$sCD(>gXiCYzp)H~E+>J{B~SfkGGJ`BT2MhV1YFCK{5-!WCS%@e1#
z$63_VhZEFe9|o%}?`MY1Are9(QLH}oelcuN&%A#tjAdLTk6ySMSJ&3HGOms`&jOgt
zg7Y(`jO~SsdR{UoR}iXLzi29*&f1!~3c@JW!5=;g*RllQqfFCYqA;%`@1tQNmnk%p
z`Ya&8^K%WASbJDynEn;&rcZL9Ozrrj2o7|7{>em8!#<ByM}Hb;dfqqq6m{X}@2j)U
zROK<&K<ClOnlcW7C&J5CgW_0KTffqIP<`nOt9tZ(i~8#sJG`t~Kl>3zkz{PtyeY~*
z9AAgdjuD^Nz|cN|8ASvt2{;h=#7!tJ5mA-e{Y5f#cl`Lp)do1N&iHG}Vjl1!8gMH0
z4AUeKFn58G^ruEFi)1R%s#c;1u%t-(%C-2I8?3G7V3K@=vte0nqf(}x{OeTss>A;8
zYlOBI8O2C-*LNczrK9`1Bmjk{$NWPA<aA{G@D`*7NU<QTL@I?qBavFEMxLDw1s#=V
z!}Oum!8hURd>rd_x{js`I|S6Ku|Ey$MM_bp|5RdHLp=-C+kdKs5gp(EQ~<_3r8}0s
z(~<s5tSR$0d^vX#vLB$-hlRV;YcJ-cZNzpSP&}|gxrgxGL|_?#y9v0|-50NdH67<J
zb{XxAfZ0zX&bLql9{MWzi4pFC!|oarSVMAEdT}oSmNNI?4K&a#gAk06`=emA?I5*0
zK!C=qJchsnb;=q!XgS2lh-jDv-?%HHVWlt+#&-ve$|Lf_SjcSQ+2l=UDs>F7H=7=Z
z5#Vj=YAUg6@Vs76j}-*`I>zd(R8d_!ai&md6@g{~Jksq{+DD*+zz7{mw%2~mdPCqf
zd0!kHh9UCo3P_NScvu0M?o;tF9>Pf}%W;QdVGNNuHkd%0_e*C)lH6c}DA*z&u))tJ
zZ6vgCV77cR0qn3#{wV=Y!tL^YJ7mLi@|Yb;;bHfWc1VJdOyY;>SIOigNQNpol760W
zUzY?n7#Vm^>q)6baLGcV+NM~aNh|O!>N>}o#>4W7WSA$ygVaH%GG$H*G=<#mf@-)4
zCsui3n;ue3%?6j@mILge=6og6Os$|ycNyiCUx}nxbbOuY_?ld%1*p-@hUOrbL7uII
zSao))S#9f&PHh?(^;58R#pfbUHm5<TJ{q4+uMx5G!}TIKxY<xAK)2R-xsJ)O8M{{D
z`#C!Fx3J9|bjPcO#+__8``Ftrj}L%U+5an%YEU-(zu~T6!~cc5(#vqS)=2-k^wmMc
zBZ}%tzcfE^>6*<hvmEq1BnMesmRnr-(76_6HP&U(r{hCq6C}wS(bwZPMoZlkmsvf2
zGFhF{6T^*iwP)G>JS56784#4}lf0!lXtM?51wi7KTVS)xWoZs}1^1GADL%2(cV@sK
zsbJi|vmw9BfLJ~8b!aW}g?(;m`fa|bjXt<;l5G12q^Og7n0LtG$89$u_y5R*R6P!^
z7vU^?@=v#+`I47L*o?2;o3r3~G2ju@(%cBm3FhrOu-?;X&60gkcuUBZx8^`h2(NC<
z7|PZhu;!7|syvIpqepjy{Sl9$p|Vy{9>l&LeQo0^<tSkpFFSK!wCNazh0b~z+aG4M
zn01kH+hJo<k6C9;l*`+etM#q=?wI)2kyw+EyxX$F@<2%IxNfUWHn%n3*Mha#{Z3^K
z?aUh5l{NgFE;1o!`-JY?{2kM_m+gt`&dA=Mzc+thVSARl;7~zV@%Xnh#$%VPoKu-4
zotY&^Qch-;ypuVlJ1_sK{Db*NprtEs#NM*A!McG(J#o6setmj(VecgDegCwx=}4(3
zPnVS1I;}e@etY^>yT)>DTdjK2zhL>^f5~#o|A6QJ3CletI$I8oFgmHHlu9>)E<Cz*
zM3;MYE^IUOwW14YLKOn65Semd0oaOo8^?XeXS@||#@4clX1ATdD(a<akZde~F{V`^
zINAMW;W?P*7KNY~!!Rt@9gI*kqa|-04A*6?$10DxwxXfFwyx31ag;|m7b}^F&0|<p
zTjx}Y<v#|)2>YAZvMI*Dr{XJbr-SaRO5q26%PrVoQm&<!55jhmEhgLSJFtPmcJfZ5
zYE&v$IhJ7*$nGsMq6CIS^p&@<&S}C@8vkj&J(;d1o1c%W`ntwSWV1pZ8xAHo>wa}O
zylA+ZEd)y=nJ^J280rxvPmpuvA`WE&)YcO5bp#$Fuor>T?5FE<wfD*Q$6)Lp9_s#O
z3_KdtvY*<b8PF-Tl9fjZu+?Y#PgbApKhk9xq*KcmsFqoJh#oPEqSG9j-{XtiNKF<`
zQlqB`Tn3%TytJ~aeo<{@TAe3oi38o}$~sL00^>PEeg7cGOorTKvh7XretBVp>rfnZ
zRgQ|~l?@}^w@-#45Y7B^?0Om*!l3#Q`R6H+J)PYSW|>vcL1<qgz&-_Ogyu=?qmtK&
zz)~RQ<7ptUNsgKdr9n<%Ogg{JDA!DdBFNMnikGK?6SCYxronza{477736n;U?e~OK
zEWrq_!hs>2Qz4hf6I$21iq{GA#N2sx|Aund0Dp9UT@EJzooMpaKgGUHQDqni74$~%
zqx*x|U;z`oR!)-#5+^TS2^sL8GUF<EiaW>1FRp@YVG47H&VeOh{f^pdl(2+p5LVt?
zxoIwxi?A^F2Xo<Z7*ngg3p5TWp_Z`l7%CM<rSbz|<7s0JY@)|?pu%mjk>{}7WMQ7E
zX^#8rd9Xzk@r>|lVt14r(}UUy@`yESdo3WZN~?!9#>nTcgES~{e{dZvgc*d`8&i71
zFb1fut*fbUC`!Ge(5p+M%QM7<jk%~=;;6c*!q=f*sdgx1<?YwQ!?N=#6x`?q=(tVY
zKYsy0*{|43`F8>&DPI7)h;*Gsd?^W1ucinlQG;>%Du>eOSTozbYax`u2)_h<F%$Qv
zHRoHDBoOc1`nuOvIh@x?dj-rAi}d8@!ASMkrzz^}8iTmCzwCTc#H*1F7NY@^jInaX
ze}YXtxxylUt$>2C@)}*U5giwkMdvcfv+E&FE!toa%|UWSC0OO`8zI<A{vp&Ya2Z@W
zcFcs!h;EvZ{J?Ag+4-$V3Rea-#vzyd=K@)o4{?bmEdugILONZwo^qy2thYg`zd^M=
z0ed#X=39{+^Cj#=pgZ`4;c*fHHR;7y?B)29Z671sKir6}`2T{lxPRvCHXJZHbD}X(
z4yYD(dB-A{Z_G7T#-KMRMXWot3Jiu8;!}ABL2kI_=&)B`hLfg6GNb7|+qxdC^MuhH
z);VfxmMp4QoXTVLHi;UiQz@HDe<tuKVbmg7<v3NK9JPqZWA=6TSn3>6K1{{bh?Ga}
zu7Nm%N7OA+KRp_ors$Bvrf9$V`8qqRF=yrc9^^MQFe2oXHMi56dm!r_YoRPz0t2F>
z<Ix96PCu1Y(wS7!KCvrlgiNf39FdeQUs?hQi>yhfto=K!{ok?XJ>hIGJykNTvt-(9
zgS$#*cNJcFa?aeh3+HyHWuHnL+L<==h@mTO^pVQWw6WWbJ%zd$YtIl}X7<U@)b1GT
z`U%~ANF5t|G6|ExQ<&cTr0kQiSv|qJxc;YN3p!&94y<`6c35{}X6uCR|0N4@M=gv>
znJ#qUIlr8nBy_e(;0#3}p9qPcG|+G&!+=nxz9Hh>1xsO{@LT_YsSDVAGWUvqDQo7B
zEpm7-+rNPt{X~Fme-2IPCVG6Ez~y&J)R^#wdS}IQhn&3}(i68})23K$yYl%3nrHK=
zd-HNQE()lH#>#dq`L?F}d?YU2nzqYz4UjI(;qt)-SYv9T9?|OY$LyooWbh8h!y?_~
z-BbCQO0;V#yb03grtqFkdgcwgW$IMiE04<76)?@(1jh99P5LaO^?W%b8{;(NndQb<
zd$=AxmjhN}+blU{C5(+z2pjMFcTtH2yjAX63HGedsG^c&wur#z^cYGc*)9Bn9>0<w
ztb{2r(4DmkO^gT^Dip*(sC;uZ*u~UvOsOWw7s`ai9kK?#HjH7ed1VqEk72n3{R|#0
z8-HHM<dbT7Th2c4a%ItslY^QeKGi}TP}WJy*bk!;FK6BWrpm?5Pyj#3`<l@MnC-UQ
z3_k^#=y*Z7MVju!{6e>!dM7#xdu7v|kO~h`5MxW{ltoj*m3VZ;GwpTf&>MBuHrCeH
z-Q(`M6aH>Y{u2!v8PF-W6CmeTd7Z#t5XiJruz7u2Kc;|B`>s3rZnzbo*uDE6C=y{=
zE>Uga2v;a6^21gr%OCEFaao!$pmK$1zfI_GH%GZ*UBO%%sr_<ov}}I|!}Sl^U}I{0
zBW30I&lT^p2oo@LURa6!t@1Bh@Q~>ARtVDDFoHd~1ye4QTVb5p6-#KF@f=EpkzkiS
z_u)^X{5N_^+IBCDoRjRbyONvmK*p8iN~B-zkm8DRCA)0i`UGFSD}^{~!nsABqg{z1
zI&T}hOKXE1x>DTt+>2=!Wc`Wz&>W{}MAPNKZAdhOh#E8Tly01CkYEkVsuDH2DzPvZ
zac0qoQ&L*eTv=qwS~9fX8qt#Ot;uv{$&(TiW@Wijt3yW-IlZ!|C9NfsSZv8?N%yhZ
zoZ`yV*lo^sWgw%>dUHQly1$&`O7qtC{|#PJle0C#u6{mNTshvF{$5t}$cp?{!niQ2
zcPJzttGs7B^p9*4n-dJW=G<m$-FCFfxkM-4v~WES7F*=z=eaDd5T5(6CK^rz%YT3?
z*cHmP;anTZwF6l`wrag=K#gz>sMgnr8sXChSDv)*fYJd2@zub-uc}SeraOce8W!tW
za=DaCiA{6m`A~pv^F};?%|+Qpa0?^mW)9)uYN~v52iPt%z!vWS^P8=$P*;yb%)jh-
z3NAaILRUdcHceP_5tjOKX^^YXrPUQ<NvkWtw>kWFFqZmrsTAMlG__FYAz0KZhq?x9
zn&2vKNuy>gydf<aT&87L)JsE#xk_EEH?9&_p!HB!p!FbEK%a&qPSzpRt6_xCl~N5Y
zO&Ia<nxJJi0ulL|4EHs;q{T?rAfNiVGF<=M1~s60lxv8;O?rTo9}l$|?HbB$uE6E!
zO8*T+V{m*LJ873`K@4Bv)yIuk&LWM?g*@JM3P*Uge57CRy(QNuUrk@tD=u=4_Vya%
zYvb~kTvzyNF6mXh0|rd*t$v$P{qj-$B1!#P;#{eV#T@*dgF6J^|IJye|G8xK*IC`;
zcR{WZ_RD1t!LWso(7w$9HicH-;FR@>jnRtRsUiRZv3Ix@duPylwrFfL>72p?b2STj
zhlG8QR`h!!@fg0y9oshwKS-}Q6sP6I`Fy2aUbzou_U9vpyQwzdwNUg;p=vFjs8*6i
zaw-qX_x8ac_=7Y*49~$>S&@Uu;nNR8-ZqyAh7K9^2qc=)BGBawbr(MZ_d}*x7jJD{
z)pqS3)1Fm(!_c*Bh3>fcOKRL@`{A0Pytixx3yg-7qY4%T8{UpcS`cA)cR<pDSi?bm
zd3m{ZB7K^M|1`*k6OdBOZUNiyeZ=>h1TGi5v+*X-U&cO#PVid2F+uZAEb@oLXqGTV
zao#kLO#JQgrgluCr@K$KL$Sc5zP<wuyF(Utz`*Fm*uobm?<Hcmb#|at&vWnXfQP`^
z`+Y89TTR@4EayK115i|VJ_D^#Bdv#FBFvNv4`V3%sl53xr1r0+#&oiz)Daj#-2$nH
zDyk!pEMGZ{tD(w`OlO0IT#s_(XNXKb0u#L_6LQHBNET%rddmln;2Fc!?x&AH7@+U*
z^0P1*dj~%UZTcbXxZp;iQyK{W8Upv>qsLTNQC+{-**E*eIf^RT`66T_ufoO{22sYq
zW1*~u)}xUT@!60a{cW$y)<>rb<>;f34o+Ed6mnp>`>vxfRM?0c9163-$u`bRtYgm(
z<6qp*Vy^NZQ7*5%$-(EX+ob+D91)7<0Irjr#~}`OxxYFNpNMI+zSwIjSIBTHPa((+
z)m9N>_op&gxY`jTi-A{`iw3~_tdo(iKwNws;ag6ikU%|w22IYh@I4;+I9>q*K&4!I
z0<t0*6P@K~=UMCIgD1ci%m@iwDUY3i5zs&iI6x*T5aBL;6?O~AmGAxuJ(S<cgx4V{
z^me4;F_4Ir5IOF37-wHcC|M<VMi?P2cEuuhz7Eq&>*@Vx^4r%THL`?w<XO?2XFM^q
zswr6}IqVIHf#dEOZ@>v-OAPiX*ZfNs)Ln#urInyvN8(6`_Z+6n;)%sZo=6IEQCT?G
zLCFe*rN)9~KA73>hznk(%xqs*yM>t7d~IrIpvO33fm4dNQ;CmzBecydo+_*aZYIE^
zvr*{>>YYF(I{_YXB9)Q|Bojy>kcz;G8<Z|h`;(DxL#FB1NJ{6(@S9<XyZ&u>(lDF@
zZETB35los}jwc*}L48FpND>}{bA{5Vg-hNwGVc^FPnUF^f^vI1aTUmC2J*Ah<>#lM
zAKWZMx-l-=Ap3XYav0&B-3{-9wT&2EO^gx)z6?>T9P5FspzG1?R@Mr2?B}s^?5|*P
zulK;}pd<(NA$?JDSrWux2-Y1GxKAaXfqq#$g@GaPuEVOsGsFtpDjjE_e<sf}O(QNC
zTIC9DXC7l!{mQyV4gC+Y{R~vVMj81TWP-yz_%jT(^6n>kzEmRd!#m(!<i|<#N&?q%
z-*?MNUt=Kjs$Bdv+>A@+i?5+Le*^VsC9sje-30pVg{%$)UX&BQfnm5o<NC>QKl}}B
z6j$)jn04OQGD!@Bh<irdOeIE4y6Df=GZAVzQZD}%Q^@bRAO05pWN7KLMJ%M=+Wh)?
z3+xjIsE)}8V#I5xM-^cnM}XCybG()K=u7zoG=mj|m6j<-@h-?J{wj4}tyA}0jF-u8
zgIOk?gKz=S?g8f@%`lypE7JGrDQ?VxIqoxxzyMep3#b<hTpNnq_9GMy+Dd~_2?V$c
zZ0GD9+(&P>5g-ob(Q=4K6%P9eRd|BC^d|@w)+gxgWmI_HFOUT{y4U>zUqb1_*eDk~
zwu-BKY5j^z_mfAk!9S_aw!fq5EOQ_JJB$cw>7()NI_<z-<tT@zh=+hMSpNfB&jV+P
z@Z3B=jdv0_%ri%&zDq#ag|!}ib;Bxc6|B;wVXFtJ>23n7?t7@Tm%u{^<cjY_yihjE
z{d$oJzjME#7bSXlR9-ZR)Lt6T%Ff!^N8?$w2)rw&2Z>>DfL#{%t|0OEXb6!z>_UM%
zWoV+95)wu<IV*8QRwRm7Lflkwgg~k+OcFIP#VwP>3!;UT&10;q#2d37Lt|x)6R(Bw
z{>fVSD)r#4o5yd^4rKzh$MHQXaG$nRtDVu3f@_yLNH;x(#g$bK&gLK$?ld1aTb<Ge
zp-E}LT2C-$K@>*~JDYTr<}qr=CZBPcP&t)CZ0N*iop(2R7RfZFOemW;qd<nohy*z5
zo|Go6rqsj46B{)wc#o@?16Gsc($!DQp7#PZB2wD=<{j}3q85Z#Etgc{eY*l`@dkl3
zM3Wn>?TG>D(xnlPaZSbY+B*KJT%&A~895?1q>J$AYb(|$%jLWrkp(ZxbveQg9{08!
z(PoSboV;Bi21wrMkdMk2D_U5dGz+)~Gk0u;GpGe~OiLDxPdyr+bgE=cW+qv>Y&|&&
z@Mf2J;WARjMm#H&2i0<uyz@|RPf%S2Nf{4pMSRHfSksiKNp?%3hzGm7x<GhBO+0zq
z<b;u8Ftp3HBSkixkh@2Ut3t?+{)XinB7Yqza%Q}V6`DGIh^2DnBYOUrKt2ItsVR06
zl1yt{+u(4f;VDtt^4c|y>RhWf@YksskL*vfew0XuuVmXOVU5eAdR8`GvAl=9AzvIN
za%Pf*a$~i5dYPK>n0q0@I*$o&$JREk^_Xhw7S}FwD3m<)7+2$o5UvVZ93K6u#x;sZ
z4jL`Sn}|<mtQPQ8Oa`<4Ijm@kVcFCuwbd1imHOosHOrk#CcE25i^&nZ$`maNNRz8M
zC?s)~4))dtf4N1YyoRsKagj0K+Eg!IiMLkS@8G#(f$*gB^z-^KS1L8Dm*BA|-mfcS
zHP}RBGT>pM1IKaaOi=*$%4cSZJj~jjo+(l=9Jn}Byk@{nfs&|r8`l_N<{?$rE}vyX
z4&!CdRd~Pqc2Ey_GGyuvB1jIOBO0RWTmmo404**)J6bG1trpe@6IHml8t(_qk#K`Z
zl^5p-69z!kKt@g!CYd=`jFo4qMLa*cH_a9Q4scwqo+m~}@-+{hRTk50^55o(?3gl=
zAjz^E572o0pUGe63A~RjQ?C)($*<u1rYLPPdY!z?!y!1omzCFulXB#>qC^gO5yMnH
zkEPxU@xhoK0{mYz>SfP|cr&K`oJoFgtq6f>@?#GsCo86ipa?$1!tVlb1=4o`vZoG@
zq6$BRPylt@+Bo^khj?yya*hb9;Fi5oS2HkoASURx;8iHjD28KF!_Y{{X#R5<YVed*
zD`VCw64P?VW&@ts8S#GBd2DN{Hsj4KdipCqndOy5C^MoIWvVuksOkS|3&Fs<q2}sf
z|2r=643#xvVn+LO8GTeS89aeURYvE2cuFY8&d0A9)`3Nit`=s2G&}z)tXL6Zst&@t
zN~;5OkcU2W0`G>K`|{_N-oby##gX6SqH-fJ7dJ2$-x_qA|HGhb335UmZ2pxbw8i3;
zF`jodTY4Q@T6|+g2}c+xV`K5>ZVdiBjb*hiH>7F2Osx=!a`5$Hj<$ULddK_J+(`jz
zk{hDwAumB%ecB<P0VS+$$h;}-#C6OkeV$;vwCAX+UglWb$f1qb1@we2s;kE3>8!vD
zAb1hN`{Xf<tffUu2OgeqUlZEx9n~IDGsqLM+@WApSW#KkSi6dLF;P>DH$ogWbmt#W
z1mk4!0x`t2kru#bvTlJ$Gg=eYhjz<*7Kj9c-ZCBJV+%xj%R7---H}PBA~QQ9Gxto`
zKWp!-_VUiGvSSlEv!=cqIjtv%n&S5ugND7AFzi6a&g?zWdknh<oJ<(DJ{-a6@aXRN
ztaCbBSV^nEqr}Yqtr6Y!{^xWtQ6;T(Z_1V=TiROo+}vp$(ykoIIJBzMI_AiVPAlHW
zN~AabSLugVc3SE9&^q><9`IW71ruJC+J19aVnKUUS7LE@df}<`lFsy!_VQDMr*saU
z@>+D);2B-%Gq;cLPD<H5b;r~_i+0ZJE-2nH3(4A3cBk%0J&@9wFziV5k#Wz)btYVK
z3_26WcjJw)UT<2)KO5hfF!oqfXF}O|J=iC}=ZPu*Wuh~8%si0sPEtNoJ)47L?g>Fj
zoGsSHW_Cx$^$gWT#Pp2O6^wc>V$`0TdkwAE+!ywC#Hf?zQNNr+&9V>w#d>Z$=psk+
ziR8=Xm`Npu6DiS?h8fh#lkw_L*JaU;d!1o4Zc(yw4rB!NL**7OZQHpq19NY)Duv1B
z61)#E^l3XL&il)YHwZ^aZ;z+GLKK#=QHjy}RF;)D4fWP{n<AL>&3ln544d&`qC8z8
zhMN9C`m|Ff-zW+f*maTiljek;1iT2g<=PF`ZkoS+(8dZ9e$x7B-L|Atw!xjY!Ckf?
z=X8d!8PICLS5b+lBGWq~)3wim+6y`}#vRM*%$WQdbY@I@H*$K9g_`z+yPvyJ*e!Op
z1GMdHjw9O!ukZGKt(XU8a^g}ktA$6v1M=HT<q7|iOsD?58hNe0giA6vQ}Yej;bKSb
zBrViV0&f%OLf|peVx_g|u_$={&P64f<i^X=R9ivcMR-gy<|c8*ehj-bMY9Rw43+Og
zjrat2#4=$wn4ZA~xe;{iI-NXL<wXMIVJYNFC`SpfX(MB%@NnXZ7$NQ(2zO8&fj8y7
z4Pr{hAfxTv5~u=WXwNi#n9+PLCC+F+U$hpCMOrGcLyH@%E5rlP5^!DV-m^wDlcdD{
zAv;WeBm%5C90UY2F~0fWF;rJMmT@PKp#uE`%}HU|vh&PmttE(<yb!`VghtVe=74`m
zlzIl7Qa;~QQ!#1P<P>4B&Ar|!ash_Qs3-9QI`miM8;!yON94PWq8~gXe{B>c!Gnn)
zfvs}*N|7%Hqjf(FHuo(n#dn6eecAa}+%(0_#2_FIN9m|@Vo;J+SKpX6s6dkpOG{Hx
zdAv!aUdwbj<-qgEgjhFOI6SaSqQ+th<T*KJOQRP>1RMmeM!{jm1+RKJm6znObs{h8
za(wrlHF@VcF&g^Ie_JQ6$ID}BF7dE{F)S=Qk!gyi@eG<!Q0w%6No2IU&)+Qmtgm^4
z2&dDGjV1x!L8UEJ_Yjrdq!L|PIp|Fa@mhO}YCZIxS=mI7odh_4##bKb2874BwxYIr
zjq(n@@`l83$}zWLXdG&H&$|sh%zRqr7$LGSm_CQ)oWbBb7T(W?9w6j9<=#8QL>TM-
z>JG66iup(!6;=!OFp(TU@-o%Zf<n}+jLd7XY`aTb3p3n*y$eZS&7^~R^}3X_GMmJ~
z>%fadV}dyG=SZA%mXk(*T8isuxp1SfnU>&o<-AS)a2GmmZ5zd=*gqgH{5I97d`bQ@
zduHR+aqH7%!&&r_gVeTblH{JdMWVXsp|pr1ygYBhcG|`H9dubfKE-8vLhsw<(KEb_
z{2e^J9#U<<o8uOF<ymyOcW)MEb?Y^Wgeo>(fz2t^#^zxBnsq4NH7}*|<yzVz35WNa
z*I@K@owDZ`f7BYKH?75MWK(bye`yhMsh6^Fl3DN%M?;<6XE2F4n9b9CgF)o8|35K(
z%*S+?@okcy`@%iqLs6)uY*;NxU*=9K$NQoFnN^07qRgd<o=x*QS{k;BDUqx#g;bGA
z?~CPvtzt~XTAEZ!x7?yTTc8VdKett62>iPDqkBaXWYRara?gDtLjB#}k`2w~x+HZ)
zPQ0|8!JGS7oh>I^gqUq<n7#SzKCC*o9={~OyLmEpo5+-n_zgxBPR?TgAvzlJ(b}cG
z-KWtlcTp>UpBJ`?2<{_4*@n2Nw|wh02sIuu=o+KkHYuJL^LTksR=Av3C0=dL4-A$@
z%*%~eiZ*t7TS|bk2)-QfP^!3wnqNo2BMa^qnF-WY^I_@2BOd~=hzsS?`^5z7Pb4X-
zxJ7qiur4v>f$a4W?}x;@KfYgFgdt2<k8d$a?O&WuTFAatL@%4dynB}7sKVfUj*QtQ
z@{`G$DyNC3AOx6orUBxl9yFF?!h7K^kui>U0p7NFnt5`6##YLF8o-SN2!CJOI)Yvh
zcu5}HB_?IA17rUlmtHp+W<Yo8i1YgE06%YCBh1D;&9;v4nwN18irk>oQPiC+C))=a
zjTSYO5v`x)hDXHE7D@(8(vlY;*djNP&6Sp}=6#;D%M($7+cb{4v9hja<+4geA>YLl
z=ij+8W<Y_|)>SrQR_rrEA22k0uZay!5^=!!Ai8bHyIhOH=H?3OLY78LucTASf+UnI
zeBlWt>b?)_dzpl(_!1euoN3P_4D3_%@g$hJFNqvyn&QThkj4`zBS7L%!erN@7}1ZG
zKRznf!XkIWez8jrOW1g2kUTVFT+GI+msFm?u_?FGfk?7?;{>z2_Hl79MAsr-v;@p0
zyLm}6;`hRu5U_$8BA=V~g1qAQ0>2k#a;f#$TeFo~E1wun60KN}QF9>KUHPPV8A4cz
zHCrhQ+HnIYmeboYEp|%Y(k>e0=`?gtUXy=o7n|_k4fyZp0_a~M;0!<~Zn8oCr`Pbw
z?81MzK%Tvb_kQuKtss}V+JJF@gf>Vvv0)i3ub3~az&Cp1E(z-EKi7i#uxe;FZN32!
z`MVkrj~DCd6JdJTeCK7c;KqiZ8{zjsNe28^4ube*Fr^8WF~-+%ukXU-he-)<q}YW2
zdZisWnW9ke{@2R{@1(3+k3PYBb1<5^U^IH)v&FH<mJX4S9)dZQ0Fe-%ZLBs>ZbNBv
z;nC@Q+#FwOf)G94EtX?@aF<Lo<7WEVU+_D|kf(7EZCj0|t>|eHYz)QQLZR}Cr$vrF
z3@usuLn7Ah3U!4&jv7dRINH!^V-uwrLR}%80J{4<2pO_@Aa1$8%?504a|!&w>*>Z!
z4G-qYERET+auKrd^f-vJ`v~ChaMxUb<nX(^P?uq8j=ExgEM4u!57%tO-DutBBouHD
z3OM-kxeV{!6wGhr2Dz_%M(h<Wn7rUfiiV+WNVj7Nv!uK>S%G<n;yuGajRGF(rMV2g
zD4+z>!cC`kytnYKzXBgApXx+g;L$hLHfS5tXsn*;y)mFUi)>6n2?K>vN;s7w2}BTx
zB0zzbM~|VX$4u#w#`@}dg`!c99&hl=@NTfl7mkQh)AvZ;St)-yA||%{MwX%*vlJ<r
z>t}JQA}*}((o{ucRH2rtuy4<3TP4@Ety7!#EIJUi*Rg-;-lhANy=^T%ojl-Fa$#q3
zVSD(gq6wWv6OLWgRWzk5dFpo2ZL`xSW_vPrhIO~(73_%M0C@Yj9dWzuJM0f6?NJV7
z>|M2g-QIQkn!6GPcmHcl!8?L?h7!uK9btPGy<^MmCY1Q;SX5z82y%|@Mr`K8RR;>X
z`VBua=<R-^D9unxX@*g{{E^A;g^%20-Q3tZ`R?YE;Um}U5#Xh2TjDugswGdBJSU!L
z`7kYW&*Uere!8T6b;qc#{IOkW<Id@fQF(1sTE}lUbSEb79<^f>{=*lE`8bf|tUVKU
z%sd-{?|VuSMGs{wV%7)$a&Eey^u@U`x(Li=gz9Vs&S;$E<K~#DafVkyqo>*pujE>$
zrkbj7#{7Ty36y%V(iD6r)<_*DHT3xJvshCxq45Ot(tgad(zmO)4p6<CjcWRStNPI1
zIQ}$s_A;{>J)%rh|2+BK^P+4XyJ)0On7+7$6o(a<;s)O#FDn~2;}Far!T-}IS>z@(
zC6TvLEZ@2VPmr!f+ll{J%fS~!zhb>*!1~Fj<CD+nAZ$RZ=#I3>h_;A5Vt>%ypnaBi
zBlGYd)d(BVW5jkSxk%gk2st1K65WGe6cv_ezYoT?4%cF_eB^{kYhjMr>tZ9tUMMf6
zG#pVc$BfSCeJhB^Q%&#L9lMqWt@&hB=O3PSQ6-b=C<N0yT*B?dG&Fix^d}R#Av}Tn
zA-}a-Ua8!KP6r*qRl9F`RpbR#k$FbxGF>J~!Ys${!Ptl5c)!m{^Dyk8odI4?eZBv>
zNnj#))%#;RY>D3r;ZFP(p6(2E=f5SsHAk_;h~09{J;;@L-C~F)FqRPQDw>-bkYB))
zWr2AU5CO&mVp>2_<9|wLA(aABW84)~M}EH(_jw(QN&~W}6wEdncT*HA%7g;C1*6I9
zD)+^1QDMN#eia{y_%W<){?D6~9|;{U0WUgln2424F<wlI@PY+@#<Zw@&Cl+RkHjJ<
z_4~-$KD`Jj|AvQ*o{HunixfHS6H#g}ra_Q*tog~b6qRZOxsjBFnoTa17W0y~qpT&M
zsUwxxN4}j(Jjv`g>yg>M-tuB<Lf{6eKP`rb)_^hQ{9L`oXzQ`bDW}CqvDoV#?>a3y
zpyj`k#X!a|TxZOjO<@<+?`L8B^55}2our@s8I*6G5y>#r{oNT6C&H%_^D_v{M8JuO
zL{4-x#axNk@@ZNM0+;E_+~d9wk@~AxGs$>Pnu}}TQkCQHaI||<Y)#p&l1lm30PjPr
zW9;-AXcEfgzOTi2SnK}sYjN6OXZ&QQC-IH{^11juB~$rPp8ihQ7LjWICLL{=x6`bb
z5}->Sz7URSAEVmi2=H@Rr}rPu=*0@*zFW@!UQB^|-21*4#YPi%`#^qhUKE*__A4^#
zf=Kn%54j))m^2LX=oxgQny~`jmj^G1^P#MRr-@{cZd(wh>@L0>oc|^fxrfBA64*{)
z1hpw4Kr2q!Ky?K2<@x^*V@&+~sT}&Fm_M3Bn@qw%af%kP@V%b~5++>_Qux{gCrLRc
z#~~f-(+2sMA5j5z$!~uYlfx^5A$I+|3p)C}FhP#{Nu(Aum?2^PnhQGmy|6f{#t3oi
z2Vc<9?}fP`D}wNCW9!@tIx1aQD)0G8jK6Ap3>2*&azRJG7pC>g!#4PYKNsf10u$t|
n$M*Dl;pWg8Az-FQ`n_;Ne1#rL*RMhj@V93|(2W8NEQS9A5$>f@

diff --git a/src/fem.py b/src/fem.py
index cfb0cfd..1b4cda5 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1428,7 +1428,7 @@ class DofHandler(object):
             own_neighbor = False
             if dim==1:
                 for vertex in cell.get_vertices():
-                    nb = cell.get_neighbor(vertex)
+                    nb = cell.get_neighbor(vertex, mode='level-wise')
                     if nb == cell:
                         own_neighbor = True
                         break
-- 
2.43.0


From c6fb5fc67ff443e734a91401765f68648f1a1739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 23/96] fix: dofs of cells that neighbour themselves are
 numbered without reuse

---
 src/__pycache__/fem.cpython-312.pyc | Bin 81410 -> 81698 bytes
 src/fem.py                          |  10 ++++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/__pycache__/fem.cpython-312.pyc b/src/__pycache__/fem.cpython-312.pyc
index 3653e1d5a91783577010c9c0367e809bd2541297..d48c82ea4ec53ec60392597e085ab83fec1a549f 100644
GIT binary patch
delta 1276
zcmbV~Urbwd6vywmy|;gE=|5<}ZXJllGN!{Y=J>N>&_Hx?FUCEXpl)RC6v{fhG=Qdc
zaYlX6Xvul_#VjVw$OB=<xRP94mZ=HGhs6kPOxCUw3Un}B!cZKU)A>6E$Fjs1@5AT*
z&hK~5`F_vu-eb3=Pyd#z=PVXQ;7{b;JM9aHzO+_OT5c&F!R}zk_MWz`;9z3UWJCvJ
ziL)smz<W6UXd(W2d5hz4K#a*zDWD5&6$Euh6j<B^9;r!qsTlX9J^FxjQXUd<JYC@M
z1oSZ(gzzp&2=C-227Eu=Vq4n-Nr=jEo!Xsi{Pk3c!xS|IOraXy^v73(m~v0!(}|WV
z3WyOeKKP8wRxSuJYt$OGbPHYZff2`NigZeQIaWCfus>tMFMhFE&hYO4T0FI`;KC~z
z#bS%v)>Pu6`Ygh%6TQ=i@xv)I9-Y~2)1NdC>F83p#{GKYf9hH7aR{HL0qIWSpbp<F
zX}&9|&S77=6qV^=sKDo{Hc2si<PkoT6K_mE4%=x9pUjl&xC;zrN^zQ>^k<%M<qg5Q
zCuh{Ten%hWyc=fl|9ZwdGp$gCt+PE~NnDz>f>Hg6%c$o8=jI*)HyX2LO+VAlAQx9J
z(CQ*#f^do8rh_Em9EFpF2Y8s&bsp(V%5C95uvblCD7z2R_)YdPNa0ep9kSSR^*iH8
z-k5vad3STdJ6`~X%O&3arsHp5-9jJw7Cm?4=0&fvEQ_vPOGY8zl^9!4H*%X7KR5nR
zX?otPKPY2sy)$9`b--MjGio4H5&_AN65ih(R3mK%gI($bUbxw`X`a0H<+5n?7p>B?
zx{f<mYauTYS{==6xUW}k)FsNIJ4ot-y^&xzpvqKygYQ(>RsM6XX{yVtLk6F3Lx?nz
z3NP5-d892I=~4%&)0!w7k--lcZAFHN!G4Pl-XR<%EVI`w@HF&l-&#PH;2Qhh!NY#d
zmJjn1=-6r@53jMtB4~h7?ad-MAc}%Xn{va5$+E&bREX*_HM+?Lyzr_%_W@I^pbXxI
z6k}y@2JG6thrukv3GKi(_{>;q6?yu`hdxWy#|bGyhH#1|ogiE!OcMTJ{%Y6^x7iET
z@S;68+EvQUjgexb)i4ELX#+dqkd(ibBtGV++}$uG)vzsfuosH8_BuEQP{*#<LnG9(
z%H0r#-`OX-p~F>1MLt3ep`PGp#eUdpcv+N7e|t*SUh{(uppm`R0G*DWLh!^3R|I;i
HCEVgaQ(1_)

delta 1164
zcmZvcZ)h8J7{~9)-6hQ>xu$CxvnFHf)}@xR)@|uFN>ddEG8m4kF9avuSfZvaX}yH5
z$Q5-`(XG&g=f#g&5EMm5gjsKR3R+)ieY3r?t|n>KcKwss`X{;#*0HI-Cz%e#d-1vF
zch8^i_qhvs`w!{NZArc4aw!78N~3@Fei5BgTeGegl>X>Yw13a(SR&eN9LXj{@EX(e
zL4Z+Q`r$sjy%4DBi&#cvU5bc(_X~pdfDY^fF9e*2g{K38Fk;oAw~lr1fNk4sx=jZv
zO2AlsL>iGnh#!!Ic!)R4IR4#J)s<%;3A&sTH9wbV!3!m&#;)5Vw!VXW{8!HkBg$O~
ziAziwJ>M(f(G?yyaXD32b=MFnRIzj`cyXM&yl~8pnH5zXGx+4cjmBs?%UHnasICl8
zfwqa}(#sfFakx_upCVu6mnSm+RExYC&n?YE6Q&pZqC44)-76lPxY`aa*uA$Nf4tfx
zO7GjTcDVue;9gHH*LUFK%lpx}s5m^j=k6-6;^gvs4ZJcV(p%@|E&p1>^8afLKpXm3
zPlLn2RTVI^wgY^4d9CrmE5P5+c|J$`nxbzAvxIL6TPcwzT%zL~M_wEp7|hGDcqBTk
z<uFuu0_O4cLL21plR__yV`FhfoZY(5_^ntAVs`s3bgZY9InRN`8c*sZdhy|PFW%X(
z8Lo})O8)cpUHIBhXR9vP+aI%9Psw<)!(+7m{H~*+Y{^FQ5&=2#O1x(%swHEmq6uvl
zuirepbB(N}%T*NJp=h3>4UUA$k60>rFuoZ8t8s4gOK12$bIS|<LLIbu-WnZFM&l7p
zra`~*C(Uk+|4J(QT8WKWAsD<TN_u&PH}nh+#Nx?>cAh3x46v*fI$^=Avq944zDbEu
z!i$6wn^55q(99(jWC@C_u!SGrFxzUOC;>2^j~|Qdgb%_nZNBM)6Bf&@s*n8evE6lz
z4`{Y%C7N@C%{0Pu*78@&vHiQ@705AjH+%|;nGAwMhDr0K7I>%Xkki7;?|t2A>YgOz
z2#bUdY0)c$IYO3jogEK>A8xVX5FB@xH(RCJ@)kL^5`slA%$at0M%of2i3y(N?k-YM
zI}3NfQSg~(JKzk!LFVd&hhQIjv=id+JNv8?`s;R5QzN0BaEQ>sy25bO_M}B_xHcr2
c=`d6Sbg{R(V6f(S{#TLm-Vo@nZRZyM0_mb+^Z)<=

diff --git a/src/fem.py b/src/fem.py
index 1b4cda5..a8f3c33 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1461,7 +1461,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     vertex_dofs = self.get_cell_dofs(cell, vertex)
-                    for dof in dofs:
+                    for dof in list(dofs):
                         if dof in vertex_dofs:
                             dofs.pop(dofs.index(dof))
             if dim==1:
@@ -1479,6 +1479,12 @@ class DofHandler(object):
                     # Assign new dofs to interval
                     self.assign_dofs(dofs, cell, cell)
 
+                    # Throw out used dofs
+                    cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
+                    for dof in list(dofs):
+                        if dof in cell_dofs:
+                            dofs.pop(dofs.index(dof))
+
             elif dim==2:
                 #
                 # Assign dofs to HalfEdges
@@ -1519,7 +1525,7 @@ class DofHandler(object):
 
                     # Throw out used dofs
                     cell_dofs = self.get_cell_dofs(cell, cell, interior=True)
-                    for dof in dofs:
+                    for dof in list(dofs):
                         if dof in cell_dofs:
                             dofs.pop(dofs.index(dof))
 
-- 
2.43.0


From cb890d7f7bdc2396af9747c5506ca5dc09ee28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 24/96] fix: region dofs are returned sorted, as documented

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index a8f3c33..84901a3 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2202,7 +2202,7 @@ class DofHandler(object):
             new_dofs = self.get_cell_dofs(cell, entity, interior=interior)
                                           
             dofs = dofs.union(new_dofs)
-        return list(dofs)
+        return sorted(dofs)
 
 
     def set_dof_vertices(self, subforest_flag=None):
-- 
2.43.0


From 003bb6eeb5582b56b9b7177eedd91e9476aa01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 25/96] fix: half-edge dofs of elements without vertex dofs

---
 src/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem.py b/src/fem.py
index 84901a3..eb734e3 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2123,7 +2123,7 @@ class DofHandler(object):
                     # Add endpoint vertices
                     #
                     if v in end_points:
-                        dofs.append(cell_dofs[i])
+                        dofs.extend(cell_dofs[i:i+dpv])
                     i += dpv
             else:
                 #
-- 
2.43.0


From 853251d4340636cbe588b16402da2fcd490b466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 26/96] fix: location of a dof within a given cell

---
 src/fem.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index eb734e3..9487636 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2262,29 +2262,21 @@ class DofHandler(object):
             dofs = self.get_region_dofs(subforest_flag=subforest_flag)
         vertices = []
         for dof in dofs:
-            if len(self.__dof_vertices[dof])==1:
+            if cells is not None and dof in cells:
                 #
-                # Only one cell for given dof
+                # If cell specified, return the `right' vertex
                 #
-                for vertex in self.__dof_vertices[dof].values():
-                    vertices.append(vertex)
+                cell = cells[dof]
+                i_dof = self.get_cell_dofs(cell).index(dof)
+                x = cell.reference_map(self.element.reference_nodes())
+                vertices.append(x[i_dof,:])
             else:
                 #
-                # Multiple cells contain the same dof
+                # No cell specified, return the first vertex
                 #
-                if cells is not None:
-                    if dof in cells:
-                        #
-                        # If cell specified, return the `right' vertex
-                        #
-                        vertices.append(self.__dof_vertices[dof][cells[dof]])
-                else:
-                    #
-                    # No cell specified, return the first vertex
-                    #
-                    for vertex in self.__dof_vertices[dof].values():
-                        vertices.append(vertex)
-                        break
+                for vertex in self.__dof_vertices[dof].values():
+                    vertices.append(vertex)
+                    break
         if is_singleton:
             return vertices[0]
         else:
-- 
2.43.0


From 1554e4dc74ebdf0e95ce886c5bdc5880261d5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 27/96] fix: a list of numbers is accepted as a list of points,
 as documented

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 8972d43..e201eb6 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -59,7 +59,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
             # All points are tuples
             #
             x = np.array(x)
-        elif all(type(xi) is numbers.Real for xi in x):
+        elif all(isinstance(xi, numbers.Real) for xi in x):
             #
             # List of real numbers -> turn into (n,1) array
             #
-- 
2.43.0


From 7eb3fd20048f8d49c08cf929557362bee290185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 28/96] fix: a vector with one entry is one point

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index e201eb6..7a9ff9c 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -116,7 +116,7 @@ def convert_to_array(x, dim=None, return_is_singleton=False):
                 if dim is not None:
                     assert dim==1, 'Incompatible dimensions'
                 x = x[:,np.newaxis]
-            if len(x) == 2:
+            elif len(x) == 2:
                 #
                 # x is a vector 2 entries: ambiguous
                 #
-- 
2.43.0


From d4c9995a43f46e0cbe2e405e8bc71af9b49b428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 29/96] fix: Explicit.set_rules at a given position

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index cc847c9..7c622fc 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1446,7 +1446,7 @@ class Explicit(Map):
             assert callable(f), 'Input "f" should be callable.'
             assert type(parameters) is dict, \
             'Input "parameters" should be a dict.'
-            assert self.n_sample()>pos, \
+            assert self.n_samples()>pos, \
             'Input "pos" incompatible with sample size.'
             self.__f[pos] = f
             self.__parameters[pos] = parameters
-- 
2.43.0


From 849094070486ba2470b1b798c90cd140dc3ade77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 30/96] fix: Explicit keeps its own lists of rules and
 parameters

---
 src/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function.py b/src/function.py
index 7c622fc..1178aed 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1507,8 +1507,8 @@ class Explicit(Map):
             # 
             # Store functions
             #
-            self.__f = f
-            self.__parameters = parameters
+            self.__f = list(f)
+            self.__parameters = list(parameters)
                             
             
     def add_rule(self, f, parameters={}):
-- 
2.43.0


From 44aa8ed3acf2592bb3b78c725327e6910f84ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 31/96] fix: six point Gauss rule in full precision

---
 src/assembler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5d912a7..a8fb7e4 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -119,16 +119,16 @@ class GaussRule():
                 w[4] = w[0]
             elif order_1d == 6:
                 # Nodes
-                r[0] = -0.2386191861
-                r[1] = -0.6612093865
-                r[2] = -0.9324695142
+                r[0] = -0.23861918608319693
+                r[1] = -0.6612093864662645
+                r[2] = -0.932469514203152
                 r[3] = - r[0]
                 r[4] = - r[1]
                 r[5] = - r[2]
                 # Weights
-                w[0] = .4679139346
-                w[1] = .3607615730
-                w[2] = .1713244924
+                w[0] = .46791393457269137
+                w[1] = .36076157304813894
+                w[2] = .17132449237916975
                 w[3] = w[0]
                 w[4] = w[1]
                 w[5] = w[2]
-- 
2.43.0


From 325ee2c2c040b85bad0e5c292e8fce2bd340fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 32/96] fix: Gauss rules on triangles can be constructed, and
 the one point rule is exact

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index a8fb7e4..855c822 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -155,7 +155,7 @@ class GaussRule():
                 self.__nodes = np.array(nodes)
                 self.__weights = np.array(weights)
 
-        elif element.cell_type == 'triangle':
+        elif shape == 'triangle':
             #
             # Two dimensional rules over triangles
             #
@@ -164,7 +164,7 @@ class GaussRule():
                 #
                 # One point rule
                 #
-                r = [(2.0/3.0,1.0/3.0)]
+                r = [(1.0/3.0,1.0/3.0)]
                 w = [0.5]
             elif order == 3:
                 #
-- 
2.43.0


From a120e56e8c39ac5d47793868a18ced866c500a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 33/96] fix: scaled Gauss rules on quadrilaterals

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 855c822..889108c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -395,7 +395,7 @@ class GaussRule():
                 assert position.shape == (1,2), \
                     'Position must have dimensions (1,2).'
                     
-                assert np.dim(scale)==0, \
+                assert np.ndim(scale)==0, \
                     'Input "scalar" should have dimension 0.'
                 
                 # Scale the weights 
-- 
2.43.0


From fe1a10dda10d603d93798d636d440e19afae6f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 34/96] fix: shape functions are evaluated at points on the
 boundary up to rounding

---
 src/fem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 9487636..8d0d1aa 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -521,10 +521,11 @@ class QuadFE(Element):
             is_singleton = False
 
         #
-        # Points should lie in the reference domain
+        # Points should lie in the reference domain (up to rounding errors)
         #
-        assert all(x_ref.ravel() >= 0), 'All entries should be nonnegative.'
-        assert all(x_ref.ravel() <= 1), 'All entries should be at most 1.'
+        tol = 1e-6
+        assert all(x_ref.ravel() >= -tol), 'All entries should be nonnegative.'
+        assert all(x_ref.ravel() <= 1+tol), 'All entries should be at most 1.'
 
         if cell is not None:
             #
-- 
2.43.0


From 22c8ebab903e279acd6378db6ce817e2a316855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 35/96] fix: nodal functions of two variables had their
 arguments swapped

---
 src/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.py b/src/function.py
index 1178aed..eff6fe6 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1695,7 +1695,7 @@ class Nodal(Map):
                 #
                 # Bivariate function
                 # 
-                cols, rows = np.mgrid[0:n_dofs,0:n_dofs]
+                rows, cols = np.mgrid[0:n_dofs,0:n_dofs]
                 x1,x2 = x[rows.ravel(),:], x[cols.ravel(),:]
                 
                 n_samples = fn.n_samples()                
-- 
2.43.0


From 2bb8e41cc2ab1b9ff33ac7e4eb94daf356f038ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 36/96] fix: derivative of a nodal function is taken cell by
 cell, also on sub-meshes

---
 src/function.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/function.py b/src/function.py
index eff6fe6..4a5cf68 100644
--- a/src/function.py
+++ b/src/function.py
@@ -2354,21 +2354,26 @@ class Nodal(Map):
         # 
         dofhandler = DofHandler(mesh, element)
         dofhandler.distribute_dofs()
-        basis = Basis(dofhandler)
+        new_basis = Basis(dofhandler, subforest_flag=sf)
         
         #
-        # Determine dof vertices
-        #
-        dofs = dofhandler.get_region_dofs(subforest_flag=sf)
-        x = dofhandler.get_dof_vertices(dofs)       
+        # Evaluate the derivative at the dof vertices of each cell
         #
-        # Evaluate function at dof vertices
-        #
-        fv = self.eval(x, derivative=derivative)
+        derivative = parse_derivative_info(derivative)
+        fv = np.empty((new_basis.n_dofs(), self.n_samples()))
+        x_ref = element.reference_nodes()
+        for cell in mesh.cells.get_leaves(subforest_flag=sf):
+            x, mg = cell.reference_map(x_ref, jac_p2r=True, hess_p2r=True)
+            phi = basis.dofhandler().element.shape(x_ref, cell=cell, \
+                                                   derivatives=derivative, \
+                                                   jac_p2r=mg['jac_p2r'], \
+                                                   hess_p2r=mg['hess_p2r'])
+            idx = new_basis.d2i(dofhandler.get_cell_dofs(cell))
+            fv[idx,:] = self.eval(phi=phi, dofs=basis.dofs(cell))
         #
         # Define new function
         #
-        return Nodal(data=fv, basis=basis, subforest_flag=sf) 
+        return Nodal(data=fv, basis=new_basis, subforest_flag=sf) 
     
     
 class Constant(Map):
-- 
2.43.0


From 4681f3b878a5986b3ed2f2843726ab779bc8c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 37/96] fix: kernels honour the derivatives they are given
 during assembly

---
 src/assembler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 889108c..6092ac1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -956,7 +956,10 @@ class Kernel(object):
             if isinstance(f, Nodal):
                 phi_f = phi if phi is None else phi[f.basis()]
                 dof_f = None if dofs is None else dofs[f.basis()]
-                if dof_f is None or phi_f is None:
+                if dof_f is None or phi_f is None or \
+                    (dfdx is not None and \
+                     parse_derivative_info(dfdx) != f.basis().derivative()):
+                    # No shape functions available (for this derivative)
                     fv = f.eval(x=x, derivative=dfdx, cell=cell)
                 else:
                     fv = f.eval(x=x, derivative=dfdx, cell=cell, phi=phi_f,
-- 
2.43.0


From afe77c073436a638409dba8d6580f20227752449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 38/96] fix: forms with derivatives on edges no longer divide
 by the extent of the edge

---
 src/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 6092ac1..6c395a7 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3433,8 +3433,8 @@ class Assembler(object):
                 w_ref = self.edge_rule.weights()
 
                 # Map from interval to physical region
-                xg[region], mg = region.reference_map(r, jac_r2p=True,
-                                         jac_p2r=jac_p2r, hess_p2r=hess_p2r)
+                # (the inverse map's derivatives are those of the cell, see below)
+                xg[region], mg = region.reference_map(r, jac_r2p=True)
 
                 # Get jaobian of forward mapping
                 jac = mg['jac_r2p']
-- 
2.43.0


From 564bc3b83250c4ceb4c72b72b3c295a56d9609f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 39/96] fix: basis functions on a coarser sub-mesh are
 evaluated on their own cell during assembly

---
 src/assembler.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 6c395a7..10119b2 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3527,10 +3527,22 @@ class Assembler(object):
                     #
                     element = basis.dofhandler().element
                     D = basis.derivative()
-                    jac_p2r = mg['jac_p2r'] if D[0] in [1,2] else None
-                    hess_p2r = mg['hess_p2r'] if D[0]==2 else None
 
-                    p = element.shape(x_ref=x_ref, derivatives=D, cell=cell,
+                    # Cell supporting the basis functions (may be coarser)
+                    b_cell = cell.nearest_ancestor(basis.subforest_flag())
+                    if b_cell is not cell:
+                        # Map quadrature nodes to coarse cell's reference cell
+                        x_b, mg_b = \
+                            b_cell.reference_map(convert_to_array(xg[region],\
+                                                    dim=self.mesh().dim()),
+                                                 mapsto='reference',
+                                                 jac_p2r=True, hess_p2r=True)
+                    else:
+                        x_b, mg_b = x_ref, mg
+                    jac_p2r = mg_b['jac_p2r'] if D[0] in [1,2] else None
+                    hess_p2r = mg_b['hess_p2r'] if D[0]==2 else None
+
+                    p = element.shape(x_ref=x_b, derivatives=D, cell=b_cell,
                                       jac_p2r=jac_p2r, hess_p2r=hess_p2r)
                     phi[region][basis] = p
 
-- 
2.43.0


From 260866bf218a9c60661c8877f737fe06d9cbd5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 40/96] fix: deterministic constant and linear forms combine
 with sampled ones

---
 src/__pycache__/assembler.cpython-312.pyc | Bin 96819 -> 97420 bytes
 src/assembler.py                          |   6 ++++++
 2 files changed, 6 insertions(+)

diff --git a/src/__pycache__/assembler.cpython-312.pyc b/src/__pycache__/assembler.cpython-312.pyc
index 8e36cade3cec1ce15380dfd871c07602341611d6..11cf9c2bfc3a183e841d2fde0966f445ffe5a458 100644
GIT binary patch
delta 7933
zcmb7J33OCN*6#ayNq6==WFs3}2Ld4k0wM{7B_u#l5R_49y3?JcL((0pJ0Xc31B}Be
z5T=wDa0{Xc2S&k`2?`4M54g<0Aw&n}F)Fx&qCuGX53YaR`$7U9ojHG>!<YN2?yb68
z-CFQp*FSPYANtpjkU)+2&ENEM)vC<>q30#|i~q9pgCXQipUxhzWQa!7DzRh!Yo-aH
zP4{X2MM2*OWS^)Tb2@VUsUsDO-k!ImeaNRrD*CrCFMa3lSB_MCJ@v8TS>L{2P?0{f
z@jyrH*@B9X&VR&N)Pe!;6|i(MlUe$F9{oNo=pl|5m?btqbg>NnO;iG;`vao~ND$6T
zV@E-We`V~w+Nhze(3-YccP=jTCSm4Z#gFDsB*ycigaq*~gj*B7G(@&mb%mt*?@L^z
z4UN+MEjM^UKixSgctNs`yZ@5s&qz5OY*2JAyR*js$<R5Fv~2UTwmSY$`_eOUL%KB(
zk$*0F!Zoe<dpd52e@@nru#nxL1XNkeEG(y%x%lck?;qh3s;X_ZIZQEDIy@eWpms~F
z7L8bnU`0?rdBlVSLk~G}!Ypv`mI+5;37?oh8Y+2xeik(GXY;)=<tS3oCx?{BpH=Wo
zu)&SAi@!Hx3)J!Inf*%ZvB8M248ei0N`N_-jYfJ6!diqrl|1;l4PhO^dW1(1Hu}%Z
z+#m%lLHY@Vc7N6EU3%EbqvqWk+k`DRo}#U-bSgT#yWGQe^5ye(8TMkA*FSvzd1<U4
zX&XWiLJk5dVAiS{kuoUY(F#aSO=WY5#Xo6*Rf4^I$NiZDk7En+D1qfJi^p11TP=L6
zQ~7%YUiE)_e;~jK-o7vzj`PTc8+hTO7%{+sg&W`iwniTk0!_vl4(4)H51+O{%*Wp0
zOBQttrUxwXk)(t~gQ_~5;;SuHf!Tsj)>LSk4RZKEh~*cuOgv$6AzbAP7n@-nU%l9p
zJlq$!VwlggqQDy_<mu-#?E#hIn-}+gED4f~OY+2wF+L;Td@_bh)>!_>lhJ&bHG%&A
z&YA$xywecH*H}a4pEIF9f7u!hiM%r-N)Edhg7lAE(`kG%0K{mULwr27C5Fe_q9Bc5
z-6!(g7R4iY6tA%b@s|a?-WCRfP?o=7Gr$o40o(IZ&1#_#!?>CC>@?E74eUky+=pGD
zcEuvCQ`>t(t#ZUL42Ys_a@H~m@5?CM7h?)(2tVQ&(DDlQ97Jxt)9a}5us<Vhva*W0
z8i&j4VF&Qruw<EN@t7mklpxheq1z``4CR)3Yqf`_r+i?q(a<9QEai$`WT5yXmDe+j
z0((QFF>2URB#-f`@_}%Mx0c7idcL!KnDA>?`Ly(y_|q{1{~43HE4M2qd*7svqWwkw
z;<LHaJ9DRZ<(8a@DY?MoD;^5SOEmTGo&x;Iil#-|#dv02srZRC^$ZTa1L0YO=Me5e
zAQ!xfRB!GwOh0xC;S9n~g!>RE;dddmi`P|-4=M)zNVR8||4`*_16<$^_gZ+6f8!nj
zyLd|NptSvh+iX<bbr~f;L--WobA&H>dF?p3;%~3rrY)gnT6oB%7#s~=hs(}L4iyyz
zii!i$o?90HHZ%oJbF-S^Hmk?!vG^bM7K4Gt`wW+qylD#P`B!x&Sn2<F-C=3QheCo~
zK)5KtZ0ONO(27aO*I3yShg~fK&B(P}<)Y~^*h&C%R5;x(5Br?|*f2QinrLeZCJlNz
zp77^29t>`w9HDAPIntZH>?0w;FnJkTB8s%m+TirCkFn(w0p<vXgR0h3a3~rpunoP+
zh6+&hO%CSvC|XZljq240u}iF9;Xaqe?&hvl#uoCX&hE5Uux!y|j#Ax73Q;NDh(dj;
z(Y!dNqA#~pyUWySOqO6Q6s;&tif$QV5KdC=v3MOGFDak|-)vz{Yc+*CfE5ZUPZXb2
z5G%jv07E!h(qtlUImAMF+dpLWzqPY5CL&u+|0P?;2{zR=zm}fwV=uxbUbB8Yyw49+
z#`D+O2Kz6qAEZtB)fB{On{o=>-b(qyc<3izNe2_3y(xSUjfKlZ<OfCmSH=0o52AS6
zrdW8(|Kg_C^ew*<Y~gXrMGTG-Ug7Yf(=7E4=5>}iJZz<CW@8a(bzt<^_XrdSj5E6-
zKrz-hJe3v9X;%zZW_49K6g{)nJF3+jL2rn(EEYW0S_k_P#eNWAj`=U)Ce<*y3b<4a
zX!4(U?v{HaDO5ql#l6A0<bQI@POwq1b{l>>R=*Y;o!Ds@!Vx_tgqZSS%~dHtZ@d=X
zUq9hmA<P7Qj9O82zz<jU^S{<+lne$G3*dj<RyLtGB<eOR(y!hs63r&|S#!XD2ogGD
zFJJO_CQS2hd3;AeiwVaJM0f#x6s7u_TtPwTT}NspDDuZ~l-_Wt5evm3LJ-0b$m(#U
zdi~E<-~_3poT4vtREv#aT`>-I`?6D{GN<@grRcDN5LT&aL+dv{T~|(}hp193_D>w1
z&5e&0Gb)m^g2my~{Saum#`Dr=@4OkqyLw|-<$vPY9a2Uj@+BecM0NUVe1B|17{_hT
zr%V0SSUmOo-9ZUddR{{IlL$5h3d%#=<UbyM2TJB6P*TV85B#O@I?sAJ7b5(&mwz<D
zcK_nnk4iK8cxXM7<H_gbeJtoKT@0gyiE3Qtc6qH%m&0yxx^5m2i+U&ek}o-yZ79L-
zwS4=r!v5n0*%UX)<8jo8ykNu2Djj7@EVaxnzG{4acq2_KjRn4aVN?ui(G=RpiVN&2
zpLzUKX&f=YN?vp#8Ghi76ZaYS2&KfSV=_N}VipAWqu#6xjwCC;L~ZFD0&E}O(3KiQ
z&17OaKiHK%_xH#_z9DOWhsu)c`Xhx&qlDGf+O1xP1rubM)8kM>zYhh;CA4-Z4QXp$
z!L#1|pKNpy%MhSwMJZuJ@iPm-jBR+(@Hp85Y#@J?@YMGb3UExtsFrP3eUlRPdjK*H
zLl};bDL@^giamf03k7&mL>W()Hw^~^-~L`Q1pAM?_q=}CWaJICR#b@GMJt3U*4;XF
zLE`+1(b;nzW=py2VjSOnJ_(-lpE!S7%0^k%h(O7ei6&Eq(NfD2pEv6-S@Ix1@xfj2
zsz2_-yCp*diZzK5N5Mb+&s;2!48${&fBtd$)H3YEkrdq$N27<?@tb^)vx$uci#pkF
z@ivN*Nup?}Xmc{!*w{i|`pInQ_CNK>d`KcIqeY*ytg>2E@iI4Kjxw(}2M8U)KN|;;
z{*up5Nkb{pWK3_}xXpyG&_t>xC4BOwfeA=9MfIg&@7*EMzw%NHNO!2oXybpn91qj|
zZ(cquO{O_$ozO0^2G!Pj9A3qsCeqDvNT(H@(^c;7$pLf%$*tihu8e`%{vWS|1p(tB
zHzvaxe)o;2mI7p%h&oO}2tb&KZ6lGQ(Dao@AGS3kJcQ7KU_w}q&>KQJc~B`-E5j=6
zrDJ_NQhEVOP?_7!?9LXK$RH2h3C*!;3T?&N>AXT^Z32qWKI=hh8wwk1thKawRO4E)
zV>7}Z5jeu52!#kP9B&;`RD;(eRg17x0JnWt2(|v_zB{0m>Vx<LKUu`r;h#Jb%$BnO
z(xkOMzP~+2{#pmg@*e<Z>-Gljk>tB{5Z%!Y@V*2=9jA1#U4me_HURF05c#bDNP&OI
zUj%?t3sp1lzN0l(&7vDo%1L8zbD}TN2X&&j_!9Zm<<ZezJOt3sC;0;61?AJo`)5NE
zUeK!c2Jey7UVErrYuD}#+k=-(@q0kDHzzeGyL2r<zL4hR<|JQ&9Z=pb)eATKlI`L6
z<pO&|v#GaFkMAVZ8`;|%=!>tKjhbeOF@$<1U*O)TJs2qQYwqvs@6+{YX1r6hJaS&A
zY1KdCkxv;RPZw?dy_TOoHLBxIlQ22vDZ#+p2rh&ggs0^L!7#N&F)>HEgE?Gf4zpG<
zh$woz?!I6URZ4LYmq7}*7o{l~dP8O&!YD;>70}&}9uw63qB?6p87j!*km}3umPz<s
zhtQX+eHo8#W%UUE|J=_;u@wkLgk=cmKK8iKQVGOkV7;S-c^wVv`^UrBw-N!*g60%8
z^~un_RP8&Zs|F)Gt>#`|s7}H)amy14Mu@c{{9;YOqw?%fNKATM^eF}#tsq6)V6iE>
znhJqX+f(uJ;GVizXx<dvSE%TyX~8qRK1A#d-^vF=VLY&o>!Gk5QjMDQA!pM@cczWr
zXFVEyI&E}U+O*A~ty1fl&4F!&-G+{*!a<QBQErTaF)iH&P5<<>$vK_LIr~PR9aYph
zs;FyJaaVFl>$G!m$?f-a#+e06a>m)D?9Qa@cSlY-ntpWtvCMO0?>u69#dIj>NZ2c3
zU1N){YawR_To^m~+_(vE>AC|n$s@06w8^D#RjY|lZ_{qQr#o0PFmqQ<+dXaCb0c&1
zjocr7FlK*pR-3(j+&1^oDXm54M&<6idw=f1h?nx(yzM1tQbrurwNAg#FXicwts%Q6
zAH4hMeEBo+ppllB7&5fmtz(jDXm^!f6CT-`)9PuPayl&av@!L@x3l!}kZ4Gco<BJ7
zjkx6b!vf#ABXR!7z*8B6=8x%E6b(xP;9v4PiI6s86=p<`+hwu2>s)p#Yot6V73Gh%
zD+(}`TuP68IUxxKz!!2s5@aW|2w4`4KxOv~26+m8cFJp$U~oL`YIvihbA%$<D|^bH
z{B{!LzytCRNiYX4cFazOOOk;kUy}1vA$bZ)imQgl?kw}NbvWdo1$Z!r#rxOI7cksq
zZ#{0&_2%XlS<>-zD%3~?sJGaW`mA{oha;0{S0=lriZ=0-Lsu<zZktnVTQ%%Oc}50I
zg83aAG9Uy3kdNI5vegOE@__-61eG0U20)dRmWLw*-ZIViXgBe{i&Uq)a4-xSL@qgo
zqkM|3#Ds?%ap-n0^C-G9w>YC8l6MaV7q~n64S`mD3&}i)G8ioO2LaQ>voAFt5g+F8
zUrtLV`b3wa_qxkGWo$VLZbqO|a|7qzi2XWGZM9Vi@YH(T)#6r2=ay5*NB6fd^oUl&
z7RZ^yAuS8FRRZuS$>yw9U=r<Ziqw#;KpoqFQoW&KC*_9WkP90-{xlpq113=|IW6QX
z9{c;CFM@_g<TLVEv>FNW1FELz9W}MyMk<)1KD*ssi_2|yutoBbF)-eYRX{DksGqvC
zV|i4xR+~qCG!bu+8g@d?$b-p2ZzB6!2#4gQd5~*B4Ma@$<bemybfk=h7xZvdJ~aVi
z%?h%uz<x5l=Suf6wtgZ&9BwS-;wHel<&b<B3z_n?d^p^)M+lgce)}$pH-cMkC6tBr
z*oM(j!?F@742Bw@<EVlSKer-0i9lu_Mv4OT22zx~SrjW${VFzohp-bz=(|#l#x{hH
z<QEE{!LUH9PrKG251S~$Gg`Jzgf%d!<MKq<1Zn$Fay9ZFLcjwsixVK8zo_ewysZ%4
zgx6);WXOU!a_eNcEd4}BM11FpGvTu$TPP%WMB1J5ms229`kA^Du#of}H0^XDq!+VB
zdCF8cK86YnrNK9X^R_oOZ0#%ks;GJ;T`m_)gGVKegjXs!E?=4kNv74PgXI<-BINsv
zAYKAVt}lXo*eD+;f)+_qg&O6O>5vAG$<@<gqoh?ETjlU#7z|Hzj4g%&Z4i|(dLH{o
zUO5xy&7*54ZRh*NJbhPXbwB(Web<Q{v<@ktbQ;%4B3XJ83vZ3$tzOg^3%P-<m50p|
zMX^w}%z{MN(edCcQ5)g1oMsj;vEoI&<J(f<ddW3H9(flmk`LVlXIp;6nR;LHF8wTi
z^oA<#ieqqoHE4pV)EuIo`blXJdZ=rMssX(r(Ak<E5^z1KFAQBs(UZd0f-(o)ax9?y
zNTKn`J{p(ygF+O#fr_1!v*(D-!Ya?31L=kfA}pRdxp@v;$?i_lgvPZ+tXtUTeY$CD
z)2{Tb5A9ldCMEm2Q4<|2=WWhw%WY3<FK$oniW;$I%5{TWJs0MOdO(vgp7wy(O;fWw
zPS1tZh!#>r*wf<&(g;(wRH%z~Vo9xSWD=T8N}?%rq!Rxr<E~ZXl!I+rWGNSli+V~M
z0o5$Ll+pE*x)c*$lIf1g$l5HLp9ZF4L#Le`DD#d0oZL}P6-a?HPq?_iM$tQDibM1^
z^}BhTQFGev6gOd~t<LKh-0`jhnzR`ds5qgQDEGZ8-L^K$<)uy-1pnx0b3$fd3z;8<
zhG15hL0qEge%a@x|3y=AVV9~49et&i;z-p$<f&|IC9hCkY(ax4FZ#BROk@eg4k{Cr
z1ufr+M#X4zy2`|9!mGMeEy#k=9IYBb-Xcx0)F^tF#c6L~`*5g29F&x$@e<Gy^ea9o
z;|8hjH~|gWbVXK>p#Sc`8ZUT)#l2YUpJ#EXbMoK3FetS`&`t5TJ6gQzi0#gaj~*90
zBJ1Fgq}K6>->&1Nb6<@j?E+D|Mx3h^p%B4}fWf77VL1CQ>+vLPLny@+u|Qb-utuKQ
z0D0mBq#w{-Dz9mP)M#WdrwZrP)rj;Zw|^lYZh%ZfC(7r`Up2tokrt#Q(CG%Ztx7xy
zuwCdus!uxXqgNi<0chHta&05@gJJU8Mkop`*TTp(^RH|0@AZ4+4;o=~YE?3%wHmH#
W@bC5e#?Ljvz}9L1(%@g(Q~nQyv|L;O

delta 7394
zcmb7I33yaRw$8b|q?67D-PuS;IspP5wy>H!LP9|HAweZ5AT*tHr_-T39qM+-LNGX^
zfFo-7O1V)SLFGen1usscG6EtpPaOqU=HmW<5gZ&g9YGvlopZB*pKs=S{eAgUbxu{C
zQ|FvIb?UCaWKu7h65fiBkBt()Nc(60nRz=Cj!AG-JuO`^#~*1kdZL#NiHhow*jws_
zn2BH*)+X^IS$1`d^~dOf&KF7#_r3d_y}ru8!i`&ooY?ETZq(}XH$OVF*SG1=!!zfc
z|FqQiWK!V8NXo~hzLgc<@+Gzf15cFxt&)BpmO3StD+G7-4`P3y=(AjY%+?PEsNdTL
zN{*2uYePZr$Xa*3JiN)v>b-2F&mSJSywU9mdga=YJR@Zc%vCE=ZZ_Bkc0fnY2IJAx
z-UfdueVi?~o8H?{p<f!r**}iYIuf6?CI9{SVQO~98bd;V<J)877UUX_#>FidY~*E)
zDay}NAxAx(wI|NRiiCRVGed8L%oQ6}bb9%!E$;VH2cM0CJ|#!(6E7IV|HG++)qcZ=
zB*r^Ii>`B5yV&Rk7T^`diy*+CE>0g;k6R2OxDk4~PNQaOb}?^_X7zZPe}y~jU*VOz
z`214w9Psez6Zb(Kx0H+nA1^5x4$VAJ5>EEwIyKiU#+Iw!l{^+_4k9(c|1f(a$jYM$
zV7tkPlrVw?p%KA@aEAbA92<x2H3(}FdemdfvD=BT4&g3@-y^J7ANtKblC=)o4<S6F
zj;?sp1Y7yBc{istBL&yf3=Oq@&FBf$$ZRX0QTe3#DP%GA`^sZd;ZAH<Ay^ScBcK9K
zgRT)NgA-(f0EffDZlWP-%mTLrPw{1o^34a3@)X~+C<}J0FE5G(c%3^|*x>-zZoLO~
zQu`^sYVkeXw>a7Uk{I1;nT;V87%}Z0u`K&DAG74_FqERj`DK^f5)697%wH`6lgvW$
zCBg0%|2D61)k#Ms{))>F2l=3-PFTV#mb#*)w%FClZ5Cd(!OnBsseJMV8=vjYp#LrI
z4CRI(*!UCfM6fBtZ-oB*1Gim~#)4fLz7VXI^@og6ZBcb;Jh3X3k6C5oMO8MXDosr3
z$hB}^l?}4^%Bud#V<1RRS0(bB3T*r@RndIs+cx!YRS!tjccLlK^iC6d2irXa_AGXv
zLl)?)6l@!HdXKmC5jKW4)eNov21Xuw0VnHj;-|a=-4X2n5yzPPVQ)}oyRaSOX1>Ot
zw>~U075nC8O@bmj`|4&Sg-DHS#cAdm*9vz)CZUX?;}u?ClaahnEW%zz*o(^<a8O^q
z^KvqGtu?0}7PMAtmm|G`_ptD#T+0vF41+ZOQ_VE)_1$J3l@^nAwuGPdwJzB#COD1d
z;wR#Li|DXN5gtQ$9AO>;Mci&|p$&9(FlN}>2q=_oMYsilf^i$Rw(-|$Cs?O}X_U^{
z#y3}_t2zD-GknHh2;BuOytrW`Y~z83yqxF745vl6%GWsiIKuxRoIp6m)rKNCt)6Lk
z$S{k@bTDv~X7)CRz4abO^HACCT~Uf{`RXV|LTl`_5DSi|a?5`CR`p1DCYWix<Kk50
zLc2O;#U5$)r(z)c4B>MDPIH$MqOHY<^AL2iWnPbdHdo@P+w@U%Hqez?H1qoWp?aB}
z;Imo=+s+AEYa9vgVmzqc(Xu<Pog#pe3`IasNU|@)42A*8a0A;xGrF7oGW!xKUkPyb
zVYsNiY4Qs>q8({yOg2=2W@`1akgOTx#-MJ@7GzzAEOWif6Pi~en4VCW%q>!q-|b@s
zg6p*Dt{|l-%dN+Wz3P!{6swtPT!B!vo+xQIU-QJZnRc|P7KbuwWS2-C?f^T^OV{Ql
zQIN)vDKJFeP#f2NZ>T_niztlw4^fEMj=t|-3%g^;ML5Y{zIy^3qkv0XKgW>#>mjxL
zz6m2}4u-jKGP&<phYG%I7Qpv!vhg$bCBQ-T%6)$_&Hok83DZ$Lp{2DXpEryqaINsN
zu)kW|Vygw26(UfCqbt}Y1hObPjs24+ZtP!4df+ZGmgHJ@gO~k?+{*%-$^XGUqyc(E
zgL+*M$+*IA-*|Ih@_=>b%pM<{R8Mc*2BqYK?dJd61;1u<34~4vd-%JZIUuR$I&&nm
z5veAgwyAnzkAW$1Xx4g>*+e*01-!B|`rn&eTw%L6<(sDn%gaFy9VzO+Hm!?pkH*C<
z2+yD`Y`W=a%VbluJjJ+fSTf`Rr0Leh7C9gem#`wlBhc;=u+?K{hR4b2AT2dhwKpJA
z^17M0z_rIgldApVuTC@K=_ahxqks}rw0;cyT34e^Po!6P`PQ-Nb|F!d{63b9qEis)
z7^U(}TZ_AWHMhrCKK0br$E5-3IIbVUR#fK}1WLV`NJALUpMN43GWogAboHAjZm{;F
ztgr(IzJ*YQK+b97^VNe%g*dSoVKs8>eCV!n*uz_QjfDjD`CUK7z-IN?SNBN+d&d;v
zz@A{&<BTo~2j8$i(>k?h#Z!Fu{sQw1?62kD?w<@reAH{1(4v;VmSd2{1J7AuOU89u
z6Ut=S8x+C8Mqp9<Er0Of3F$f-kd1n^ru7bx8>?zU;%tOnH37Hp5`W>1TP)kf7;&AK
z@xF)VfKgp~s5Y)I&SR$#FrNzUb6k7hVI?wc#=%V=<lb~Ujvy=0zHUKn$w-;l!syTv
z8yh_Cu-Ao=(BzlB`sSa*i4=Ks7%1N8YHa7N9~>xf;Pe~;nn9!h=EUw$guzHNVS@Ct
zn~^{Uo56!0_WLhfQ?qm>&p>xe4zpYwn2#_FVTb^IjXJgv35)pt4`)G)8u!r?reS5s
zO>p~sA}mpFp}c#$Q9pDjQM346vOCxy%pKyN9~%RYskToJO9eQOH6c*Y<l_b@a_9sN
z7v1h`NqV<%+vjs3qIy2RK{BtvY0YA_RQ}$VnebQjA77SAW*Rq(k3F87;l=^Dnr2+)
zZIM|O_Q~2!eEIR@WEzTl5xe#?x<JIPHXW~kGwL_T=R+p#$}V{R>e_(Fuhk*OywzcG
z-3qyjPZmL<s+@dB8cM#T4fLddYt%lC+oHrUgLj-7)DN4jw%+)v@3M`YroMYB8KgoA
z!;GauwO0Gp!x~sfL~Kx=s@lKVBk3oJ&H?50HT;V+X&HEvYDRy(h*;gtxN91;hTFa!
z55G}oeVb^72EOppl=d~qq}antM}MD8MA{_mmLWtVlpt*sw#YlZiLVuDD-qfdRw2Y7
zV4<StLG&Ws^_1lFLw^U-?u;@De1tnLr(Ew51ZRpKFbWF8ZRq)FBDU!MTaK+x0h%S~
zZlJ@V@9bV=+^5_wiu>%z*bd+l>##-n^Db=FBZT-fm#0EdJ%9N{gS0J{Z~vDIENaZp
zvII9Ms{nG~Ze=sTZ<WVQFfCFofhs}l0~_Fj$TueV3mB|VOG?NHIm#!|Fc#vJJ{HJ^
zkTS{w{`P(zNEb3Z(h6}UwZ(hlu~!eCgjF$Z-8>UM?unb&!;NiAubVA~{^HkeZR^(t
zZ82@J&m=u<(wVC=+A`XVZP7Tl%~C9I{c>YehiSdl7^R$vfpNw@?%x^sPXoq87Q}+z
zko2$^!h#3^gg+=B$HUYbvPC&PiN$M$%*v2WM%V2my3RaCuAm^nJV6gu{aw==GnCkh
zko$|k(O<vq6gtAuT~FZue-IVmTq-v$*lI*TbFc@6leJhZe6Z;8HtUb-Lcwxo>X9V&
zQ+{<E^p=(S#&8un8a;cy>dj3-^LreEc4qe?=rN`|k_f3W4+???4RWS(BoVUlUF29I
zG`jl4QZ?nm>QjmrrNvq$Jqad2O{6jjRztoyDtE}oIpdDxjN9SfXFocsa9`nBLsahg
z3sI0e2R0;hNFC!h#CA?TYl(c<2Q&#1mBV%z-+pvt!Hz!L!#f(cuj;JYlKxO|-@uOP
zM@Nm`F>0rM$MP3aJK2`}hi=>L>6r0FTK4An2jicdx_kM)@X-<D_F060^gJOTeHL_-
zec{aSn9^z9Fnf#XJ$v5y?8Nw?XG6vsDQ4)|8%<G3eLF^X$eq_8PIMf$I4+%UG)CFy
z!KL%c<z&dT&nu06Ewz88G4{>kjLMkUcLwEECPea6U|BR=P&W35oRN2+d#s^)S5>I7
z-s5I1bo9%`DW@Dvc5gwWu0|+UPWFd^a8j{mK|#M&cz$CMD486_5tFg|u2Pu=gVQN>
ze}&ZJ0yN1}+jZoX2eM!^EL8rS1vkQbk&J9OC7EgF4kb1h`VYpLn%OOT{MBK$4wrmh
zfQ$j<z@J{+xRr8I(!hksvRnvCrK<&3)R4V;KZz4bdAd}P&!z~Pc+^vEuS==&izFOm
z&nl^dpbVx*77T)TNX2n%J_?n@v~G!2%BnnYz=Fslc~B?ijKjrZuabDFTLgO#Tkk4P
zC*<Xk9bU!-sXC%Ti$qschM^`|GggO0A-PLwbV9v(X@U@WLRm5hvLlv!2$<Swb_>o%
zU$Nf_m?l2F5P7%gIFo*<0PVX~uryORR4rGt+i>E22)#A$dgL4BhJag(mK)?yKpamu
z4mpHC&x%AelOc-Ttb9Kba>k+FTD16B<*M=rG$>;mkRUY|Xwb;+##ud{VsD79oGAEw
z?pnLDv;fkeJ<?JDN21FpeZ3=Cz6U<a``S99PYEMC+I3fvbx=*s<PA22Tc`-tVpu2?
zcGZW(7r<MUy9;506;H9A3NI^13ZXyjRsK;3Q>^=tz8_(iGO-B8no*SSZc`D+a3Jzc
z5j<y_bXxGW=y1r*n7f5x-qWPzjJ=Q3D2dVjyWS(8AoWw6VQzHQ_{EpjQ_5dUp%5~Z
zzLQ{2`*ty1<gzU&=TU^m5FSUM4<<!8pAztDq)~i^k%lhPeX|-{=n>sZRD~?Xu7a=$
zf%f|%w#ZAbV2i?fI5~_|$8E6-2wO=K0zCu9APwPjrL_#2&2tQ<oC`~pAIe~?5y|`<
zq$txSLnyXX^je3-Ivfsuczbr_v&rCtoab<%J8_L&2vjSi3Yz$`Labd%&Gm2y_9!E!
z!f=?P+&UFbOaH|BC{0;94f@7Zi%?*T#SFe>aj_Da2KmwtR6g~?1k+n(dFWw7A7kp2
zr0H-llM)cc#2GR2n!|WWIX4~BVYy<R0ryLnXuWKz+ETmAF@3$B%B?w(pSyJm%I~8L
zo(bvFWl$#1gc4|1Zl4M5(vP$TG$|>wM2)dVDVzoON>_B^y~-!EU@+VhG0uikgO$?S
zmqI1>g;HJ)m6h~%DnbI)m~_%H?dez74`{b{u}g=O986{CCBf)^_|6b*Ef%wpi%h`Q
zDnFEqL^(+rS^*hwe`I=v$d}T3NtqOY0g+ed3Y$wYQOeJAh4+5E5%#x#k7DpyL!XIG
z{Vaa$CD9eHobgE2y(I>fJLC0Qmo&bN)941L{6LRjDk145OvM0R*z5=by@~&hi&}f`
z@2<eeruAuav@Tr`lX22{l<<bKaGtn5TuS>q$Tc4kF(FS^o|p$`q>EX~>y<D+!3R+T
zCQzDxHD)SAhRg>?pLU8l%)<K4NCrk<xljN##{}BY!hS>%Bo>vUI#_&K4>jm!r|*MT
zaEM2M$eDBlP%c`CRLsZ3(qiyAM{grW`VS)cv@qossxvm@@B;!+xVMJwSN<-}2~;Zy
zwIUVujSQ=WR>J_YYm!jC`$IX(yC#M`%6~6|Ja|2Fb{XWyw$t9?#DuQ5sd&qUTg0cH
zUK4zWd&2`*t{+G=gq}b9>YFDskS}S=<i`6^TXJJ>{-;-595U!QlhfLN5UXjHDt~>o
zs0PA}>}5a+d&NMfT{jw;f;7dHpqc7jeor&oj!TiRNm*LYhC4x{;pauX>+~xly19Vf
zaT+%8n>FQYF(z3&-bC*(E_DQ_No9W7E<R|dV&Mi}Wp)!}!P}9#CU`~C^KPGilXp?^
z-uyut8Bn7pT>oB#NeC{4Y6J`o=0*5L{=}@v5K1v<ZxIXM5v6Qxh3iZurh#WCD_^#P
z!;XBXL)fD+D8i8}eNstYDN4vUaeA>bbtT+1YcaO_pq<U3sygvdW!q3sN*@yPG7%_Y
zlhkW9xojy8hCGb{ZwVWue6<p$CsZ3?)Vlc>qwxR5a^<=<80T0bD!UHz#VGuLangi2
Q78ukq?Yk)aPv3_A7irwJ&;S4c

diff --git a/src/assembler.py b/src/assembler.py
index 10119b2..f5838e1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4115,6 +4115,12 @@ class AssembledForm(object):
             """       
 
 
+        elif n_samples > 1 and vals.shape[-1]==1:
+            #
+            # Single sample: Copy it
+            #
+            vals = np.tile(vals, (1,n_samples))
+
         # Update dofs
         for i in range(dim):
             # Update ith set of dofs
-- 
2.43.0


From 1b660cbc29148b623467cc1498f3324277a4c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 41/96] fix: constant forms restricted to a flag no longer fail
 on cells outside the region

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index f5838e1..5392f98 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1369,7 +1369,7 @@ class Form(object):
                     #
                     # Sampled form
                     #
-                    f_loc = np.zeros(n_samples)
+                    f_loc = np.zeros((1,n_samples))
             elif self.type=='linear':
                 #
                 # Linear form
-- 
2.43.0


From 96c7636644ef536fde6c6b6d4bea1f7ff735262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 42/96] fix: constant forms over vertices no longer need a
 basis function

---
 src/assembler.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 5392f98..d051a2a 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3491,24 +3491,25 @@ class Assembler(object):
                 #
                 # Vertex (special case)
                 #
-                xg[region], wg[region] = convert_to_array(region.coordinates()), 1
+                xg[region] = convert_to_array(region, dim=region.dim())
+                wg[region] = 1
 
-                #
-                # Determine reference vertex corresponding to Vertex region
-                #
-                basis = list(shape_info[region])[0]
-                ref_cell = basis.dofhandler().element.reference_cell()
+                if len(shape_info[region])>0:
+                    #
+                    # Determine reference vertex corresponding to Vertex region
+                    #
+                    basis = list(shape_info[region])[0]
+                    ref_cell = basis.dofhandler().element.reference_cell()
 
-                # Determine equivalent Vertex on reference element
-                i_v = cell.get_vertices().index(region)
-                v = ref_cell.get_vertex(i_v)
-                x_ref = convert_to_array(v, dim=v.dim())
+                    # Determine equivalent Vertex on reference element
+                    i_v = cell.get_vertices().index(region)
+                    v = ref_cell.get_vertex(i_v)
+                    x_ref = convert_to_array(v, dim=v.dim())
 
-                # Map to physical
-                xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
-                                                    jac_p2r=jac_p2r,
-                                                    hess_p2r=hess_p2r)
-                wg[region] = 1
+                    # Map to physical
+                    xg[region], mg = cell.reference_map(x_ref, jac_r2p=True,
+                                                        jac_p2r=jac_p2r,
+                                                        hess_p2r=hess_p2r)
             else:
                 raise Exception('Only Intervals, HalfEdges, Vertices & '+\
                                 'QuadCells supported')
-- 
2.43.0


From ec95114e68e706e639f261dd27c04d9ecf3a2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 43/96] fix: assembled arrays are ordered by degree of freedom,
 and may be empty

---
 src/__pycache__/assembler.cpython-312.pyc | Bin 97420 -> 97570 bytes
 src/assembler.py                          |   9 ++++-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/__pycache__/assembler.cpython-312.pyc b/src/__pycache__/assembler.cpython-312.pyc
index 11cf9c2bfc3a183e841d2fde0966f445ffe5a458..487dcb35328594b05111c1f959cd72f33e14c413 100644
GIT binary patch
delta 1558
zcmY*ZZA?>V6u!@Gd++TBZK36>e5$la0f(YP1r-FWh=I8e5h8BH+NdBOZAB=zQI;8*
zA@SnPe3wNRP?mIqWHOdr7PAfA+>f~!S=k`$Bb%Ao60;1a%cfc8?rkl}-XHIKa?U-^
zd!BQi_YOYPTzsT4-iV9SQS#!?JU(p7pD+#v=x&abx4}l9X@zcbI&f73m)IFh7T@h-
zkR=YEaEkMN3F627sgw6k3^4d*GH~i!nrjJZhnvIc#gmPv>--SJ(7!JsIH`T?qp?>C
z0xtsN()TpNz%^+?jkkc`NrQ|SH|sA^Do_^Bk{=q7Bnrzp>$qWze&VHhwoEqN44I&@
zlJ<@f8R#e}VzC+3;#HT0yv*X5x?S&g5thSis8O6M?r^O*(P$Hen;iL?!&w|B2esHr
z-s4~)A8ApD6VhF+oQPbq--vgl1QQtGFOq6TDSXlkW(=xUWv&W&rW~I*KXhIxn9Xnr
zwD9zhZayP3YW!?T5(2}HndH2%#Ti=t71@}8^@q~3=4|;hw*0WIaL!gdV=KPAEo>_l
zD(6$O=Th=#Qu0HU;glkw;=A;M(5}lBQuRdjq-!?4OsHODD2H>-UNU1ZnbJ)A=gVF5
z6*Y?*%CY`FMLTLSR3~f|x`%d*&<{8&Ia?aD$~4lt)IM69zu2as%n8C8!S{OAEmQU_
zF8kph_2hmcax80g*OD`KZ_s_QF>Uu|-OUw_29@MY!Xk&;Qd$=3Rj8F(m*Y1Y4N{{W
zRlp(XO$Vw~OsA2ee0Rt`JF+CsiB1M*q~0QQX%Uw0Zh(V9zLZdoAHg)KG|TP>q`xb$
zUxnwSz12v9)@Pz9Z?il+ak#mRNZYUn0b+LH5&DUKJ3gleOya%0l}aR@<kp}OXGnhy
zKEOG$eg|&gf~2m+Ry9T?S3R0E_({6>JYKb6rBrYbpQ^Ax7F$t=^JGgKJnRTX1sPr?
zc3rTN={Ag3`7Kci$<k8sOsXOxdR!F~mRlW=J$`HKn{iDnGKQ!Rl;0%wx2BW#kHD_J
zq^5YWpU(s<n){MCcLXrVk-B#IVU(ZMiY3EVVmJbQAr}MSSq~kvgB%Yx+qzQjNUmS*
zOLQI1RKyz3x!G|pc70IGYn3Ys+*(EWy*fEj9Z78GHEven!PC)Gv4c8Z?PkezI}*W?
zZ`!e1oEo;WI-Yau+&W_GLKdm$KsvN!Uk5VM^-G`z1yq1nvji*dDoP~NO<<zr;-cha
z=b9+pB{IgPl>b+vajT!yrzV-5$c<-XDOFUnPZ<yyS%=JmXmKZLp7GF;1RZbk&>ouC
z^JWh{9=FsB3m+dDX!AN4$aE(X^=xaEEJ_Tz_=HI0pLXaYjN^D?jB)7`vRs5LpTH}`
z46%Op>hg@z`7WGN>+`U{x(|3-j<)&9if$BVSiKwMo_cBd@8c~}tTpns!1y}6{sV5(
z*$r#@g6c?1kJqULjj~d_*A=T!*~}p4y0M*&c&>ol>BcL}ZL?hNb<%MRJL8i^Rl`-G
z_z~A7LpZf?*073vc?@>jXk|zfYI&QRT0WbzX{u!=XUk{4*|geO!%o8XAlI0fO6rE{
z!q%Jt?YzlCih7WeG-tBUnCzpz(ArDAm-B8p%EG2i18Qk^4=QQYlQ#lrrjLU>4B%Hh
jMQ-=ubarb7mI=%QN;w}il|IYCE^PagQcmw4x&HqE1|zUL

delta 1431
zcmY*YeN0nV6o0?>`d(iPEtGb(SW5Y>d<78HO>rtx5yX<Xg&-MohGtV_QXZY4ygE#D
zD)FQ2&0QU4gE=!Y-G*znmt|&=eI_$o>`GG1mJHn%_Q%ZdV}HmWx_671?ELXN=iGD8
zJ->7Bx$n;L$L{myt0t3?(WLq0!;aUAE}4(*V<nMTa*-FgvTuTiR|$j`DIfO>a491L
zMar7DjghH=^8$X4>_7YqtJ@mOD2r?#^aZg;8GrBs0ujr@9u`gNAz&Nu4w(_~irUKI
zdEis^a~;kDH_0{u?v(F?D`;gZvcAKsOzd1te&Zn8{6ae`v$DRLM!0!R&xxQ;nW(dp
zkM!s@`-O$j?xbKnDHL%En`oF5J2ofI`bWfDkjbC{HE2pCP8(2y9@S(-uMSJdAu~SU
zq+zI~DG-4>WO*u9K~kku9OD$zgREE2G~6>X>8{hQV?xwb7IT!3TcVE2FhAwYiaU#=
z&f=J}H11p$buNoLYopHEm~%r|oE4Zw&bZwZwR>Xr!nnOGYA+iXV)hkbZpxMsw|SyA
z&lnf8m4xxDW679h94dc_kLV{IPlkCdIj10=T^Y@;9QPJqshX-@KegIB%QHDucNsRP
z4nyWJ8(uzSJYA!0&2&@eb>km)xB8<ErEqrXB-T(o+rcxbY2l^ep3}A0QnIdzS@-X3
zCQsOrXZ0ArTI6ajG5)a9*<4}#DYu|`x!P#QtcV-xYB!oVG^odOaEnE=+MkbFV2668
z0A5b$GBZripJX5(ZndZg0Rbn};c|2v@Uv=Ki2?ydYSmgyL)gmk*?0TY#WiT>utnYP
zg&hVdg<+&N?Mao9wrX;H16r_`EUm*F21w~fe8(P6QEorCo<=OBz8+g~f}E?zXE;S#
z8*mk8)q+i^(czrBvk9#{rqyqr#ZfCfs&5Cr=5U>)b;5@hvb_^8>d!DtNShF4`;3j;
z?8JLj+O!DiT6I60KyIIA2h%i2$VJ@+cHX*xc?~9*qD&0A$jr;g<A!yNlG<-K`gxii
z(rd8;yE5o+;6i#?IUr{yi8B1ct|eNN9+DY=o7ek=i+VD(8@cO5I?8(u+72$UW4Fxv
z6KrI5UMEg9%DQ<kl=Ko4N)Gb#OteoRlIkv0kU0)kQ8vnYzrk-H1Kn_w_q&h*kzDSE
z%WZsIC5cuEL*gITVLCFE+d~fG2*9EY?y~A+x)K$v6^V`(x(=BiXZ)WT@8>8-jW0(I
z2H>%Z3n{fsTMxbLV7AhxxU{Y*x9I@Vkxb?SSO<YrccbtTd6R5jAiwGn@1z88Ic<Sa
z(xcnjYbZ3Stc1fl^2Q!iu1%Ak(iljr_E1tewU$!&gu<KJqe&IiDyDFsLJ<Ws4U|&r
zTZY(ru~Gj8UD2HOUK|u|q-rDmA-UCyMvLui`$*nM_o!#MGnQUFnOs5|`jBrQ@s4GW
zZXDY(+Bj|*^<B=LbUr<qyoMa@gNIGEkuUq;FdxxP+Z@C<<crzzju_Ox`>>vckCgYL
qja|!<ll}M$C8STrU{;3<*<s-xL-oCuRnLgX4{!LFp;~Iuc>V{v>59?-

diff --git a/src/assembler.py b/src/assembler.py
index d051a2a..e88cc5c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4372,7 +4372,7 @@ class AssembledForm(object):
             #
             # Get unique dofs from data
             #
-            udofs.append(list(set(dofs[i])))
+            udofs.append(sorted(set(dofs[i])))
 
             #
             # Number of index vectors
@@ -4382,16 +4382,15 @@ class AssembledForm(object):
             #
             # Dof-to-index mapping for interior dofs
             #
-            dof2idx.append(np.zeros(udofs[i][-1]+1, dtype=int))
+            dof2idx.append(np.zeros(max(udofs[i], default=-1)+1, dtype=int))
             dof2idx[i][udofs[i]] = np.arange(n_idx[i])
 
         #
         # Store values in (n, n_samples) array
         #
-        vals = self.__aggregate_data['vals']
-        vals = np.array(vals)
-
         n_samples = self.n_samples()
+        vals = self.__aggregate_data['vals']
+        vals = np.array(vals).reshape((len(vals), n_samples))
         if dim == 0:
             #
             # Constant (scalar)
-- 
2.43.0


From 6b4d25fb407ea8c14da1e32db468bdcf82450feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 44/96] fix: assembly keeps the cellwise data it is asked to
 keep

---
 src/assembler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index e88cc5c..0d002e1 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -4216,7 +4216,9 @@ class AssembledForm(object):
         if clear_cellwise_data:
             cell_data = self.__cellwise_data[cell]
         else:
-            cell_data = self.__cellwise_data[cell].copy()
+            cell_data = self.__cellwise_data[cell]
+            cell_data = {'dofs': [list(dofs) for dofs in cell_data['dofs']],
+                         'vals': list(cell_data['vals'])}
 
         # Aggregate data
         data = self.__aggregate_data
-- 
2.43.0


From 6cc07bf2c3ab3963ea3d924bee33ffc729053531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 45/96] fix: assembling again does not add to the previous
 result

---
 src/assembler.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index 0d002e1..239cee0 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -2359,6 +2359,14 @@ class Assembler(object):
         #t_reference_map = 0
 
 
+        #
+        # Discard data from previous assembly
+        #
+        for i_problem in range(self.n_problems()):
+            for aform in self.assembled_forms(i_problem):
+                if aform is not None:
+                    aform.clear_data()
+
         #
         # Assemble forms over mesh cells
         #
@@ -3938,6 +3946,14 @@ class AssembledForm(object):
         #
         # Initialize cellwise- and aggregate data
         #
+        self.clear_data()
+
+
+    def clear_data(self):
+        """
+        Remove all assembled (cellwise and aggregate) data
+        """
+        dim = self.dim()
         self.__cellwise_data = {}
         self.__aggregate_data = {'dofs':[[] for dummy in range(dim)],
                                  'udofs': [],
-- 
2.43.0


From d04c83fb1eb72799a4c7f5a551dc4860131489a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 46/96] fix: only mirror the blocks of a symmetric integral
 kernel if test and trial functions coincide

---
 src/assembler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 239cee0..e82f770 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1639,6 +1639,17 @@ class IPForm(Form):
 
 
 
+    def has_symmetric_blocks(self):
+        """
+        Determine whether the local matrix of the cell-pair (cj,ci) is the
+        transpose of that of (ci,cj): the kernel must be symmetric and the test
+        and trial functions must coincide.
+        """
+        test, trial = self.test, self.trial
+        return self.kernel.is_symmetric() and test.same_dofs(trial) and \
+            test.derivative() == trial.derivative()
+
+
     def eval(self, cells, xg, wg, phi, dofs):
         """
         Evaluates the local bilinear form
@@ -2474,12 +2485,12 @@ class Assembler(object):
                             #
                             # Special efficiency when kernel is symmetric
                             #
-                            if form.kernel.is_symmetric():
+                            if form.has_symmetric_blocks():
                                 if ci!=cj:
                                     #
                                     # Symmetric kernel, store the transpose
                                     #
-                                    aform.update_cellwise(ci, form_loc.T,
+                                    aform.update_cellwise(ci, np.swapaxes(form_loc,0,1),
                                                           dofs = [dofs_trl, dofs_tst])
                                 else:
                                     #
-- 
2.43.0


From 94388afeb690482f4191db9200dd4702c821aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 47/96] fix: assemble IPForms whose kernel is sampled or whose
 regions do not meet the cell

---
 src/assembler.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index e82f770..9a91473 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1688,7 +1688,12 @@ class IPForm(Form):
         # Sample size
         n_samples = self.kernel.n_samples()
 
-        f_loc = None
+        # Initialize local matrix
+        if n_samples==1:
+            f_loc = np.zeros((n_dofsi,n_dofsj))
+        else:
+            f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
+
         for regi in self.regions(ci):
             for regj in self.regions(cj):
                 # Access test(i) and trial(j) functions
@@ -1707,17 +1712,6 @@ class IPForm(Form):
                 dofi = dofs[0][regi]
                 dofj = dofs[1][regj]
 
-                #
-                # Initialize local matrix if necessary
-                #
-                if f_loc is None:
-                    #
-                    # Initialize form
-                    #
-                    if n_samples==1:
-                        f_loc = np.zeros((n_dofsi,n_dofsj))
-                    else:
-                        f_loc = np.zeros((n_dofsi,n_dofsj,n_samples))
                 #
                 # Evaluate kernel function at the local Gauss points
                 #
@@ -1736,7 +1730,7 @@ class IPForm(Form):
                 C_loc = self.kernel.eval(x, cell=(ci,cj), region=(regi, regj),
                                          phi=(phi[0][regi],phi[1][regj]),
                                          dofs=(dofi,dofj))
-                C_loc = C_loc.reshape(n_gauss,n_gauss)
+                C_loc = C_loc.reshape(n_gauss,n_gauss,n_samples)
 
                 #
                 # Compute local integral
@@ -1746,7 +1740,11 @@ class IPForm(Form):
                 Wphij = np.diag(wj_g).dot(phij)
 
                 # Combine
-                f_loc += np.dot(Wphii.T, C_loc.dot(Wphij))
+                if n_samples==1:
+                    f_loc += np.dot(Wphii.T, C_loc[:,:,0].dot(Wphij))
+                else:
+                    for i in range(n_samples):
+                        f_loc[:,:,i] += np.dot(Wphii.T, C_loc[:,:,i].dot(Wphij))
 
         # Return local form
         return f_loc
@@ -4120,14 +4118,13 @@ class AssembledForm(object):
             #if vals.shape[1]==1:
             #    print(vals)
             
+            vals = vals.reshape((n_entries,-1), order='F')
             if n_samples > 1:
                 if vals.shape[-1]==1:
                     #
                     # Single sample: Copy it 
                     # 
                     vals = np.tile(vals, (1,n_samples))
-                
-            vals = vals.reshape((n_entries,n_samples), order='F')
             
             """
             if n_samples > 1:
-- 
2.43.0


From de7cf9ec106f9cec61fb111c50df591d35c32500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 48/96] fix: assemble IIForms over all regions, for sub-meshes
 and for sampled kernels

---
 src/assembler.py | 60 ++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 9a91473..052a1fe 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -1534,7 +1534,7 @@ class IIForm(Form):
         # Interpolate in the test function component
         # =====================================================================
         test = self.test
-        x = test.dofhandler().get_dof_vertices(test.subforest_flag())
+        x = test.dofhandler().get_dof_vertices(test.dofs())
         n = x.shape[0]
 
         # =====================================================================
@@ -1545,7 +1545,15 @@ class IIForm(Form):
         # Number of dofs
         n_dofs = trial.dofhandler().element.n_dofs()
 
-        f_loc = None
+        # Sample size
+        n_samples = self.kernel.n_samples()
+
+        # Initialize local matrix
+        if n_samples==1:
+            f_loc = np.zeros((n,n_dofs))
+        else:
+            f_loc = np.zeros((n,n_dofs,n_samples))
+
         for reg in self.regions(cell):
             # Get trial functions evaluated at Gauss nodes
             phi_g = phi[reg][trial]
@@ -1553,39 +1561,27 @@ class IIForm(Form):
             w_g = wg[reg]
 
             #
-            # Initialize local matrix if necessary
+            # Evaluate covariance function at the local Gauss points
             #
-            if f_loc is None:
-                #
-                # Initialize form
-                #
-                f_loc = np.zeros((n,n_dofs))
+            n_gauss = x_g.shape[0]
+            ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
+            C_loc = self.kernel.eval((x[ii.ravel(),:],x_g[jj.ravel(),:]),
+                                     region=reg, cell=cell,
+                                     phi=phi[reg], dofs=dofs[reg])
+            C_loc = C_loc.reshape(n,n_gauss,n_samples)
 
-                #
-                # Evaluate covariance function at the local Gauss points
-                #
-                n_gauss = x_g.shape[0]
-                ii,jj = np.meshgrid(np.arange(n),np.arange(n_gauss), indexing='ij')
-                x = (x[ii.ravel(),:],x_g[jj.ravel(),:])
-                """
-                if self.dim == 1:
-                    x1, x2 = x[ii.ravel()], x_g[jj.ravel()]
-                elif self.dim == 2:
-
-                """
-
-                C_loc = self.kernel.eval(x, region=reg, cell=cell,
-                                         phi=phi[reg], dofs=dofs[reg])
-                C_loc = C_loc.reshape(n,n_gauss)
-
-                #
-                # Compute local integral
-                #
-                # Weight shape functions
-                Wphi = np.diag(w_g).dot(phi_g)
+            #
+            # Compute local integral
+            #
+            # Weight shape functions
+            Wphi = np.diag(w_g).dot(phi_g)
 
-                # Combine
-                f_loc += C_loc.dot(Wphi)
+            # Combine
+            if n_samples==1:
+                f_loc += C_loc[:,:,0].dot(Wphi)
+            else:
+                for i in range(n_samples):
+                    f_loc[:,:,i] += C_loc[:,:,i].dot(Wphi)
         return f_loc
 
 
-- 
2.43.0


From 02cbf53a66a1c63beb21955e85f50a94842c8503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 49/96] fix: evaluate bivariate nodal kernels of integral forms

---
 src/assembler.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 052a1fe..719f231 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -954,15 +954,27 @@ class Kernel(object):
         n_samples = self.n_samples()
         for f, dfdx in zip(self.__f, self.__dfdx):
             if isinstance(f, Nodal):
-                phi_f = phi if phi is None else phi[f.basis()]
-                dof_f = None if dofs is None else dofs[f.basis()]
+                cell_f, phi_f, dof_f = cell, None, None
+                if f.n_variables()==2:
+                    #
+                    # Bivariate: phi and dofs are given in pairs
+                    #
+                    if isinstance(phi, tuple) and isinstance(dofs, tuple):
+                        phi_f = tuple(p[f.basis()] for p in phi)
+                        dof_f = tuple(d[f.basis()] for d in dofs)
+                    elif not isinstance(cell, tuple):
+                        # The points are not confined to a single cell
+                        cell_f = None
+                else:
+                    phi_f = phi if phi is None else phi[f.basis()]
+                    dof_f = None if dofs is None else dofs[f.basis()]
                 if dof_f is None or phi_f is None or \
                     (dfdx is not None and \
                      parse_derivative_info(dfdx) != f.basis().derivative()):
                     # No shape functions available (for this derivative)
-                    fv = f.eval(x=x, derivative=dfdx, cell=cell)
+                    fv = f.eval(x=x, derivative=dfdx, cell=cell_f)
                 else:
-                    fv = f.eval(x=x, derivative=dfdx, cell=cell, phi=phi_f,
+                    fv = f.eval(x=x, derivative=dfdx, cell=cell_f, phi=phi_f,
                                 dofs=dof_f)
             else:
                 fv = f.eval(x=x)
@@ -1722,10 +1734,13 @@ class IPForm(Form):
                 elif self.dim() == 2:
                     x1, x2 = xi_g[ii.ravel(),:],xj_g[jj.ravel(),:]
                 """
+                # Shape functions at the pairs of Gauss points
+                phi_g = ({b: p[ii.ravel(),:] for b, p in phi[0][regi].items()},
+                         {b: p[jj.ravel(),:] for b, p in phi[1][regj].items()})
+
                 #x, phi=None, cell=None, region=None, dofs=None)
                 C_loc = self.kernel.eval(x, cell=(ci,cj), region=(regi, regj),
-                                         phi=(phi[0][regi],phi[1][regj]),
-                                         dofs=(dofi,dofj))
+                                         phi=phi_g, dofs=(dofi,dofj))
                 C_loc = C_loc.reshape(n_gauss,n_gauss,n_samples)
 
                 #
-- 
2.43.0


From 8b2119f89008a364a7e390fefd69322bbb793220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 50/96] fix: a LinearSystem keeps its own constraints instead
 of adding them to the shared dofhandler

---
 src/solver.py | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index ab0fd98..aa55069 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -107,6 +107,19 @@ class LinearSystem(object):
         subforest_flag = self.get_basis().subforest_flag()
         self.get_dofhandler().set_hanging_nodes(subforest_flag=subforest_flag)
         
+        #
+        # Collect constraints of this system (the dofhandler may be shared) 
+        # 
+        self.__constraints = {'constrained_dofs': [], 
+                              'supporting_dofs': [],
+                              'coefficients': [], 
+                              'affine_terms': []}
+        dh = self.get_dofhandler()
+        if dh.mesh.dim()==2 and not dh.element.torn_element():
+            hanging_nodes = dh.get_hanging_nodes(subforest_flag=subforest_flag)
+            for dof, (supp, coeffs) in hanging_nodes.items():
+                self.__add_constraint(dof, supp, coeffs, 0)
+        
         # 
         # Store Bilinear Form
         # 
@@ -284,12 +297,27 @@ class LinearSystem(object):
             x_dir = convert_to_array(dirichlet_vertices)
             dirichlet_vals = dirichlet_function.eval(x_dir).ravel()
             
-        constraints = dh.constraints
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
-            constraints['constrained_dofs'].append(dof)
-            constraints['supporting_dofs'].append([])
-            constraints['coefficients'].append([])
-            constraints['affine_terms'].append(val)
+            self.__add_constraint(dof, [], [], val)
+
+
+    def __add_constraint(self, dof, supporting_dofs, coefficients, affine_term):
+        """
+        Add the constraint 
+        
+            x[dof] = sum_i coefficients[i]*x[supporting_dofs[i]] + affine_term
+            
+        A previous constraint on the same dof is replaced.
+        """
+        constraints = self.__constraints
+        if dof in constraints['constrained_dofs']:
+            i = constraints['constrained_dofs'].index(dof)
+            for values in constraints.values():
+                del values[i]
+        constraints['constrained_dofs'].append(dof)
+        constraints['supporting_dofs'].append(supporting_dofs)
+        constraints['coefficients'].append(coefficients)
+        constraints['affine_terms'].append(affine_term)
 
             
     def set_constraint_relation(self):
@@ -307,7 +335,7 @@ class LinearSystem(object):
         #    
         # Define constraint matrix
         #
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = np.array(constraints['constrained_dofs'], dtype=int)
         c_rows = []
         c_cols = []
@@ -417,7 +445,7 @@ class LinearSystem(object):
         #
         self.column_records = []
         
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         
         #
@@ -715,7 +743,7 @@ class LinearSystem(object):
         b = self.get_rhs()
         n_dofs = len(self.get_dofs())
             
-        constraints = self.get_dofhandler().constraints
+        constraints = self.__constraints
         c_dofs = constraints['constrained_dofs']
         C = self.get_C()
         d = self.get_d()
-- 
2.43.0


From 45357880dce01780b82ace326f7c5a465cfd6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 51/96] fix: LinearSystem constraints are stored by equation,
 not by dof number

---
 src/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index aa55069..fe7d306 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -370,7 +370,7 @@ class LinearSystem(object):
         # Define constraint vector
         # 
         d = np.zeros(n_dofs)
-        d[c_dofs] = np.array(constraints['affine_terms'])
+        d[self.dof2eqn(c_dofs)] = np.array(constraints['affine_terms'])
         
         # Store constraint vector
         self.__d = d
@@ -771,7 +771,7 @@ class LinearSystem(object):
             # Set b=0 at the constraints
             # 
             zc = np.ones(n_dofs)
-            zc[c_dofs] = 0
+            zc[self.dof2eqn(c_dofs)] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From b924d0fd0bcd3a1eec6286e7c233c9bd025f27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 52/96] fix: LinearSystem.matrix_is_constrained returned None,
 so that matrices were constrained twice

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index fe7d306..6299f26 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -570,7 +570,7 @@ class LinearSystem(object):
         """
         Determine whether the system matrix has been constrained
         """
-        self.__A_is_constrained
+        return self.__A_is_constrained
         
         
     def invert_matrix(self, b=None, factor=False):
-- 
2.43.0


From 7b5c507737248099390758087bf27efb8148edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 53/96] fix: constrained equations of a matrix whose diagonal
 has mean zero are not scaled by zero

---
 src/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 6299f26..0241a08 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -535,7 +535,8 @@ class LinearSystem(object):
             # If there are unconstrained dofs, use average diagonal to scale 
             # 
             c_eqns = self.dof2eqn(c_dofs)
-            ave_vec[c_eqns] = (np.sum(a_diag)-n_cdofs)/(n_dofs-n_cdofs)
+            ave = (np.sum(a_diag)-n_cdofs)/(n_dofs-n_cdofs)
+            ave_vec[c_eqns] = ave if ave != 0 else 1
         I_ave = sparse.dia_matrix((ave_vec,0), shape=(n_dofs,n_dofs))
         A = A.dot(I_ave)
         
-- 
2.43.0


From 00c36263ad25c82dba5f1687738232242424d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 54/96] fix: constraining the right hand side keeps the loads
 of all hanging nodes

---
 src/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 0241a08..bab4cb1 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -772,7 +772,7 @@ class LinearSystem(object):
             # Set b=0 at the constraints
             # 
             zc = np.ones(n_dofs)
-            zc[self.dof2eqn(c_dofs)] = 0
+            zc[k] = 0
             Izc = sparse.dia_matrix((zc,0),shape=(n_dofs,n_dofs)) 
             b = Izc.dot(b)
             
-- 
2.43.0


From 02ab678252e1e4468fba17db55a27917a116d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 55/96] fix: LinearSystem factors matrices that are not
 symmetric positive definite by LU

---
 src/solver.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index bab4cb1..cb48bdf 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -9,6 +9,7 @@ from diagnostics import Verbose
 # Optional: CHOLMOD for fast sparse Cholesky (scikit-sparse)
 try:
     from sksparse.cholmod import cholesky as cholmod_cholesky
+    from sksparse.cholmod import CholmodNotPositiveDefiniteError
 except Exception:
     cholmod_cholesky = None
 
@@ -641,8 +642,16 @@ class LinearSystem(object):
         assert A is not None, 'No system matrix to factor.'
         A = A.tocsc()
 
-        if cholmod_cholesky is not None:
-            factor = cholmod_cholesky(A)
+        # CHOLMOD only reads one triangle: use it for symmetric matrices
+        factor = None
+        if cholmod_cholesky is not None and self.__is_symmetric(A):
+            try:
+                factor = cholmod_cholesky(A)
+            except CholmodNotPositiveDefiniteError:
+                # Symmetric, but not positive definite
+                factor = None
+
+        if factor is not None:
 
             # Wrapper to present a uniform `.solve(B)` interface across
             # CHOLMOD (callable factor) and SciPy factorized fallback.
@@ -674,6 +683,16 @@ class LinearSystem(object):
         self.__invA = _FactorWrapper(func)
         self.__A_is_factored = True
         
+    
+    @staticmethod
+    def __is_symmetric(A):
+        """
+        Determine whether the (sparse) matrix is symmetric, up to rounding.
+        """
+        difference = abs(A - A.T)
+        return difference.nnz==0 or difference.max() <= 1e-12*abs(A).max()
+    
+        
         
     def set_rhs(self, rhs):
         """
-- 
2.43.0


From a0ca8848874ffc7af83807464ef96abbadba4ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 56/96] fix: Dirichlet functions on boundaries without degrees
 of freedom

---
 src/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver.py b/src/solver.py
index cb48bdf..1200f91 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -295,6 +295,8 @@ class LinearSystem(object):
             #
             # Nonhomogeneous, nonconstant Dirichlet boundary conditions 
             #
+            if len(dirichlet_dofs)==0:
+                return
             x_dir = convert_to_array(dirichlet_vertices)
             dirichlet_vals = dirichlet_function.eval(x_dir).ravel()
             
-- 
2.43.0


From 389de5cea33a0bd7f3d7a526b0c5985fa7b06840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 57/96] fix: LinearSystem.resolve_constraints works for vectors
 other than the solution, without changing them

---
 src/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver.py b/src/solver.py
index 1200f91..e703785 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -823,7 +823,7 @@ class LinearSystem(object):
         # 
         C, d = self.get_C(), self.get_d()
         
-        n_samples = self.n_rhs()
+        n_samples = u.shape[1]
         drep = np.tile(d[:, np.newaxis], (1,n_samples))
         
         #
@@ -837,6 +837,9 @@ class LinearSystem(object):
             # Convert to ndarray if necessary
             # 
             u = u.toarray()
+        else:
+            # Leave the given vector as it is
+            u = u.copy()
         u[ec_dofs,:] = drep[ec_dofs,:]
         u = C.dot(u) + drep
               
-- 
2.43.0


From b4b4810ebb7a793f711ebbd2fbe8cacd402c6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 58/96] fix: Dirichlet constraints added after a solve are no
 longer ignored

---
 src/solver.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/solver.py b/src/solver.py
index e703785..f1c8149 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -302,6 +302,15 @@ class LinearSystem(object):
             
         for dof, val in zip(dirichlet_dofs, dirichlet_vals):
             self.__add_constraint(dof, [], [], val)
+            
+        if self.get_C() is not None:
+            #
+            # System already constrained: start over with all constraints
+            # 
+            self.__C = None
+            self.__d = None
+            self.set_matrix(self.__A_original)
+            self.set_rhs(self.__b_original)
 
 
     def __add_constraint(self, dof, supporting_dofs, coefficients, affine_term):
@@ -398,6 +407,9 @@ class LinearSystem(object):
         # Store matrix
         self.__A = A
         
+        # Remember the matrix without constraints
+        self.__A_original = A
+        
         # Mark matrix as unfactored and unconstrained.              
         self.__A_is_factored = False
         self.__A_is_constrained = False
@@ -723,6 +735,9 @@ class LinearSystem(object):
             self.__b = sparse.csc_matrix(rhs)
         else:
             self.__b = None
+            
+        # Remember the right hand side without constraints
+        self.__b_original = self.__b
         self.__b_is_constrained = False
         
     
-- 
2.43.0


From 6095751ef5aa15a11a0f87b2c28ba35f94df96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 59/96] fix: Assembler.add_dirichlet applies to the marked
 half-edges, as documented

---
 src/assembler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 719f231..ef7169c 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3640,12 +3640,15 @@ class Assembler(object):
             #
             # Two dimensional mesh
             #
-            dir_dofs = dh.get_region_dofs(entity_type='vertex',
+            dir_dofs = set()
+            for entity_type in ['half_edge', 'vertex']:
+                dofs = dh.get_region_dofs(entity_type=entity_type,
                                           entity_flag=dir_marker,
                                           interior=False,
                                           on_boundary=on_bnd, \
                                           subforest_flag=sf)
-            #print('The Dirichlet Dofs are', dir_dofs)
+                dir_dofs.update(dofs)
+            dir_dofs = sorted(dir_dofs)
         # Number of dirichlet dofs
         n_dirichlet = len(dir_dofs)
 
-- 
2.43.0


From 7f16e81e4cee4329b66cd1d1c1eed95c7796b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 60/96] fix: Assembler.add_dirichlet accepts nodal functions

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index ef7169c..e87021b 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3665,7 +3665,7 @@ class Assembler(object):
             #
             # Nodal function whose dofs coincide with problem dofs
             #
-            idx = dir_fn.dof2idx(dir_dofs)
+            idx = dir_fn.basis().d2i(dir_dofs)
             dir_vals = dir_fn.data()[idx,:]
         else:
             #
-- 
2.43.0


From f69230e07c270da3d1bfe3fd279f6128f639237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 61/96] fix: problems without Dirichlet dofs can be solved

---
 src/assembler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assembler.py b/src/assembler.py
index e87021b..9e22f43 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3651,6 +3651,8 @@ class Assembler(object):
             dir_dofs = sorted(dir_dofs)
         # Number of dirichlet dofs
         n_dirichlet = len(dir_dofs)
+        if n_dirichlet==0:
+            return
 
         #
         # Evaluate dirichlet function at vertices associated with dirichlet dofs
@@ -4482,6 +4484,9 @@ class AssembledForm(object):
                 # Form
                 if len(x0_dofs)>0:
                     x0.append(np.bincount(x0_dofs, x0_vals[:,i],n_rows))
+                else:
+                    # No Dirichlet terms
+                    x0.append(np.zeros(n_rows))
 
             # Store result
             self.__aggregate_data['array'] = A
-- 
2.43.0


From 8d3243cee56df34c329fb4af81f1299ab9fe76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 62/96] fix: hanging nodes on a Dirichlet region take their
 Dirichlet value

---
 src/assembler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 9e22f43..b0fa791 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3742,7 +3742,11 @@ class Assembler(object):
         rows = []
         cols = []
         vals = []
+        dir_bc = self.__dirichlet_bc[i_problem]
         for h_dof, supp in hng.items():
+            if h_dof in dir_bc:
+                # Dirichlet value takes precedence
+                continue
             for s_dof, s_coef in zip(*supp):
                 # Update rows (hanging nodes)
                 rows.append(test.d2i(h_dof))
@@ -4280,7 +4284,7 @@ class AssembledForm(object):
             while len(rows)>0:
                 r,v = rows.pop(), vals.pop()
 
-                if r in hng:
+                if r in hng and r not in dir_bc:
                     #
                     # Hanging Node -> distribute to supporting rows
                     #
@@ -4306,7 +4310,7 @@ class AssembledForm(object):
             while len(rows)>0:
                 r, c, v = rows.pop(), cols.pop(), vals.pop()
 
-                if r in hng:
+                if r in hng and r not in dir_bc:
                     #
                     # Hanging node -> distribute to supporting rows
                     #
@@ -4322,7 +4326,7 @@ class AssembledForm(object):
                     #
                     # Interior row
                     #
-                    if c in hng:
+                    if c in hng and c not in dir_bc:
                         #
                         # Column hanging node -> distribute to supporting cols
                         #
-- 
2.43.0


From 83bd32dfce58f0b6501ee9d801d2bead342b434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 63/96] fix: Assembler.add_hanging_nodes uses the sub-mesh of
 the trial function

---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index b0fa791..07914cc 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3716,7 +3716,7 @@ class Assembler(object):
 
         # Set hanging nodes
         self.__hanging_nodes[i_problem] \
-            = phi.dofhandler().get_hanging_nodes(subforest_flag=self.subforest_flag())
+            = phi.dofhandler().get_hanging_nodes(subforest_flag=phi.subforest_flag())
 
 
     def get_hanging_nodes(self, i_problem=0):
-- 
2.43.0


From 751ec755b77d0cfb8327fdb041b3d0b7270d76ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 64/96] fix: DofHandler.get_hanging_nodes returns no hanging
 nodes for 1D and discontinuous elements

---
 src/fem.py    | 13 ++++---------
 src/solver.py |  7 +++----
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 8d0d1aa..eb744f9 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2489,6 +2489,10 @@ class DofHandler(object):
 
             - Hanging nodes are never periodic
         """
+        hanging_nodes = {}
+        key = subforest_flag if subforest_flag is not None else 'default'
+        self.__hanging_nodes[key] = hanging_nodes
+
         if self.mesh.dim()==1:
             #
             # One dimensional meshes have no hanging nodes
@@ -2500,7 +2504,6 @@ class DofHandler(object):
         #
         if self.element.torn_element():
             return
-        hanging_nodes = {}
         for cell in self.mesh.cells.get_leaves(subforest_flag=subforest_flag):
             for half_edge in cell.get_half_edges():
                 #
@@ -2571,14 +2574,6 @@ class DofHandler(object):
                                         self.constraints['supporting_dofs'].append(supporting_dofs)
                                         self.constraints['coefficients'].append(constraint_coefficients)
                                         self.constraints['affine_terms'].append(0)
-        #
-        # Store all hanging nodes in dictionary
-        #
-        if subforest_flag is not None:
-            self.__hanging_nodes[subforest_flag] = hanging_nodes
-        else:
-            self.__hanging_nodes['default'] = hanging_nodes
-
 
     def get_hanging_nodes(self, subforest_flag=None):
         """
diff --git a/src/solver.py b/src/solver.py
index f1c8149..e5ae880 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -116,10 +116,9 @@ class LinearSystem(object):
                               'coefficients': [], 
                               'affine_terms': []}
         dh = self.get_dofhandler()
-        if dh.mesh.dim()==2 and not dh.element.torn_element():
-            hanging_nodes = dh.get_hanging_nodes(subforest_flag=subforest_flag)
-            for dof, (supp, coeffs) in hanging_nodes.items():
-                self.__add_constraint(dof, supp, coeffs, 0)
+        hanging_nodes = dh.get_hanging_nodes(subforest_flag=subforest_flag)
+        for dof, (supp, coeffs) in hanging_nodes.items():
+            self.__add_constraint(dof, supp, coeffs, 0)
         
         # 
         # Store Bilinear Form
-- 
2.43.0


From edbb12b55e90b6328d2a97bd858296607daa7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 65/96] fix: hanging nodes are determined again when dofs are
 distributed again

---
 src/fem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fem.py b/src/fem.py
index eb744f9..98a5b3b 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1238,6 +1238,7 @@ class DofHandler(object):
         #
         # Cells split since a previous distribution inherit existing dofs
         #
+        self.__hanging_nodes = {}
         for cell in list(self.__global_dofs):
             if not self.element.torn_element():
                 self.share_dofs_with_neighbors(cell)
-- 
2.43.0


From 79c8df54075d69ced27bf4e9fd2b172636a330fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 66/96] fix: Assembler.solve on sub-meshes, without Dirichlet
 dofs, for several vectors and for loads on part of the domain

---
 src/assembler.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/assembler.py b/src/assembler.py
index 07914cc..1237d5e 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3805,26 +3805,42 @@ class Assembler(object):
         x0 = self.assembled_bnd(i_problem=i_problem, i_sample=i_matrix)
 
         #
-        # Initialize solution array
+        # Initialize solution array (one column for each vector)
         #
-        u = np.zeros(n_dofs)
+        single_vector = len(b.shape)==1
+        b = np.atleast_2d(b).T
+        u = np.zeros((n_dofs,b.shape[1]))
+
+        #
+        # Align vector with the equations for the interior dofs (the linear
+        # form may involve fewer dofs)
+        #
+        int_dofs = phi_lin.d2i(self.get_dofs('interior', i_problem=i_problem))
+        lin_form = self.assembled_forms(i_problem)[1]
+        lin_dofs = phi_lin.d2i(lin_form.aggregate_data()['udofs'][0])
+        rhs = np.zeros(u.shape)
+        rhs[lin_dofs] = b
 
         #
         # Solve linear system on interior dofs
         #
-        int_dofs = self.get_dofs('interior', i_problem=i_problem)
-        u[int_dofs] = spla.spsolve(A,b-x0)
+        if len(int_dofs)>0:
+            for i in range(u.shape[1]):
+                u[int_dofs,i] = spla.spsolve(A,rhs[int_dofs,i]-x0)
 
         #
         # Resolve Dirichlet conditions
         #
         dir_dofs, dir_vals = self.get_dirichlet(i_problem=i_problem, asdict=False)
-        u[dir_dofs] = dir_vals[:,0]
+        if len(dir_dofs)>0:
+            u[phi_lin.d2i(dir_dofs)] = dir_vals[:,[0]]
 
         # Resolve hanging nodes
         C = self.hanging_node_matrix(i_problem=i_problem)
         u += C.dot(u)
 
+        if single_vector:
+            return u[:,0]
         return u     
 
 
-- 
2.43.0


From c8a980002f6e036f0c6564195fafa59c640c9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 67/96] fix: DofHandler.has_hanging_nodes is true only if there
 are any

---
 src/fem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 98a5b3b..924062d 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -2614,7 +2614,7 @@ class DofHandler(object):
             #
             return False
 
-        elif self.__hanging_nodes == {}:
+        elif not any(self.__hanging_nodes.values()):
             #
             # 2D Mesh with no hanging nodes
             #
@@ -2628,7 +2628,7 @@ class DofHandler(object):
                 #
                 # Hanging nodes for subforest flag?
                 #
-                return subforest_flag in self.__hanging_nodes
+                return len(self.__hanging_nodes.get(subforest_flag, {})) > 0
             else:
                 #
                 # Has hanging nodes, return True
-- 
2.43.0


From afb5347c24acebbfd85a1eabce4878cd4900eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 68/96] fix: replacing the matrix of a solved LinearSystem also
 constrains the right hand side again

---
 src/solver.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/solver.py b/src/solver.py
index e5ae880..c63a3b5 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -120,16 +120,16 @@ class LinearSystem(object):
         for dof, (supp, coeffs) in hanging_nodes.items():
             self.__add_constraint(dof, supp, coeffs, 0)
         
-        # 
-        # Store Bilinear Form
-        # 
-        self.set_matrix(A)
-        
         #
         # Store Linear Form
         # 
         self.set_rhs(b)
         
+        # 
+        # Store Bilinear Form
+        # 
+        self.set_matrix(A)
+        
         #
         # Initialize constraint matrix
         # 
@@ -412,6 +412,10 @@ class LinearSystem(object):
         # Mark matrix as unfactored and unconstrained.              
         self.__A_is_factored = False
         self.__A_is_constrained = False
+        
+        # Constraints on the right hand side depend on the matrix
+        if self.rhs_is_constrained():
+            self.set_rhs(self.__b_original)
     
     
     def get_matrix(self):
-- 
2.43.0


From 998211ecce3e89f7a34c0baadb8a766f58f3bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 69/96] fix: constraining a factored matrix discards the
 factorisation

---
 src/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver.py b/src/solver.py
index c63a3b5..06f14a0 100644
--- a/src/solver.py
+++ b/src/solver.py
@@ -571,6 +571,7 @@ class LinearSystem(object):
         
         self.__A = A
         self.__A_is_constrained = True
+        self.__A_is_factored = False
         
         """
         if self.has_rhs:
-- 
2.43.0


From 8a1878b174edb7c968cf33f29c03a1d94c49289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 70/96] fix: the factors of a degenerate matrix account for the
 pivoting of the LDL' factorisation

---
 src/spd.py | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index afbd2a8..a97a26a 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -240,14 +240,14 @@ class CholeskyDecomposition(SPDMatrix):
     3. chol_mod: C is degenerate (convert to full if sparse): use modified Cholesky, whose 
         decomposition is of the form
 
-            P*(C + E)*P' = L*D*L',
+            C + E = L*D*L',
 
         where
 
             P is a permutation matrix,
-            L is the cholesky factor (P*L is lower triangular)
+            L is the cholesky factor (P*L is unit lower triangular)
             E is a perturbation matrix so that C+E is positive definite
-            D is diagonal
+            D is block diagonal and positive definite
             D0 block diagonal matrix so that C = L*D0*L'
 
     Attributes:
@@ -368,7 +368,7 @@ class CholeskyDecomposition(SPDMatrix):
                 self.set_sparsity(False)
 
             # Compute modified Cholesky 
-            # P*(C + E)*P' = L*D*L' or P*C*P' = L*D0*L'         
+            # C + E = L*D*L' or C = L*D0*L'
             L, D, P, D0 = self.modchol_ldlt(C)
 
             # 
@@ -385,13 +385,13 @@ class CholeskyDecomposition(SPDMatrix):
             
         computes a modified Cholesky factorization 
         
-            P*(A + E)*P' = L*D*L', where 
+            A + E = L*D*L', where 
         
-        P is a permutation matrix, L is unit lower triangular, and D is block
+        P is a permutation matrix, P*L is unit lower triangular, and D is block
         diagonal and positive definite with 1-by-1 and 2-by-2 
         diagonal blocks.  Thus A+E is symmetric positive definite, but E is
         not explicitly computed.  Also returned is a block diagonal D0 such
-        that P*A*P' = L*D0*L'.  If A is sufficiently positive definite then 
+        that A = L*D0*L'.  If A is sufficiently positive definite then 
         E = 0 and D = D0.  
         The algorithm sets the smallest eigenvalue of D to the tolerance
         delta, which defaults to sqrt(eps)*norm(A,'fro').
@@ -458,8 +458,9 @@ class CholeskyDecomposition(SPDMatrix):
                 temp = np.dot(U,np.dot(T,U.T))
                 DMC[k:k+2,k:k+2] = (temp + temp.T)/2  # Ensure symmetric.
                 k += 2
+        # Permutation for which P*L is unit lower triangular
         P = np.eye(n)
-        P = P[:,p]
+        P = P[p,:]
         
         #P = sp.diags([1],0,shape=(n,n), format='coo') 
         #P.row = P.row[p]
@@ -496,7 +497,7 @@ class CholeskyDecomposition(SPDMatrix):
             if verbose: 
                 print('Modified Cholesky decomposition')
                 print('Returning L, D, P, D0, where')
-                print('C = P*(C+E)*P\' = L*D*L\' and P*C*P\' = L*D0*L\'')
+                print('C+E = L*D*L\' and C = L*D0*L\'')
 
             return self.__L
         
@@ -550,12 +551,12 @@ class CholeskyDecomposition(SPDMatrix):
                 #
                 # Return C = L*D0*L'
                 # 
-                return P.T.dot(L.dot(D0.dot(L.T.dot(P))))
+                return L.dot(D0.dot(L.T))
             else:
                 #
-                # Return P*(C+E)*P' = L*D*L'
+                # Return C+E = L*D*L'
                 #   
-                return P.T.dot(L.dot(D.dot(L.T.dot(P))))
+                return L.dot(D.dot(L.T))
         
    
     
@@ -622,8 +623,7 @@ class CholeskyDecomposition(SPDMatrix):
             L, D, P, dummy = self.get_factors()
             PL = P.dot(L)
             y = linalg.solve_triangular(PL,P.dot(b),lower=True, unit_diagonal=True)
-            Dinv = sp.diags(1./np.diagonal(D))
-            z = Dinv.dot(y)
+            z = linalg.solve(D,y)
             x = linalg.solve_triangular(PL.T,z,lower=False,unit_diagonal=True)
             return P.T.dot(x)
 
@@ -683,20 +683,20 @@ class CholeskyDecomposition(SPDMatrix):
                     return L.dot(b)   
         else:
             #
-            # Degenerate matrix: 0 < C+E = P'*L*D*L'*P = W*W'
+            # Degenerate matrix: 0 < C+E = L*D*L' = W*W', W = L*sqrtD
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            sqrtD = linalg.cholesky(D, lower=True)
             if transpose:
                 #
                 # W'*b
                 # 
-                return sqrtD.dot(L.T.dot(P.dot(b)))
+                return sqrtD.T.dot(L.T.dot(b))
             else:
                 #
                 # W*b
                 # 
-                return P.T.dot(L.dot(sqrtD.dot(b))) 
+                return L.dot(sqrtD.dot(b))
         
 
     def sqrt_solve(self,b,transpose=False):
@@ -757,22 +757,20 @@ class CholeskyDecomposition(SPDMatrix):
             #
             # Degenerate matrix
             #
-            #  C+E = P'*L*sqrtD*sqrtD*L'*P = W*W'
+            #  C+E = L*D*L' = W*W', where P*W = P*L*sqrtD is lower triangular
             # 
             L, D, P, D0 = self.get_factors()
-            sqrtD = np.diag(np.sqrt(np.diag(D)))
+            PW = P.dot(L).dot(linalg.cholesky(D, lower=True))
             if transpose:
                 #
                 # Solve W' x = b
                 # 
-                return P.T.dot(linalg.solve_triangular(sqrtD.dot(L.T),b,lower=False))
-                #return sqrtD.dot(linalg.solve_triangular(L.T,P.dot(b),lower=False))
+                return P.T.dot(linalg.solve_triangular(PW.T,b,lower=False))
             else:
                 #
                 # Solve Wx = b
                 # 
-                return linalg.solve_triangular(L.dot(sqrtD),P.dot(b)) 
-                #return P.T.dot(linalg.solve_triangular(L,sqrtD.dot(b),lower=True))
+                return linalg.solve_triangular(PW,P.dot(b),lower=True)
         
         """
         if self.chol_type() == 'sparse':
-- 
2.43.0


From 1a1309a558b2a1d2f7c03be29f1c69be82018040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 71/96] fix: dot, reconstruct and sqrt_solve of a generalised
 eigendecomposition use the mass matrix

---
 src/spd.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index a97a26a..ad5118f 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -1005,12 +1005,13 @@ class EigenDecomposition(SPDMatrix):
         Reconstruct the matrix from its eigendecomposition
         """
         d, V = self.get_factors()
-        C = V.dot(np.diag(d).dot(V.T))
         if self.has_mass_matrix():
+            # V'*M*V = I, so that C = (M*V)*D*(M*V)'
             M = self.get_mass_matrix()
-            return C, M
+            MV = M.dot(V)
+            return MV.dot(np.diag(d).dot(MV.T)), M
         else:
-            return C
+            return V.dot(np.diag(d).dot(V.T))
     
 
     def dot(self,b):
@@ -1018,6 +1019,9 @@ class EigenDecomposition(SPDMatrix):
         Compute the matrix vector product C*b
         """
         d, V = self.get_factors()
+        if self.has_mass_matrix():
+            # V'*M*V = I, so that C = (M*V)*D*(M*V)'
+            V = self.get_mass_matrix().dot(V)
         return V.dot(np.diag(d).dot(V.T.dot(b)))
 
 
@@ -1067,7 +1071,8 @@ class EigenDecomposition(SPDMatrix):
         """
         Compute Sqrt(C)*x
         
-        Compute Rx (or R'x), where C = RR'
+        Compute Rx (or R'x), where R = V*sqrt(D), i.e. C = RR', or, for the 
+        generalized eigendecomposition, M^{-1}*C*M^{-1} = RR'.
         
         Inputs:
         
@@ -1093,8 +1098,9 @@ class EigenDecomposition(SPDMatrix):
         """
         Solve Sqrt(S)*x = b for x
        
-        Solve the system Rx=b (or R'x=b if transpose) where R = V*sqrt(D) in 
-        the decomposition M^{-1}K = VDV' = RR' 
+        Solve the system Rx=b (or R'x=b if transpose) where R = V*sqrt(D), i.e.
+        C = RR', or, for the generalized eigendecomposition, 
+        M^{-1}*C*M^{-1} = RR'. 
         
         Inputs:
         
@@ -1105,6 +1111,9 @@ class EigenDecomposition(SPDMatrix):
         """
         d, V = self.get_factors()
         sqrtD_inv = diagonal_pseudo_inverse(np.sqrt(d),eps=eps)
+        if self.has_mass_matrix():
+            # V'*M*V = I, so that V^{-1} = (M*V)'
+            V = self.get_mass_matrix().dot(V)
         if transpose:
             #
             # Solve sqrtD*V'x = b
-- 
2.43.0


From 7a19f542d918a40f47e1f56d959d5a4c41a17381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 72/96] fix: eigendecomposition of sparse matrices and with
 sparse mass matrices

---
 src/spd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spd.py b/src/spd.py
index ad5118f..2f16cf6 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -894,6 +894,8 @@ class EigenDecomposition(SPDMatrix):
             # Default lower bound
             # 
             C = self.get_matrix()
+            if self.is_sparse():
+                C = C.toarray()
             eps = np.finfo(float).eps
             delta = np.sqrt(eps)*linalg.norm(C, 'fro')
 
@@ -947,6 +949,8 @@ class EigenDecomposition(SPDMatrix):
             #
             # Compute the generalized eigendecomposition
             # 
+            if sp.issparse(M):
+                M = M.toarray()
             d, V = linalg.eigh(C,M)
         else:
             #
-- 
2.43.0


From 95ffd1221050dee141cf479bc30a43111cd21469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 73/96] fix: rank and degeneracy of an SPDMatrix use existing
 methods

---
 src/spd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spd.py b/src/spd.py
index 2f16cf6..95aba48 100644
--- a/src/spd.py
+++ b/src/spd.py
@@ -113,7 +113,7 @@ class SPDMatrix(object):
         """
         assert isinstance(rank, int), 'Input "rank" should be an integer.'
         assert rank >= 0, 'Input "rank" should be non-negative.'
-        assert rank <= self.size(), 'Input "rank" should be less than or equal to the size of the matrix.'
+        assert rank <= self.get_size(), 'Input "rank" should be less than or equal to the size of the matrix.'
         self.__rank = rank
 
 
@@ -163,7 +163,7 @@ class SPDMatrix(object):
         - bool
             True if the matrix is degenerate, False otherwise.
         """
-        return self.rank() < self.size()
+        return self.get_rank() < self.get_size()
 
 
     def decompose(self):
-- 
2.43.0


From b135f41eb758c26d15e8b4724c82e76002f4ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 74/96] fix: periodic distance of points more than a period
 apart

---
 src/gmrf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 0461cde..c18e50d 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -208,7 +208,8 @@ def distance(x, y, M=None, periodic=False, box=None):
             
             x_min, x_max = box
             w  = x_max - x_min
-            dx = np.min(np.array([np.abs(x-y), w - np.abs(x-y)]),axis=0)
+            dx = np.mod(np.abs(x-y), w)
+            dx = np.min(np.array([dx, w - dx]),axis=0)
         else:
             dx = np.abs(x-y)
         # "Anisotropy"    
@@ -229,6 +230,8 @@ def distance(x, y, M=None, periodic=False, box=None):
             assert box is not None, \
             'If periodic, bounding box must be specified.'
             x_min, x_max, y_min, y_max = box
+            dx = np.mod(dx, x_max-x_min)
+            dy = np.mod(dy, y_max-y_min)
             dx = np.min(np.array([dx,(x_max-x_min)-dx]),axis=0)
             dy = np.min(np.array([dy,(y_max-y_min)-dy]),axis=0)
         
-- 
2.43.0


From b41b77ebcafbdc1008983b6683b20bcc5e45a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 75/96] fix: anisotropic distance keeps the signs of the
 coordinate differences

---
 src/gmrf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index c18e50d..6a4d62f 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -224,11 +224,12 @@ def distance(x, y, M=None, periodic=False, box=None):
         #
         # 2D
         #   
-        dx = np.abs(x[:,0]-y[:,0])
-        dy = np.abs(x[:,1]-y[:,1])
+        dx = x[:,0]-y[:,0]
+        dy = x[:,1]-y[:,1]
         if periodic:
             assert box is not None, \
             'If periodic, bounding box must be specified.'
+            dx, dy = np.abs(dx), np.abs(dy)
             x_min, x_max, y_min, y_max = box
             dx = np.mod(dx, x_max-x_min)
             dy = np.mod(dy, y_max-y_min)
-- 
2.43.0


From 1f6cb7ac30ebafe8b6ed438115a82fc4b8b1c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 76/96] fix: one-dimensional anisotropic linear covariance
 includes the variance

---
 src/gmrf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 6a4d62f..30c1c9f 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -291,11 +291,10 @@ def linear(x,y,sgm=1, M=None):
         # 1D
         # 
         if M is None:
-            sgm**2 + x*y
             return sgm**2 + x*y
         else:
             assert isinstance(M,Real), 'Input "M" should be a scalar.'
-            return x*M*y
+            return sgm**2 + x*M*y
         
     elif dim==2:
         #
-- 
2.43.0


From e7c3032df08fe9e46aeb391ab5630664336cabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 77/96] fix: Matern covariance at distance zero is the variance

---
 src/gmrf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 30c1c9f..159fce2 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -357,9 +357,9 @@ def matern(x, y, sgm, nu, l, M=None, periodic=False, box=None):
     K = sgm**2*2**(1-nu)/gamma(nu)*(np.sqrt(2*nu)*d/l)**nu*\
         kv(nu,np.sqrt(2*nu)*d/l)
     #
-    # Modified Bessel function undefined at d=0, covariance should be 1
+    # Modified Bessel function undefined at d=0, covariance should be sgm^2
     #
-    K[np.isnan(K)] = 1
+    K[np.isnan(K)] = sgm**2
     return K
     
     
-- 
2.43.0


From d66c419316325e1e27dcf9ce1b84a3146844899e Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 78/96] fix: Karhunen-Loeve samples use given white noise of
 the terms in the range

---
 src/gmrf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 159fce2..461dd08 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1179,7 +1179,7 @@ class GaussianField(object):
 
             n_samples: int, number of samples to generate.
 
-            z: (n,n_samples) random vector ~N(0,I).
+            z: (i_max-i_min+1,n_samples) random vector ~N(0,I).
 
             mode: str, expansion mode ('covariance', 'precision', 'canonical')
 
@@ -1217,14 +1217,16 @@ class GaussianField(object):
             'Indices should be within the range of the covariance matrix.'
         
         # Sample 
+        n_terms = i_max-i_min+1
         if z is None:
-            z = np.random.normal(size=(self.size(), n_samples))
+            z = np.random.normal(size=(n_terms, n_samples))
         else:
-            assert z.shape[0] == i_max-i_min+1, \
-                'Input "z" should have the same number of rows as the random vector.'
+            assert z.shape[0] == n_terms, \
+                'Input "z" should have one row for each term in the range.'
+            n_samples = z.shape[1]
 
         # Compute samples
-        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z[i_min:i_max+1,:])) + np.tile(mean,(1,n_samples))
+        return V[:,i_min:i_max+1].dot(np.diag(np.sqrt(d[i_min:i_max+1])).dot(z)) + np.tile(mean,(1,n_samples))
     
 
 
-- 
2.43.0


From ff0d83be3fe2c80de15504071b1be858e8f4278a Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 79/96] fix: truncate a Gaussian field with the existing
 eigendecomposition

---
 src/gmrf.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 461dd08..14a227b 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1258,19 +1258,18 @@ class GaussianField(object):
         mean = self.mean()
         
         # Truncate the eigen-decomposition
-        d, V = self.covariance().get_eig_decomp()
+        C = self.covariance()
+        if not isinstance(C, EigenDecomposition):
+            C = EigenDecomposition(C.get_matrix())
+        d, V = C.get_factors()
         dk = d[:level]
         Vk = V[:,:level]
         
         # Define truncated Covariance matrix
-        K = SPDMatrix(Vk.dot(np.diag(dk)).dot(Vk.T))
-        K.set_eig_decomp(dk, Vk)
+        K = EigenDecomposition(Vk.dot(np.diag(dk)).dot(Vk.T), delta=0)
         
         # Return Gaussian field with truncated covariance
-        tht = GaussianField(self.size(), mean=mean, K=K)
-        tht.set_support(Vk)
-        
-        return tht
+        return GaussianField(self.size(), mean=mean, covariance=K)
         
     
     
-- 
2.43.0


From bbc20db9f4f503463b0dca6e6137155091c88c88 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 80/96] fix: mean and canonical mean of a Gaussian field
 determine each other

---
 src/gmrf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 14a227b..8b7b44d 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -791,6 +791,10 @@ class GaussianField(object):
         # Store support
         self.set_support(support)
 
+        # The canonical mean determines the mean if it is not given
+        if mean is None and canonical_mean is not None:
+            self.compute_mean()
+
 
     def set_mean(self, mean):
         """
@@ -1131,9 +1135,9 @@ class GaussianField(object):
         """
         Returns the vector of central tendency in canonical form
         """
-        if self.__b is None:
-            self.set_b()
-        return self.__b
+        if self.get_canonical_mean() is None:
+            self.compute_canonical_mean()
+        return self.get_canonical_mean()
 
 
     def covariance(self):
-- 
2.43.0


From 7474ce3ebda649a01fdbaa4c449ab8381fffb4d5 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 81/96] fix: samples use the requested column of the mean

---
 src/gmrf.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index 8b7b44d..c33ce8b 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1356,14 +1356,14 @@ class GaussianField(object):
             # Return Lz + mean
             #
             Lz = C.sqrt_dot(z,transpose=False)
-            return  Lz + np.tile(self.get_mean(),(1,n_samples))
+            return Lz + np.tile(self.mean(col=m_col),(1,n_samples))
     
         elif mode=='precision':
             #
             # Return L^{-T} z + mean
             #
             Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(self.get_mean(),(1,n_samples))
+            return Lz + np.tile(self.mean(col=m_col),(1,n_samples))
                                    
         elif mode=='canonical':
             #
@@ -1371,12 +1371,10 @@ class GaussianField(object):
             #
 
             # Compute the mean from the canonical mean
-            mean = self.get_mean()
-            if mean is None:
+            if self.get_mean() is None:
                 self.compute_mean()
-                mean = self.get_mean()
             Lz = C.sqrt_solve(z,transpose=True)
-            return Lz + np.tile(mean,(1,n_samples))
+            return Lz + np.tile(self.mean(col=m_col),(1,n_samples))
 
         else:
             raise Exception('Input "mode" not recognized. '+\
-- 
2.43.0


From f11177cc2d60476187c8aa38c6dcef1e56a5e216 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:14:01 +0000
Subject: [PATCH 82/96] fix: Gaussian fields on a restricted support can be
 sampled and updated

---
 src/gmrf.py | 67 +++++++++++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index c33ce8b..f3c4eab 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -782,15 +782,22 @@ class GaussianField(object):
         # Store canonical mean
         self.set_canonical_mean(canonical_mean)
 
+        # Store support
+        self.set_support(support)
+
+        # Covariance and precision are reduced to the support
+        if support is not None:
+            if covariance is not None:
+                covariance = support.T.dot(covariance.dot(support))
+            if precision is not None:
+                precision = support.T.dot(precision.dot(support))
+
         # Store covariance
         self.set_covariance(covariance)
 
         # Store precision
         self.set_precision(precision)
 
-        # Store support
-        self.set_support(support)
-
         # The canonical mean determines the mean if it is not given
         if mean is None and canonical_mean is not None:
             self.compute_mean()
@@ -979,21 +986,11 @@ class GaussianField(object):
         # Store as SPDMatrix
         # 
         if mode=='covariance':
-            if isinstance(K, SPDMatrix):
-                covariance = K
-            else:
-                covariance = SPDMatrix(K)
-            precision = None
+            self.set_covariance(K)
+            self.set_precision(None)
         elif mode=='precision':
-            if isinstance(K,SPDMatrix):
-                precision = K
-            else:
-                precision = SPDMatrix(K)
-            covariance = None
-        
-        # Store
-        self.__precision = precision
-        self.__covariance = covariance
+            self.set_precision(K)
+            self.set_covariance(None)
         
  
     def set_support(self, support):
@@ -1043,33 +1040,28 @@ class GaussianField(object):
             # 
             cov = self.covariance()
             assert cov is not None, 'No covariance specified.'
-            #if not cov.has_eig_decomp():
-            #    cov.compute_eig_decomp(delta=0)
-            d, V = cov.get_factors()
+            d, V = EigenDecomposition(cov.get_matrix(), delta=0).get_factors()
         elif mode=='precision':
             #
             # Use (reduced) precision matrix
             # 
             prec = self.precision()
             assert prec is not None, 'No precision specified'
-            if not prec.has_eig_decomp():
-                prec.compute_eig_decomp(delta=0)
-            d, V = prec.compute_eig_decomp()
+            d, V = EigenDecomposition(prec.get_matrix(), delta=0).get_factors()
         else:
             raise Exception('Input "mode" should be "covariance" or "precision"')
         
         # Determine non-zero eigenvalues 
         i_support = np.abs(d)>tol  
-        m = np.sum(i_support)
         
         # Compute new (diagonal) covariance/precision on reduced subspace
-        D = sp.spdiags(d[i_support], 0, m, m) 
+        D = EigenDecomposition(np.diag(d[i_support]), delta=0)
         
         # Update precision/covariance matrix
         if mode=='covariance':
-            self.__covariance = SPDMatrix(D)
+            self.__covariance = D
         elif mode=='precision':
-            self.__precision = SPDMatrix(D)
+            self.__precision = D
         
         # Define new set of support vectors
         W = self.support()
@@ -1098,6 +1090,21 @@ class GaussianField(object):
             return b - Pb 
         
         
+    def __extend(self, x):
+        """
+        Extend coordinates with respect to the basis of the support (if the
+        covariance/precision is reduced to it) to the entire random vector 
+        
+        Inputs:
+        
+            x: (k, n_samples) array, k is the size of the covariance/precision
+        """
+        V = self.support()
+        if V is None or x.shape[0]!=V.shape[1]:
+            return x
+        return V.dot(x)
+        
+        
     def size(self):
         """
         Returns the size of the random vector
@@ -1355,14 +1362,14 @@ class GaussianField(object):
             #
             # Return Lz + mean
             #
-            Lz = C.sqrt_dot(z,transpose=False)
+            Lz = self.__extend(C.sqrt_dot(z,transpose=False))
             return Lz + np.tile(self.mean(col=m_col),(1,n_samples))
     
         elif mode=='precision':
             #
             # Return L^{-T} z + mean
             #
-            Lz = C.sqrt_solve(z,transpose=True)
+            Lz = self.__extend(C.sqrt_solve(z,transpose=True))
             return Lz + np.tile(self.mean(col=m_col),(1,n_samples))
                                    
         elif mode=='canonical':
@@ -1373,7 +1380,7 @@ class GaussianField(object):
             # Compute the mean from the canonical mean
             if self.get_mean() is None:
                 self.compute_mean()
-            Lz = C.sqrt_solve(z,transpose=True)
+            Lz = self.__extend(C.sqrt_solve(z,transpose=True))
             return Lz + np.tile(self.mean(col=m_col),(1,n_samples))
 
         else:
-- 
2.43.0


From e5cd3ca89e3bb8fcb690df0e7f5eee6ab228f3fe Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 83/96] fix: conditioning uses the covariance of the samples,
 in both modes

---
 src/gmrf.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index f3c4eab..ed7ea2c 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1414,10 +1414,19 @@ class GaussianField(object):
         if mode=='covariance':
             K = self.covariance()
             assert K is not None, 'No covariance specified.'
-        elif mode=='precision':
+        elif mode=='precision' or mode=='canonical':
             Q = self.precision()
             assert Q is not None, 'No precision specified.'
         
+        def cov_dot(b):
+            #
+            # Multiply b by the covariance RR' of the samples
+            # 
+            if mode=='covariance':
+                return K.sqrt_dot(K.sqrt_dot(b, transpose=True))
+            else:
+                return Q.sqrt_solve(Q.sqrt_solve(b), transpose=True)
+            
         # Mean
         mu = self.mean()  
                 
@@ -1470,17 +1479,8 @@ class GaussianField(object):
             #
             # Compute K*A.T and A*K*A.T
             #  
-            print('Computing KAT and AKAT') 
-            if mode=='covariance':    
-                KAT  = K.dot(Ak.T)
-                print('Type',type(KAT))
-                print('Sparse?',sp.issparse(KAT))
-                print('KAT',KAT.shape)
-                print('Ak',Ak.shape)
-                AKAT = Ak.dot(KAT)
-            elif mode=='precision':
-                KAT = Q.solve(Ak.T)
-                AKAT = Ak.dot(KAT)
+            KAT  = cov_dot(Ak.T)
+            AKAT = Ak.dot(KAT)
 
             
             if output=='sample':
@@ -1489,19 +1489,15 @@ class GaussianField(object):
                 # 
                 
                 # Sample unconditioned field 
-                print('Sampling from unconditioned field')
                 Xs = self.sample(z=z, n_samples=n_samples, mode=mode)            
                 
                 # Compute residual
-                print('Computing residual')
                 r = A.dot(Xs)-e
                 
                 # Conditional covariance 
-                print('Computing conditional covariance')
                 U = linalg.solve(AKAT,r)
                 
                 # Apply correction 
-                print('Applying correction')
                 X = Xs - Vk.dot(KAT.dot(U))
                 
                 return X
@@ -1517,13 +1513,12 @@ class GaussianField(object):
                 
                 # Conditional covariance
                 U = linalg.solve(AKAT, KAT.T)
-                K_cnd = K.get_matrix() - KAT.dot(U)
+                K_cnd = cov_dot(np.identity(KAT.shape[0])) - KAT.dot(U)
                 K_cnd = Vk.dot(K_cnd.dot(Vk.T))
                 
-                print('K_cnd', K_cnd.shape)
-                print('K_cnd', K_cnd[0:10,0:10])
                 # Define random field 
-                X = GaussianField(self.size(), mean=mu_cnd, covariance=K_cnd)
+                X = GaussianField(self.size(), mean=mu_cnd, 
+                                  covariance=EigenDecomposition(K_cnd, delta=0))
                 X.update_support()
                 
                 return X
-- 
2.43.0


From 82e58565250d3dbe28f55907196f89ead1093305 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 84/96] fix: conditioning on noisy observations

---
 src/gmrf.py | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index ed7ea2c..d8e2452 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1531,15 +1531,28 @@ class GaussianField(object):
             # Soft constraint
             # 
             
+            if sp.issparse(A):
+                A = A.toarray()
+            
+            # Observation noise
+            if isinstance(Ko, Real):
+                Ko = Ko*np.identity(A.shape[0])
+            elif isinstance(Ko, SPDMatrix):
+                Ko = Ko.get_matrix()
+            if sp.issparse(Ko):
+                Ko = Ko.toarray()
+            
+            # Restrict to support
+            if Vk is not None:
+                Ak = A.dot(Vk)
+            else:
+                Ak = A
+                
             #
             # Compute K*A.T and A*K*A.T
             #   
-            if mode=='covariance':    
-                KAT  = K.dot(A.T)
-                AKAT = A.dot(KAT)
-            elif mode=='precision':
-                KAT = Q.solve(A.T)
-                AKAT = A.dot(KAT)
+            KAT  = cov_dot(Ak.T)
+            AKAT = Ak.dot(KAT)
                 
             if output=='sample':
                 #
@@ -1547,12 +1560,11 @@ class GaussianField(object):
                 #
 
                 # Sample unconditioned field 
-                Xs = self.sample(z=z, n_samples=n_samples, mode=mode, 
-                                 decomposition=decomposition)
+                Xs = self.sample(z=z, n_samples=n_samples, mode=mode)
                 
                 # Sample e|Ax
-                eps = GaussianField(A.shape[0], mean=e, K=Ko, mode='covariance')
-                e = eps.sample(z=z, n_samples=n_samples)
+                eps = GaussianField(A.shape[0], covariance=Ko)
+                e = e + eps.sample(n_samples=Xs.shape[1])
                 
                 # Compute residual
                 r = A.dot(Xs)-e
@@ -1561,20 +1573,23 @@ class GaussianField(object):
                 U = linalg.solve(Ko+AKAT,r)
                 
                 # Apply correction 
-                X = Xs - KAT.dot(U)
+                X = Xs - self.__extend(KAT.dot(U))
                 
                 return X
             
             elif output=='field':
                 # Conditional mean
-                mu_cnd = mu - A.T.dot(linalg.solve(Ko,e))
+                r = A.dot(mu)-e
+                mu_cnd = mu - self.__extend(KAT.dot(linalg.solve(Ko+AKAT,r)))
                 
-                # Conditional precision
-                Q_cnd = Q + A.T.dot(linalg.solve(Ko,A))
+                # Conditional covariance (inverse of Q + A^T Ko\A)
+                U = linalg.solve(Ko+AKAT, KAT.T)
+                K_cnd = cov_dot(np.identity(KAT.shape[0])) - KAT.dot(U)
                 
                 # Random field
-                X = GaussianField(self.size(), mean=mu_cnd, K=Q_cnd, 
-                                  mode='precision')
+                X = GaussianField(self.size(), mean=mu_cnd)
+                X.set_support(Vk)
+                X.set_covariance(EigenDecomposition(K_cnd, delta=0))
                 
                 return X
         """    
-- 
2.43.0


From 92ec4bc64b6bdba723ed320b6019e79d4bd233b1 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 02:15:39 +0000
Subject: [PATCH 85/96] fix: Karhunen-Loeve expansion of Gaussian fields on a
 restricted support

---
 src/gmrf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gmrf.py b/src/gmrf.py
index d8e2452..f4a93bd 100644
--- a/src/gmrf.py
+++ b/src/gmrf.py
@@ -1217,14 +1217,14 @@ class GaussianField(object):
         
         # Extract the eigendecomposition
         d = C.get_eigenvalues()
-        V = C.get_eigenvectors()
+        V = self.__extend(C.get_eigenvectors())
 
         # Determine eigenvalue range
         if i_max is None:
-            i_max = self.size()-1
+            i_max = C.get_size()-1
         assert i_max >= i_min, 'Index range should be non-empty.'
         
-        assert i_min >= 0 and i_max < self.size(), \
+        assert i_min >= 0 and i_max < C.get_size(), \
             'Indices should be within the range of the covariance matrix.'
         
         # Sample 
@@ -1274,7 +1274,7 @@ class GaussianField(object):
             C = EigenDecomposition(C.get_matrix())
         d, V = C.get_factors()
         dk = d[:level]
-        Vk = V[:,:level]
+        Vk = self.__extend(V)[:,:level]
         
         # Define truncated Covariance matrix
         K = EigenDecomposition(Vk.dot(np.diag(dk)).dot(Vk.T), delta=0)
-- 
2.43.0


From 07a13d1c113a38b05344fd700694f3665156af4f Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 86/96] fix: inverse reference map of general quadrilaterals
 iterates until it has converged

---
 src/mesh.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 7a9ff9c..e4ef194 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3945,8 +3945,9 @@ class QuadCell(Cell, Tree):
                 #
                 # Initialize points in reference domain
                 s, t = 0.5*np.ones(n), 0.5*np.ones(n)
-                n_iterations = 5
+                n_iterations = 50
                 for dummy in range(n_iterations):
+                    s_old, t_old = s.copy(), t.copy()
                     #
                     # Compute residual
                     #
@@ -3977,6 +3978,13 @@ class QuadCell(Cell, Tree):
                     s = np.minimum(np.maximum(s,0),1)
                     t = np.minimum(np.maximum(t,0),1)
 
+                    #
+                    # Stop when the iteration has converged
+                    #
+                    if np.all(np.abs(s-s_old) < 1e-14) and \
+                        np.all(np.abs(t-t_old) < 1e-14):
+                        break
+
                 x_trg = np.array([s,t]).T
 
         #
-- 
2.43.0


From baa6f86847f2404899129d1d73df16d866ec331b Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 87/96] fix: inverse reference map of half-edges and its
 Jacobian

---
 src/mesh.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index e4ef194..ef2c562 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2611,18 +2611,15 @@ class HalfEdge(Tree):
         x0, y0 = self.base().coordinates()
         x1, y1 = self.head().coordinates()
 
+        # The inverse map uses the coordinate that varies most along the edge
+        along_x = abs(x1-x0) >= abs(y1-y0)
+
         if mapsto == 'physical':
             x_trg = [(x0 + (x1-x0)*xi, y0 + (y1-y0)*xi) for xi in x_in]
         elif mapsto == 'reference':
-            if not np.isclose(x0, x1):
-                #
-                # Not a vertical line
-                #
+            if along_x:
                 x_trg = list((x_in[:,0]-x0)/(x1-x0))
-            elif not np.isclose(y0, y1):
-                #
-                # Not a horizontal line
-                #
+            else:
                 x_trg = list((x_in[:,1]-y0)/(y1-y0))
 
         #
@@ -2643,8 +2640,9 @@ class HalfEdge(Tree):
             if jac_p2r:
                 #
                 # Jacobian of mapping from physical to reference region
-                # TODO: Shouldn't this also be a list?
-                mg['jac_p2r'] = np.array([[1/(x1-x0), 1/(y1-y0)]])
+                #
+                jac = [1/(x1-x0), 0.] if along_x else [0., 1/(y1-y0)]
+                mg['jac_p2r'] = [np.array([jac])]*n
             if hess_r2p:
                 #
                 # Hessian of mapping from reference to physical region
-- 
2.43.0


From 21ffeb4b7e98a619e5617e2f96c8dec478a1f2f3 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 88/96] fix: depth of a flagged subtree

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index ef2c562..2fc9eff 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -442,7 +442,7 @@ class Tree(object):
         depth = self.get_depth()
         if self.has_children():
             for child in self.get_children(flag=flag):
-                d = child.tree_depth()
+                d = child.tree_depth(flag=flag)
                 if d > depth:
                     depth = d
         return depth
-- 
2.43.0


From cbaed184edec1409e58b2129998f18ada9269a00 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 89/96] fix: node addresses when trees enter or leave a forest

---
 src/mesh.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mesh.py b/src/mesh.py
index 2fc9eff..c0b4255 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -472,6 +472,18 @@ class Tree(object):
         self._node_address = [position]
         self._in_forest = True
         self._forest = forest
+        self._update_addresses()
+
+
+    def _update_addresses(self):
+        """
+        Recompute the addresses of all descendants from one's own
+        """
+        for child in getattr(self, '_children', []):
+            if child is not None:
+                child._node_address = \
+                    self._node_address + [child.get_node_position()]
+                child._update_addresses()
 
 
     def remove_from_forest(self):
@@ -482,6 +494,7 @@ class Tree(object):
         self._node_position = None
         self._node_address = []
         self._forest = None
+        self._update_addresses()
 
 
     def is_regular(self):
@@ -1417,6 +1430,8 @@ class Forest(object):
         tree = self.get_child(position)
         tree.remove_from_forest()
         del self._trees[position]
+        for i in range(len(self._trees)):
+            self._trees[i].plant_in_forest(self, i)
 
 
     def record(self, flag):
-- 
2.43.0


From 07f9d762c48c3969e55253cd76d4b92bcad53461 Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 90/96] fix: position of a sub-edge on vertical half-edges

---
 src/mesh.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index c0b4255..57c1fc5 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -2535,17 +2535,14 @@ class HalfEdge(Tree):
             'Input "subedge" not contained within HalfEdge.'
         
         #
-        # It suffices to work with x-coordinates
+        # Position of the sub-edge's base along the HalfEdge
         #  
-        # Get x-coordinates of reference HalfEdge 
-        x0_ref, dummy = self.base().coordinates()
-        x1_ref, dummy = self.head().coordinates()
-        
-        # Get x-coordinates of sub-edge base  
-        x0_sub, dummy = v0.coordinates()
+        x0, y0 = self.base().coordinates()
+        x0_sub, y0_sub = v0.coordinates()
+        vx, vy = self.to_vector()
         
         # Compute position
-        pos = (x0_sub-x0_ref)/(x1_ref-x0_ref)
+        pos = ((x0_sub-x0)*vx + (y0_sub-y0)*vy)/(vx**2 + vy**2)
         
         # Get relative length
         width = subedge.length()/self.length() 
-- 
2.43.0


From 64077a96efefa02df6cfab23fb1611ad09893cbe Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 91/96] fix: position of a quadrilateral in itself

---
 src/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.py b/src/mesh.py
index 57c1fc5..dff69a5 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3768,7 +3768,7 @@ class QuadCell(Cell, Tree):
                 rel_position += 2**(-(level+1))*sign[i]
         
         # Compute the width of the reference cell
-        width = 2**(-(level+1))
+        width = 2**(-len(rel_address))
         
         # Return result
         return rel_position, width
-- 
2.43.0


From 22ddfd92065b2e370cad268d90e0dd618957d4ba Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 92/96] fix: basis functions at physical points and their
 derivatives

---
 src/fem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fem.py b/src/fem.py
index 924062d..c1a5763 100644
--- a/src/fem.py
+++ b/src/fem.py
@@ -1174,11 +1174,15 @@ class Basis():
             #
             # Points lie in physical cell -> first map them to the reference
             # 
-            x = cell.reference_map(x)
+            x, mg = e_cell.reference_map(x, mapsto='reference', 
+                                         jac_p2r=True, hess_p2r=True)
+        else:
+            dummy, mg = e_cell.reference_map(x, jac_p2r=True, hess_p2r=True)
         #
         # Evaluate the Basis function at the given reference points
         #
-        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell)
+        phi = element.shape(x, derivatives=self.derivative(), cell=e_cell,
+                            jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'])
         return phi
 
 
-- 
2.43.0


From 75d2a14629dab65a75d278d337c2074af0e6c2ec Mon Sep 17 00:00:00 2001
From: x <a@b.c>
Date: Fri, 20 Nov 2026 04:22:06 +0000
Subject: [PATCH 93/96] fix: modify the data of all dofs

---
 src/function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/function.py b/src/function.py
index 4a5cf68..ce7d50a 100644
--- a/src/function.py
+++ b/src/function.py
@@ -1737,6 +1737,8 @@ class Nodal(Map):
             # Turn into 1d array
             data = data.ravel()
             
+        if dofs is None:
+            dofs = self.basis().dofs()
         idx = self.basis().d2i(dofs)
         self.__data[idx,i_sample] = data
 
-- 
2.43.0


From 606ac55e68e4b8283974af787c797fb58f025cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:35 +0000
Subject: [PATCH 94/96] fix: make_periodic compares coordinates relative to the
 size of the box

Boxes far from the origin raised an AssertionError, because the default
tolerance of np.isclose is relative to the coordinates themselves.
---
 src/mesh.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index dff69a5..906e861 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -6436,6 +6436,11 @@ class DCEL(object):
             # In 2D, must align vertices on both side of the box
             #
             x_min, x_max, y_min, y_max = box
+
+            # Coordinates are compared relative to the size of the box
+            x_tol = 1e-6*abs(x_max-x_min)
+            y_tol = 1e-6*abs(y_max-y_min)
+
             if 0 in coordinates:
                 #
                 # Make periodic in the x-direction
@@ -6451,13 +6456,13 @@ class DCEL(object):
                         x_base, y_base = self.points['coordinates'][i_head]
                         x_head, y_head = self.points['coordinates'][i_base]
 
-                        if np.isclose(x_base,x_max) and np.isclose(x_head,x_max):
+                        if np.isclose(x_base,x_max, rtol=0, atol=x_tol) and np.isclose(x_head,x_max, rtol=0, atol=x_tol):
                             #
                             # If x-values are near x_max, it's on the right
                             #
                             right_hes.append((he, y_base, y_head))
 
-                        elif np.isclose(x_base,x_min) and np.isclose(x_head,x_min):
+                        elif np.isclose(x_base,x_min, rtol=0, atol=x_tol) and np.isclose(x_head,x_min, rtol=0, atol=x_tol):
                             #
                             # If x-values are near x_min, it's on the left
                             #
@@ -6478,7 +6483,7 @@ class DCEL(object):
                         # corresponding one on the right.
                         #
                         r_he, r_ybase, r_yhead = right_hes[ir]
-                        if np.isclose(l_ybase, r_yhead) and np.isclose(l_yhead, r_ybase):
+                        if np.isclose(l_ybase, r_yhead, rtol=0, atol=y_tol) and np.isclose(l_yhead, r_ybase, rtol=0, atol=y_tol):
                             self.half_edges['twin'][l_he] = r_he
                             self.half_edges['twin'][r_he] = l_he
                             del right_hes[ir]
@@ -6503,13 +6508,13 @@ class DCEL(object):
                         x_base, y_base = self.points['coordinates'][i_head]
                         x_head, y_head = self.points['coordinates'][i_base]
 
-                        if np.isclose(y_base,y_max) and np.isclose(y_head,y_max):
+                        if np.isclose(y_base,y_max, rtol=0, atol=y_tol) and np.isclose(y_head,y_max, rtol=0, atol=y_tol):
                             #
                             # If y-values are near y_max, it's on the top
                             #
                             top_hes.append((he, x_base, x_head))
 
-                        elif np.isclose(y_base,y_min) and np.isclose(y_head,y_min):
+                        elif np.isclose(y_base,y_min, rtol=0, atol=y_tol) and np.isclose(y_head,y_min, rtol=0, atol=y_tol):
                             #
                             # If y-values are near y_min, it's on the bottom
                             #
@@ -6525,7 +6530,7 @@ class DCEL(object):
                         # corresponding one on the right.
                         #
                         t_he, t_xbase, t_xhead = top_hes[it]
-                        if np.isclose(t_xbase, b_xhead) and np.isclose(t_xhead, b_xbase):
+                        if np.isclose(t_xbase, b_xhead, rtol=0, atol=x_tol) and np.isclose(t_xhead, b_xbase, rtol=0, atol=x_tol):
                             self.half_edges['twin'][b_he] = t_he
                             self.half_edges['twin'][t_he] = b_he
                             del top_hes[it]
-- 
2.43.0


From 95e2ea19ec0ab5dfdebc62eb7eb4ab4f0892166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:35 +0000
Subject: [PATCH 95/96] fix: Assembler.n_samples accepts a deterministic form
 before a sampled one

A form with one sample listed before a form with several raised
'Inconsistent sample sizes in kernels', although the other order worked.
---
 src/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler.py b/src/assembler.py
index 1237d5e..168571a 100644
--- a/src/assembler.py
+++ b/src/assembler.py
@@ -3150,7 +3150,7 @@ class Assembler(object):
                     #
                     # Sampling in effect
                     #
-                    if n_samples is None:
+                    if n_samples is None or n_samples == 1:
                         #
                         # New trivial sample size
                         #
-- 
2.43.0


From c2ce399c3e891d5b44154c6f99c08bbe4225bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:18 +0000
Subject: [PATCH 96/96] fix: removed cells are no longer found as neighbors

Half-edges are shared and outlive the cells of a tree. After coarsening they still
referred to the removed cells, which were then returned as neighbors: a balanced mesh
was not recognized, balancing split cells needlessly and hanging nodes could not be
set. Half-edges now let go of a cell that is removed.
---
 src/mesh.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/mesh.py b/src/mesh.py
index 906e861..c598d14 100644
--- a/src/mesh.py
+++ b/src/mesh.py
@@ -3291,6 +3291,21 @@ class Cell(Tree):
         self.check_winding_order()
 
 
+    def remove(self):
+        """
+        Remove cell from its tree
+
+        Note: Half-edges are not deleted with the cell, since they may be shared
+            with later cells. They simply no longer belong to the removed cell
+            (or its descendants), so that it is not found as a neighbor.
+        """
+        Tree.remove(self)
+        for cell in self.traverse():
+            for half_edge in cell.get_half_edges():
+                if half_edge.cell() == cell:
+                    half_edge.assign_cell(None)
+
+
     def n_half_edges(self):
         """
         Return the number of half_edges
@@ -3699,7 +3714,8 @@ class QuadCell(Cell, Tree):
         #
         for half_edge in self.get_half_edges():
             for he_child in half_edge.get_children():
-                if he_child.is_periodic() and he_child.twin() is not None:
+                if he_child.is_periodic() and he_child.twin() is not None \
+                        and he_child.twin().cell() is not None:
                     he_child.pair_periodic_vertices()
 
     
@@ -7819,7 +7835,9 @@ class QuadMesh(Mesh2D):
                 if nb is not None and nb.has_children(flag=subforest_flag):
                     twin = half_edge.twin()
                     for the_child in twin.get_children():
-                        if the_child.cell().has_children(flag=subforest_flag):
+                        nb_child = the_child.cell()
+                        if nb_child is not None and \
+                                nb_child.has_children(flag=subforest_flag):
                             return False
         return True
 
@@ -7850,7 +7868,9 @@ class QuadMesh(Mesh2D):
                     #
                     twin = half_edge.twin()
                     for the_child in twin.get_children():
-                        if the_child.cell().has_children(flag=subforest_flag):
+                        nb_child = the_child.cell()
+                        if nb_child is not None and \
+                                nb_child.has_children(flag=subforest_flag):
                             #
                             # Neighbor has grandchildren
                             #
@@ -7883,7 +7903,8 @@ class QuadMesh(Mesh2D):
                                     hep = half_edge.get_parent()
                                     if hep is not None:
                                         hep_twin = hep.twin()
-                                        if hep_twin is not None:
+                                        if hep_twin is not None \
+                                                and hep_twin.cell() is not None:
                                             leaves.add(hep_twin.cell())
                             #
                             # Current LEAF cell has been split, move on to next one
-- 
2.43.0

