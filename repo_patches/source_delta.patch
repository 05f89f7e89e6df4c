From 7d3db279c5bf181c87ce8f865632ec987ac1f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 01/76] fix: removing a self-edge of an undirected network
 raised KeyError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4ce6b5e..73d9196 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -278,7 +278,7 @@ class MultilayerNetwork(object):
                             if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
-                    else:
+                    elif node1!=node2: #a self-edge is stored only once
                         del self._net[node2][node1]
                     del self._net[node1][node2]
         else:
-- 
2.43.0


From 594321ba3de1ed121e1d98af79bab558fa0c9912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:29 +0000
Subject: [PATCH 02/76] fix: removing a directed edge left the total degree of
 its target unchanged

---
 pymnet/net.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 73d9196..328eb61 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -273,9 +273,8 @@ class MultilayerNetwork(object):
                         if node1==node2 and node2 in self._net[node1]:
                             self._totalDegree[node1]=self._totalDegree.get(node1,0)-1
                         else:
-                            if node1 not in self._rnet or node2 not in self._rnet[node1]:
+                            if node2 not in self._rnet[node1]: #no reciprocal edge
                                 self._totalDegree[node1]=self._totalDegree[node1]-1
-                            if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
                     elif node1!=node2: #a self-edge is stored only once
-- 
2.43.0


From 87770625343e4e3cb4a89a79c6c0b6b170d9ea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 03/76] fix: intra-layer networks of a multiplex network
 ignored its noEdge value

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 328eb61..0a8eb6b 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -845,7 +845,7 @@ class MultiplexIntraNetDict(MutableMapping):
         pass
 
     def _add_empty_network(self,layer):
-        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed)
+        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed,noEdge=self._net.noEdge)
         net._set_parent(self._net)
         if not self._net.fullyInterconnected:
             if self._net.aspects==1:
-- 
2.43.0


From ade22965a018d1ee17167ee197091a1b94f557cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 04/76] fix: reading an inter-layer edge of a multiplex network
 without couplings raised an exception

---
 pymnet/net.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 0a8eb6b..bd57e1f 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1043,6 +1043,8 @@ class MultiplexNetwork(MultilayerNetwork):
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
                     return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                elif coupling[0]=="none":
+                    return self.noEdge
                 else:
                     raise Exception("Coupling not implemented: "+str(coupling))
             else:
-- 
2.43.0


From 578919c6260c10bd7068530958afe8e1576b00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 05/76] fix: net[i,j,s,:] and net[i,:,s,r] selected links to i
 and s instead of j and r

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index bd57e1f..de6889d 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -494,7 +494,7 @@ class MultilayerNetwork(object):
             layers=[]
             for i in range(d):
                 if item[2*i+1]!=COLON:
-                    layers.append(item[2*i])
+                    layers.append(item[2*i+1])
                 else:
                     colons+=1
                     layers.append(None)
-- 
2.43.0


From 34f2278c003a4fc9c79c9f7b29b0460b9187b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 06/76] fix: couplings of non-fully interconnected multiplex
 networks (degrees, neighbors, missing node-layers)

---
 pymnet/net.py | 56 ++++++++++++++++++++-------------------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index de6889d..817aa1d 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1020,6 +1020,14 @@ class MultiplexNetwork(MultilayerNetwork):
             return layer in self.A
 
 
+    def _has_node_layer(self,supernode):
+        """Return true if the node-layer tuple is in the network.
+        """
+        if self.fullyInterconnected:
+            return all(e in self.slices[a] for a,e in enumerate(supernode))
+        else:
+            return self._has_layer_with_tuple(supernode[1:]) and supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]
+
     def _get_link(self,link):
         """Overrides parents method.
         """
@@ -1070,27 +1078,19 @@ class MultiplexNetwork(MultilayerNetwork):
 
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
+        if not self._has_node_layer(supernode):
+            return 0
         if coupling_type=="categorical":
             if self.fullyInterconnected:
                 return len(self.slices[aspect])-1
             else:
-                if self.aspects>1:
-                    layer=supernode[1:]
-                else:
-                    layer=supernode[1]
-                if layer in self._nodeToLayers[supernode[0]]:
-                    if self.aspects==1:
-                        return len(self._nodeToLayers[supernode[0]])-1
-                    else:
-                        return len(filter(lambda x:x[aspect]==supernode[aspect],self._nodeToLayers[supernode[0]])) -1
-                else:
-                    return 0
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
                 return int(up in self.slices[aspect])+int(down in self.slices[aspect])
             else:
-                return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
             if direction=="tot":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
@@ -1113,31 +1113,19 @@ class MultiplexNetwork(MultilayerNetwork):
 
     def _iter_dim(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
+        if not self._has_node_layer(supernode):
+            return
         if coupling_type=="categorical":            
-            if self.fullyInterconnected:
-                for n in self.slices[aspect]:
-                    if n!=supernode[aspect]:                    
-                        yield supernode[:aspect]+(n,)+supernode[aspect+1:]
-            elif supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]:
-                for layers in self._nodeToLayers[supernode[0]]:
-                    if self.aspects>1:
-                        if layers!=supernode[1:]:
-                            yield (supernode[0],)+layers
-                    else:
-                        if layers!=supernode[1]:
-                            yield (supernode[0],layers)
+            for n in self.slices[aspect]:
+                neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                if n!=supernode[aspect] and self._has_node_layer(neigh):
+                    yield neigh
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
-            if self.fullyInterconnected:
-                if up in self.slices[aspect]:
-                    yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if down in self.slices[aspect]:
-                    yield supernode[:aspect]+(down,)+supernode[aspect+1:]
-            else:
-                if supernode[1:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+            for n in (up,down):
+                neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                if self._has_node_layer(neigh):
+                    yield neigh
         elif coupling_type=="none":
             pass
         else:
-- 
2.43.0


From 6e775819ab9fe05db4af126b36d55466197c8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 07/76] fix: neighbors and strengths of multiplex networks
 coupled with a network or not coupled

---
 pymnet/net.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 817aa1d..211dacd 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1050,7 +1050,8 @@ class MultiplexNetwork(MultilayerNetwork):
                     else:
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
-                    return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                    weight=coupling[0][link[2*d[0]],link[2*d[0]+1]]
+                    return weight if weight!=coupling[0].noEdge else self.noEdge
                 elif coupling[0]=="none":
                     return self.noEdge
                 else:
@@ -1092,23 +1093,24 @@ class MultiplexNetwork(MultilayerNetwork):
             else:
                 return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
-            if direction=="tot":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
-            elif direction=="in":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_in()
-            elif direction=="out":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_out()
+            return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="none":
             return 0
         else:
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
     def _get_dim_strength(self,node,aspect,direction="tot"):
-        coupling_str=self.couplings[aspect-1][1]
         coupling_type=self.couplings[aspect-1][0]
         if isinstance(coupling_type,MultilayerNetwork):
-            raise Exception() #please implement this
-        return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
+            strength=0
+            if direction!="in":
+                strength+=sum(self._get_link(self._nodes_to_link(node,n)) for n in self._iter_dim(node,aspect,"out"))
+            if direction=="in" or (direction=="tot" and self.directed):
+                strength+=sum(self._get_link(self._nodes_to_link(n,node)) for n in self._iter_dim(node,aspect,"in"))
+            return strength
+        elif coupling_type=="none":
+            return 0
+        return self._get_dim_degree(node,aspect,direction=direction)*self.couplings[aspect-1][1]
 
 
     def _iter_dim(self,supernode,aspect,direction="tot"):
@@ -1126,10 +1128,16 @@ class MultiplexNetwork(MultilayerNetwork):
                 neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
                 if self._has_node_layer(neigh):
                     yield neigh
+        elif isinstance(coupling_type,MultilayerNetwork):
+            clayer=coupling_type[supernode[aspect]]
+            for n in {"tot":clayer.iter_total,"in":clayer.iter_in,"out":clayer.iter_out}[direction]():
+                neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                if n!=supernode[aspect] and self._has_node_layer(neigh):
+                    yield neigh
         elif coupling_type=="none":
             pass
         else:
-            raise NotImplemented()
+            raise NotImplementedError()
         
     def _select_dimensions(self,node,dims):
         if dims==None:
-- 
2.43.0


From 0be4fe572292476de7c0ee2f511f3a9d4480cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 08/76] fix: total strength of a directed multiplex network
 counted coupling edges only once

---
 pymnet/net.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 211dacd..7acc272 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1110,7 +1110,10 @@ class MultiplexNetwork(MultilayerNetwork):
             return strength
         elif coupling_type=="none":
             return 0
-        return self._get_dim_degree(node,aspect,direction=direction)*self.couplings[aspect-1][1]
+        strength=self._get_dim_degree(node,aspect,direction=direction)*self.couplings[aspect-1][1]
+        if direction=="tot" and self.directed: #sum of the in- and out-strengths
+            strength=2*strength
+        return strength
 
 
     def _iter_dim(self,supernode,aspect,direction="tot"):
-- 
2.43.0


From 0b5634e6ef36a605902a4e2502f527e10c1257d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 09/76] fix: neighbors of multiplex nodes in slices that select
 other nodes or layers

---
 pymnet/net.py | 52 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 7acc272..1804eb9 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1146,19 +1146,31 @@ class MultiplexNetwork(MultilayerNetwork):
         if dims==None:
             for d in range(self.aspects+1):
                 yield d
+        elif self._is_other_element_fixed(node,dims):
+            #the neighbors differ from the node only in a single dimension
+            fixed=[d for d,val in enumerate(dims) if val!=None and node[d]!=val]
+            if len(fixed)==1:
+                yield fixed[0]
         else:
-            l=[]
             for d,val in enumerate(dims):
-                if val!=None and node[d]!=val:
-                    return
                 if val==None:
-                    l.append(d)
-            for d in l:
-                yield d
+                    yield d
+
+    def _is_other_element_fixed(self,node,dims):
+        """Returns true if dims has an element that is different from that of the node.
+        """
+        return dims!=None and any(val!=None and node[d]!=val for d,val in enumerate(dims))
+
+    def _in_dims(self,neigh,dims):
+        """Returns true if the neighbor has the elements given in dims.
+        """
+        return dims==None or all(val==None or neigh[d]==val for d,val in enumerate(dims))
 
     def _get_degree_total_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._is_other_element_fixed(node,dims):
+            return len(list(self._iter_neighbors_total(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1170,6 +1182,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_degree_in_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._is_other_element_fixed(node,dims):
+            return len(list(self._iter_neighbors_in(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1181,6 +1195,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_degree_out(self,node, dims):
         """Overrides parents method.
         """
+        if self._is_other_element_fixed(node,dims):
+            return len(list(self._iter_neighbors_out(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1193,6 +1209,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_total_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._is_other_element_fixed(node,dims):
+            return MultilayerNetwork._get_strength_total_dir(self,node,dims)
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1205,6 +1223,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_in_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._is_other_element_fixed(node,dims):
+            return MultilayerNetwork._get_strength_in_dir(self,node,dims)
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1217,6 +1237,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_out(self,node, dims):
         """Overrides parents method.
         """
+        if self._is_other_element_fixed(node,dims):
+            return MultilayerNetwork._get_strength_out(self,node,dims)
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1233,10 +1255,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_total((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if self._in_dims((n[0],)+node[1:],dims):
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="tot"):
-                    yield n
+                    if self._in_dims(n,dims):
+                        yield n
 
     def _iter_neighbors_in_dir(self,node,dims):
         """Overrides parents method.
@@ -1244,10 +1268,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_in((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if self._in_dims((n[0],)+node[1:],dims):
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="in"):
-                    yield n
+                    if self._in_dims(n,dims):
+                        yield n
 
     def _iter_neighbors_out(self,node,dims):
         """Overrides parents method.
@@ -1255,10 +1281,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_out((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if self._in_dims((n[0],)+node[1:],dims):
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="out"):
-                    yield n
+                    if self._in_dims(n,dims):
+                        yield n
 
     def __eq__(self,other):
         if type(self) is type(other):
-- 
2.43.0


From 4227973766c266f9bb398f32860b892d98efebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 10/76] fix: comparing networks with different
 fullyInterconnected values raised an exception

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 1804eb9..6179ab6 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -176,7 +176,7 @@ class MultilayerNetwork(object):
         if not isinstance(other,MultilayerNetwork):
             return False
         
-        if not self.fullyInterconnected:
+        if not self.fullyInterconnected and not other.fullyInterconnected:
             if self._nodeToLayers!=other._nodeToLayers:
                 return False
         if type(self) is type(other) and self.directed == other.directed and self.directed==other.directed and self.aspects==other.aspects and self.fullyInterconnected == other.fullyInterconnected and self.noEdge == other.noEdge and self.slices==other.slices and len(self.edges) ==len(other.edges):            
-- 
2.43.0


From 78bdddfcf5ac28744a23644b42d46f9e194f8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 11/76] fix: equal specifications of no couplings compared as
 different

---
 pymnet/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 6179ab6..ba6ad06 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -940,7 +940,7 @@ class MultiplexNetwork(MultilayerNetwork):
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
                     assert coupling[0] in coupling_types
-                    if coupling[0] in ["categorical","ordinal"] and len(coupling)==1:
+                    if len(coupling)==1:
                         coupling=coupling+(1.0,)
                     self.couplings.append(coupling)
                 elif isinstance(coupling,MultilayerNetwork):
@@ -950,7 +950,7 @@ class MultiplexNetwork(MultilayerNetwork):
                     assert str(coupling) in coupling_types
                     self.couplings.append((coupling,1.0))
                 elif coupling==None:
-                    self.couplings.append(("none",))
+                    self.couplings.append(("none",1.0))
                 else:
                     raise ValueError("Invalid coupling type: "+str(type(coupling)))
             self.aspects=len(couplings)
-- 
2.43.0


From 951739afef6500c492e3212937e3dfc0ff003bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 12/76] fix: supra-adjacency matrices lacked self-edges of
 monoplex networks and contained noEdge values

---
 pymnet/net.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index ba6ad06..51d139a 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -641,14 +641,17 @@ class MultilayerNetwork(object):
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
                     if includeCouplings or i[1:]==j[1:]:
-                        matrix[i_index,j_index]=self[i][j]
+                        weight=self[i][j]
+                        if weight!=self.noEdge:
+                            matrix[i_index,j_index]=weight
         else:
             nodes=sorted(self)
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    if i_index!=j_index:
-                        matrix[i_index,j_index]=self[i][j]
+                    weight=self[i][j]
+                    if weight!=self.noEdge:
+                        matrix[i_index,j_index]=weight
 
         return numpy.matrix(matrix),nodes
 
-- 
2.43.0


From 08efcd0e8f8a91501ab10e7a993571cc37cc2484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 13/76] fix: aggregate lost layers without edges and added
 noEdge values to the weights

---
 pymnet/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 08dd713..f7d7c94 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -73,7 +73,12 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     #Add nodes
     for node in net:
         newNet.add_node(node)
-    
+
+    #Add the remaining elementary layers
+    for newAspect,aspect in enumerate(filter(lambda x:x not in aspects,range(1,net.aspects+1))):
+        for layer in net.get_layers(aspect):
+            newNet.add_layer(layer,newAspect+1)
+
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
     for edge in net.edges:
@@ -81,7 +86,8 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            oldWeight=newNet[tuple(newEdge)]
+            newNet[tuple(newEdge)]=edge[-1] if oldWeight==newNet.noEdge else oldWeight+edge[-1]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
-- 
2.43.0


From 8ccd7ba6c8e2ef9c55ab606790f942812def4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 14/76] fix: overlay_network lost edge directions and nodes,
 and added noEdge values to the weights

---
 pymnet/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index f7d7c94..8df5f45 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -115,12 +115,16 @@ def overlay_network(net):
        A new instance of multiplex network which is produced.
     """
     assert net.aspects==1
-    newnet=netmodule.MultilayerNetwork()
+    newnet=netmodule.MultilayerNetwork(directed=net.directed)
+    for node in net.slices[0]:
+        newnet.add_node(node)
     for layer in net.slices[1]:
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
                 if net.directed or node1>node2:
-                    newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+                    weight=net[node1,node2,layer,layer]
+                    if weight!=net.noEdge:
+                        newnet[node1,node2]=newnet[node1,node2]+weight
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From 4ba96a680d68e0c781d09f4cd17e6ae05d2b51bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 15/76] fix: threshold raised NameError for non-fully
 interconnected networks

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 8df5f45..aa02eb5 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -462,7 +462,7 @@ def threshold(net,threshold,method=">=",ignoreCouplingEdges=False):
             newNet.add_layer(layer,aspect=aspect+1) 
     if not net.fullyInterconnected:
         for nodelayer in net.iter_node_layers():
-            layer=lnodelayer[1:]
+            layer=nodelayer[1:]
             if net.aspects==1:
                 layer=layer[0]
             newNet.add_node(nodelayer[0],layer=layer)
-- 
2.43.0


From a0fc8475bde04de09e4a355188c73575c813ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 16/76] fix: subnet_iter with edge removals tried to remove
 couplings and edges that are not in the subnetwork

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index aa02eb5..c98d31f 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -562,11 +562,12 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
             if isinstance(net,netmodule.MultiplexNetwork):
                 #For multiplex networks we do not want to go through coupling edges
                 couplings=subnet_with_edges.couplings
+                subnet_with_edges.couplings=[("none",1.0) for coupling in couplings]
                 edges=list(subnet_with_edges.edges)
                 subnet_with_edges.couplings=couplings
             else:
                 #For multilayer networks we go through all edges
-                edges=net.edges
+                edges=list(subnet_with_edges.edges)
             for newnet_edges in all_combinations(edges):
                 newnet=subnet(subnet_with_edges,*nl,nolinks=True)
                 for edge in newnet_edges:
-- 
2.43.0


From 701f2d1241b9f436abc3c216e919e0a8595a4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 17/76] fix: relabel modified the list of layer names given to
 it and rejected tuples

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index c98d31f..f6fda43 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -297,6 +297,7 @@ def relabel(net,nodeNames=None,layerNames=None):
     if net.aspects==1:
         if isinstance(layerNames,dict):
             layerNames=[layerNames]
+    layerNames=list(layerNames) #a copy, as the missing maps are added to it
 
     for aspect in range(net.aspects):
         if len(layerNames)<aspect+1:
-- 
2.43.0


From 18a6157ae9c46e214827af64a94840567a93f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 18/76] fix: multiplex networks coupled with a network could
 not be copied (subnet, relabel, normalize)

---
 pymnet/net.py        | 9 ++++++---
 pymnet/transforms.py | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 51d139a..5a123d3 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -942,9 +942,12 @@ class MultiplexNetwork(MultilayerNetwork):
             for coupling in couplings:
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
-                    assert coupling[0] in coupling_types
-                    if len(coupling)==1:
-                        coupling=coupling+(1.0,)
+                    if isinstance(coupling[0],MultilayerNetwork): #as in the attribute couplings
+                        assert coupling[0].aspects==0
+                    else:
+                        assert coupling[0] in coupling_types
+                        if len(coupling)==1:
+                            coupling=coupling+(1.0,)
                     self.couplings.append(coupling)
                 elif isinstance(coupling,MultilayerNetwork):
                     assert coupling.aspects==0
diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index f6fda43..752e00a 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -309,7 +309,12 @@ def relabel(net,nodeNames=None,layerNames=None):
                                  directed=net.directed,
                                  fullyInterconnected=net.fullyInterconnected)
     elif type(net)==netmodule.MultiplexNetwork:
-        newNet=netmodule.MultiplexNetwork(couplings=net.couplings,
+        couplings=[]
+        for aspect,coupling in enumerate(net.couplings):
+            if isinstance(coupling[0],netmodule.MultilayerNetwork): #nodes of the coupling network are layers
+                coupling=(relabel(coupling[0],nodeNames=layerNames[aspect]),)
+            couplings.append(coupling)
+        newNet=netmodule.MultiplexNetwork(couplings=couplings,
                                 directed=net.directed,
                                 noEdge=net.noEdge,
                                 fullyInterconnected=net.fullyInterconnected)
-- 
2.43.0


From f3ad554e3fa4c3930728721cea5479dd6e830985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 19/76] fix: subnet of a multiplex network raised KeyError for
 layers that are not in the network

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 752e00a..caf41e3 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -169,7 +169,7 @@ def subnet(net,nodes,*layers,**kwargs):
         if elayers==None:
             nodelayers.append(set(net.get_layers(a)))
         else:
-            nodelayers.append(set(elayers))
+            nodelayers.append(set(elayers).intersection(net.get_layers(a)))
 
     if newNet==None:
         if isinstance(net,netmodule.MultiplexNetwork):
-- 
2.43.0


From a9fc823e91a3c6e5ace338187a6ea3d181b7b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 20/76] fix: density raised an exception for non-fully
 interconnected networks and for single node-layers

---
 pymnet/diagnostics.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index da79c68..3c0ce71 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -49,11 +49,17 @@ def density(net):
         nl=len(net.get_layers(0))
         for a in range(net.aspects):
             nl=nl*len(net.get_layers(a+1))
-        if net.directed:
-            pedges=nl*(nl-1)
-        else:
-            pedges=(nl*(nl-1))/2
-            
+    else:
+        nl=len(list(net.iter_node_layers()))
+
+    if net.directed:
+        pedges=nl*(nl-1)
+    else:
+        pedges=(nl*(nl-1))/2
+
+    if pedges==0: #less than two node-layers
+        return 0
+
     return len(net.edges)/float(pedges)
 
 
-- 
2.43.0


From cb49e1a1f6beadbefec55b0d4ec3119511f664e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:52 +0000
Subject: [PATCH 21/76] fix: overlap_degs raised NameError

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 3c0ce71..e019b64 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -1,4 +1,5 @@
 from .net import MultilayerNetwork,MultiplexNetwork
+from .transforms import subnet,aggregate,threshold
 import heapq,itertools
 
 def degs(net,degstype="distribution"):
-- 
2.43.0


From c6f39a0ec54784698533fbda286aeb0b6d493efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 22/76] fix: isomorphisms of monoplex networks raised KeyError

---
 pymnet/isomorphisms/isomcore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 90ab0ba..4397061 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -89,6 +89,8 @@ class AuxiliaryGraphBuilder(object):
         #edges between node-layers:
         for nl1 in self.net.iter_node_layers():
             for nl2 in self.net[nl1]:
+                if self.net.aspects==0: #neighbors are not given as tuples
+                    nl2=(nl2,)
                 nl1id=self._get_node_id(nl1)
                 nl2id=self._get_node_id(nl2)
                 self.add_link(nl1id,nl2id)
-- 
2.43.0


From 1e98223607db1d48872c13957bb97f6d80fc6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 23/76] fix: comparing networks with different numbers of fixed
 layers raised AssertionError

---
 pymnet/isomorphisms/isomcore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 4397061..a17d6ca 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -112,8 +112,10 @@ class AuxiliaryGraphBuilder(object):
                 self.add_link(nlid,auxid)
 
     def compare_labels(self,other):
+        if self.colormap!=other.colormap:
+            return False
         assert self.auxcolormap==other.auxcolormap #this should be true if comparable
-        return self.colormap==other.colormap
+        return True
 
 
     def compare(self,other):
-- 
2.43.0


From b343d82cd5acbe95ee4f9c271162ae104cbb24fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 24/76] fix: reading a coupling edge of a layer that is not in
 a non-fully interconnected multiplex raised KeyError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 5a123d3..2b53885 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1045,7 +1045,7 @@ class MultiplexNetwork(MultilayerNetwork):
                     return self.noEdge
                 if not self.fullyInterconnected:
                     supernode1, supernode2=self._link_to_nodes(link)
-                    if not (link[0] in self._get_A_with_tuple(supernode1[1:]).slices[0] and link[0] in self._get_A_with_tuple(supernode2[1:]).slices[0]):
+                    if not (self._has_node_layer(supernode1) and self._has_node_layer(supernode2)):
                         return self.noEdge
                 coupling=self.couplings[d[0]-1]                
                 if coupling[0]=="categorical":
-- 
2.43.0


From 602baebb18e20e5d2d06aee8751eaf8ad504eb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 25/76] fix: Erdos-Renyi networks with edge probability 0
 raised ZeroDivisionError

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index cc3a4a5..fc729c6 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -184,7 +184,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
                 for node2 in nodes:
                     if node1!=node2:
                         net[node1,node2]=1
-        else:
+        elif p>0:
             v,w=1,-1
             while (v < n):
                 r=random.random()
-- 
2.43.0


From c978a266b3324a0279e250865b70e83d008d9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 26/76] fix: er_multilayer networks lacked nodes and layers
 without edges

---
 pymnet/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index fc729c6..789763b 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -494,6 +494,11 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
+
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
-- 
2.43.0


From 777a6356089d98861687f8e4d7774d830da467f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 27/76] fix: conf ignored the couplings parameter when a
 network was given

---
 pymnet/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 789763b..c85951c 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -242,13 +242,13 @@ def conf(degs,degstype="distribution",couplings=("categorical",1.0)):
             d[layer]=dd
             for node in degs.A[layer]:
                 dd[node]=degs.A[layer][node].deg()
-        return conf(d,degstype="nodes")
+        return conf(d,degstype="nodes",couplings=couplings)
     elif isinstance(degs,MultilayerNetwork):
         assert degs.aspects==0
         d={}
         for node in degs:
             d[node]=degs[node].deg()
-        return conf(d,degstype="nodes")
+        return conf(d,degstype="nodes",couplings=couplings)
     #elif isinstance(degs,dict) and not isinstance(degs.itervalues().next(),dict):
     elif isinstance(degs,dict) and not isinstance(degs[(k for k in degs).send(None)],dict):
         net=MultilayerNetwork(aspects=0)
-- 
2.43.0


From f83d54ec2360f0a231c554bed33730c6e39c38bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 28/76] fix: conf_overlaps and er_overlaps_match_aggregated
 networks lacked nodes and layers without edges

---
 pymnet/models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index c85951c..00b696b 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -559,6 +559,10 @@ def conf_overlaps(ol_degs, couplings=None):
     
     for layer_comb in ol_degs:
         degs = ol_degs[layer_comb]
+        for node in degs:
+            net.add_node(node)
+        for layer in layer_comb:
+            net.add_layer(layer)
         
         # mostly modified from single_layer_conf
         stubs=[]
@@ -747,9 +751,13 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
     
     net = MultiplexNetwork(couplings=couplings)
     used_edges = set()
+    for node in range(n):
+        net.add_node(node)
     
     e_left = {}
     for layer_comb in ps:
+        for layer in layer_comb:
+            net.add_layer(layer)
         if len(layer_comb) == 1:
             e_left[layer_comb[0]] = e_left.get(layer_comb[0], edges)
             continue
-- 
2.43.0


From 8e6a52ef9591587f2fd01b8ca92916ea3aa2c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 29/76] fix: full and full_multilayer networks lacked nodes and
 layers without edges

---
 pymnet/models.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 00b696b..1acd8d4 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -416,20 +416,28 @@ def full(nodes,layers,couplings=('categorical',1.0)):
     """
     if layers==None:
         n=MultilayerNetwork(aspects=0)
+        for node in range(nodes):
+            n.add_node(node)
         for node1 in range(nodes):
             for node2 in range(nodes):
                 if node1!=node2:
                     n[node1,node2]=1
     elif not hasattr(layers,'__iter__'): #is not sequence
         n=MultiplexNetwork(couplings=[couplings])
+        for node in range(nodes):
+            n.add_node(node)
         for layer in range(layers):
+            n.add_layer(layer)
             for node1 in range(nodes):
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
     else: #it's a sequence
         n=MultiplexNetwork(couplings=[couplings])
+        for node in range(nodes):
+            n.add_node(node)
         for layer in layers:
+            n.add_layer(layer)
             for node1 in range(nodes):
                 for node2 in range(nodes):
                     if node1!=node2:
@@ -459,6 +467,10 @@ def full_multilayer(nodes,layers):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
-- 
2.43.0


From 785f892d3376730c524f3685d25170c8bb021c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 30/76] fix: cc_zhang, cc_onnela and gcc_zhang raised
 ValueError on networks without edges

---
 pymnet/cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 637bb55..50c7525 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -66,9 +66,9 @@ def cc_zhang(net,node,undefReturn=0.0):
     gcc_zhang : The global version of the clustering coefficient
 
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom,den=0,0
         for i,j in itertools.combinations(net[node],2):
             nij=net[node][i]*net[node][j]
@@ -93,7 +93,6 @@ def gcc_zhang(net):
 
     """
 
-    maxw=max(map(lambda x:x[2],net.edges))
     nom,den=0,0
     for node in net:
         degree=net[node].deg()
@@ -105,6 +104,7 @@ def gcc_zhang(net):
                 if ij!=net.noEdge:
                     nom+=nij*ij
     if den!=0:
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return None
@@ -121,9 +121,9 @@ def cc_onnela(net,node,undefReturn=0.0):
     ----------
     J.-P. Onnela, J. Saramaki, J. Kertesz, and K. Kaski, Phys. Rev. E 71, 065103 (2005)
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom=0
         for i,j in itertools.combinations(net[node],2):
             ij=net[i][j]
-- 
2.43.0


From 6ea3ae4c8acaf1deeff97f3e39b398e820d1da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 31/76] fix: cc_layers_avg raised TypeError

---
 pymnet/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 50c7525..751ae27 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -281,7 +281,7 @@ def cc_sequence(net,node):
 def cc_layers_avg(net,node):
     #how to handle undefined cc?
     nom,den=cc_sequence(net,node)
-    tot=map(lambda x,y:x/float(y),nom,den)
+    tot=list(map(lambda x,y:x/float(y),nom,den))
     return sum(tot)/float(len(tot))
 
 def cc_layers_wavg(net,node):
-- 
2.43.0


From b583ccc1f5f8968339795a004bf56605bd43f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 32/76] fix: elementary_cycles crashed the interpreter on large
 networks

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 751ae27..c8814f4 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -343,12 +343,12 @@ def elementary_cycles(net,node=None,layer=None,anet=None):
         if anet==None:
             anet=transforms.aggregate(net,1)
         for n in nodes:
-            sums=map(lambda x,y:x+y,sums,cc_cycle_vector_anet(net,n,layer=layer,anet=anet))
+            sums=list(map(lambda x,y:x+y,sums,cc_cycle_vector_anet(net,n,layer=layer,anet=anet)))
     else:
         layers=net.iter_layers() if layer==None else [layer]
         for l in layers:
             for n in nodes:
-                sums=map(lambda x,y:x+y,sums,cc_cycle_vector_bf(net,n,l))
+                sums=list(map(lambda x,y:x+y,sums,cc_cycle_vector_bf(net,n,l)))
     return tuple(sums)
 
 
-- 
2.43.0


From f19d509322c5b8cc83d6bd50576b5ec06986acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 33/76] fix: gcc_from_lcc raised TypeError

---
 pymnet/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index c8814f4..84a4189 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -1117,7 +1117,7 @@ def sncc_aw_seplayers(net,supernode,w1=1./3.,w2=1./3.,w3=1./3.,undefined=None):
 
 def gcc_from_lcc(net,lcc):
     lcc_vector=map(lambda node:lcc(net,node,undefReturn=None),net)
-    lcc_fvector=filter(lambda x:x!=None,lcc_vector)
+    lcc_fvector=list(filter(lambda x:x!=None,lcc_vector))
     if len(lcc_fvector)>0:
         return sum(lcc_fvector)/len(lcc_fvector)
     else:
-- 
2.43.0


From cca60eb4e41ae47e55770f835fe8ba2731187259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 34/76] fix: unsupported UCINET formats were read as full
 matrices

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 6d8343f..bdfae40 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -248,7 +248,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
 
-    if format=="fullmatrix" or "fullmatrix diagonal present":
+    if format in ("fullmatrix","fullmatrix diagonal present"):
         try:
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
-- 
2.43.0


From 9ad0f46dd49efbf55e933acc0d36f1527ac67b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 35/76] fix: UCINET rows with embedded labels continuing on the
 next line were misread

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index bdfae40..118e7cd 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -260,7 +260,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 #line=ii.next().strip()
                 line=ii.send(None).strip()
                 fields=line.split()
-                while len(fields)<n:
+                while len(fields)<n+labels_embedded: #labels take the first column
                     #line=ii.next().strip()
                     line=ii.send(None).strip()
                     fields.extend(line.split())
-- 
2.43.0


From aad8e305dc0b1a955781955e0eb7883aeaa6874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 36/76] fix: nodes and layers without edges were lost when
 reading UCINET files

---
 pymnet/netio.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 118e7cd..476758a 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -286,6 +286,14 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         raise Exception("Format '%s' is not supported" % format)
 
 
+    if nm==1:
+        if fullyInterconnected:
+            for node in list(clabels)+list(rlabels):
+                net.add_node(node)
+    else:
+        for layer in llabels:
+            net.add_layer(layer)
+
     if fullyInterconnected and nm!=1:
         for layer in llabels:
             for node in clabels:
-- 
2.43.0


From efbed17d9717169258d5e21b4655d0fc641f72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 37/76] fix: other edge attributes were stored as edge weights
 through the NetworkX view

---
 pymnet/nxwrap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6aa6e8c..d08977a 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -69,9 +69,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
     def __setitem__(self,key,val):
         if key.__class__==tuple: key=ntuple(key) 
         if isinstance(val,dict) or isinstance(val,MonoplexGraphWrapper_singleedge):
-            if len(val)>0:
-                #self.net[self.node,key]=list(val.itervalues())[0]
-                self.net[self.node,key]=list( (val[key] for key in val))[0]
+            if "weight" in val: #other edge attributes are not stored
+                self.net[self.node,key]=val["weight"]
             else:
                 self.net[self.node,key]=1
         else:
-- 
2.43.0


From d47da9b61feb107c95f49304ef163986566852f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 38/76] fix: deleting an edge that does not exist through the
 NetworkX view added its nodes

---
 pymnet/nxwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index d08977a..333d061 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -76,7 +76,9 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
         else:
             self.net[self.node,key]=val
     def __delitem__(self,key):
-        self.net[self.node,key]=self.net.noEdge
+        if key.__class__==tuple: key=ntuple(key)
+        if key in self: #NetworkX deletes both directions, and setting an edge would add its end nodes
+            self.net[self.node,key]=self.net.noEdge
 
 
 class MonoplexGraphWrapper_adj(MutableMapping):
-- 
2.43.0


From 21a12302562cf5ef063fa6b32ebeae4c9f134d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 39/76] fix: removing an edge that does not exist through the
 NetworkX view raised nothing

---
 pymnet/nxwrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 333d061..49bfe05 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -154,6 +154,11 @@ class MonoplexGraphNetworkxView(networkx.Graph):
         if data is not None:
             networkx.convert.to_networkx_graph(data,create_using=self)
 
+    def remove_edge(self,u,v):
+        if not self.has_edge(u,v):
+            raise networkx.NetworkXError("The edge "+str(u)+"-"+str(v)+" is not in the graph")
+        del getattr(self,"_adj",self.adj)[u][v]
+
     def fresh_copy(self):
         fresh_net=MultilayerNetwork(aspects=0)
         return MonoplexGraphNetworkxView(fresh_net)
-- 
2.43.0


From c3c5151700358cd91d6b6f85e425045b8bf89ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 40/76] fix: networkx.Graph was not restored when a wrapped
 NetworkX function raised

---
 pymnet/nxwrap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 49bfe05..c5d40d1 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -199,10 +199,11 @@ def networkxdecorator(f):
         networkx.Graph=MonoplexGraphNetworkxView
 
         #Run the actual function
-        rval=f(*args, **kwargs)
-
-        #Revert the modifications to NetworkX
-        networkx.Graph=networkx_Graph_original
+        try:
+            rval=f(*args, **kwargs)
+        finally:
+            #Revert the modifications to NetworkX
+            networkx.Graph=networkx_Graph_original
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-- 
2.43.0


From 3595156e8fc31e47109d54444bcd6d0a93a62380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 41/76] fix: NetworkX subgraphs of a network were returned as
 empty networks

---
 pymnet/nxwrap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index c5d40d1..5839780 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -207,7 +207,13 @@ def networkxdecorator(f):
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-            rval=rval.net
+            if isinstance(getattr(rval,"_adj",rval.adj),MonoplexGraphWrapper_adj):
+                rval=rval.net
+            else: #a NetworkX view to a part of the graph, which has its own adjacencies
+                subgraph=rval.fresh_copy()
+                subgraph.add_nodes_from(rval)
+                subgraph.add_edges_from(rval.edges(data=True))
+                rval=subgraph.net
 
         return rval
 
-- 
2.43.0


From d90555b5b2b864f196cb0f19a45d292b95d7fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 42/76] fix: the adjacency lists of the NetworkX view could not
 be copied

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 5839780..5c7335a 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -79,6 +79,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
         if key.__class__==tuple: key=ntuple(key)
         if key in self: #NetworkX deletes both directions, and setting an edge would add its end nodes
             self.net[self.node,key]=self.net.noEdge
+    def copy(self):
+        return dict( ((key,self[key]) for key in self) )
 
 
 class MonoplexGraphWrapper_adj(MutableMapping):
-- 
2.43.0


From 305a9d3cd47357af0410b49e77c0236da521bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 43/76] fix: orbit equations of four nodes raised a NameError
 (xrange)

---
 pymnet/graphlets/graphlets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlets.py b/pymnet/graphlets/graphlets.py
index 2484f02..a69694a 100644
--- a/pymnet/graphlets/graphlets.py
+++ b/pymnet/graphlets/graphlets.py
@@ -688,7 +688,7 @@ def partitions_with_remainder(s, r): #Gareth Rees https://stackoverflow.com/ques
     [((0, 1, 2),), ((1, 2), (0,)), ((0, 2), (1,)), ((0, 1), (2,))]
     """
     s = set(s)
-    for n in xrange(len(s), -1, -r): # n is size of remainder.
+    for n in range(len(s), -1, -r): # n is size of remainder.
         if n == 0:
             for p in partitions(s, r):
                 yield p
-- 
2.43.0


From cb86475c7d7bd17408d1d39fb0cf1a6e8d84f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 44/76] fix: the graphlet correlation matrix added a row to the
 table given

---
 pymnet/graphlets/graphlet_measures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1e81268..0d7aa7e 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -217,6 +217,7 @@ def GCM(orbits):
     # add dummy vector
     n_rows = orbits.shape[0]
     n_cols = orbits.shape[1]
+    orbits = orbits.copy()
     orbits.loc[n_rows] = [1] * n_cols
     
     corr, p = spearmanr(orbits, axis=0)
-- 
2.43.0


From 987187ac9fa1935acf0c8f3e3feb5f416c284a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 45/76] fix: counting the orbits of all nodes removed the edges
 of the network given

---
 pymnet/graphlets/graphlet_measures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 0d7aa7e..871bb92 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -38,6 +38,7 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
     
     nodes = net.slices[0]
     layers = net.slices[1]
+    net = pymnet.subnet(net, nodes, layers) #edges are removed below
     
     orbits = dd()
     
-- 
2.43.0


From 3fde0b452361b26050a3d54b65b4227199de73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 46/76] fix: dijkstra found no paths from sources given as an
 iterator

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index e019b64..5a21341 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -146,6 +146,7 @@ def dijkstra(net,sources):
                              fullyInterconnected=False,
                              directed=True,
                              noEdge=-1)
+    sources=list(sources)
     d=dict([(s,0) for s in sources])
 
     queue=[]
-- 
2.43.0


From 43e4079e1a67c6e2954ae3a72136dc6400b8b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 47/76] fix: dijkstra raised TypeError when node names of
 different types had equal distances

---
 pymnet/diagnostics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 5a21341..64f16f2 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -150,11 +150,12 @@ def dijkstra(net,sources):
     d=dict([(s,0) for s in sources])
 
     queue=[]
+    order=itertools.count() #breaks ties, the nodes might not be sortable
     for s in sources:
-        heapq.heappush(queue,(0,s,s)) #distance, source, dest
+        heapq.heappush(queue,(0,next(order),s,s)) #distance, order, source, dest
     
     while len(queue)>0:
-        dist,source,dest=heapq.heappop(queue)
+        dist,dummy,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             forest[source][dest]=net[source][dest]
@@ -162,7 +163,7 @@ def dijkstra(net,sources):
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
                     d[neigh]=ndist      
-                    heapq.heappush(queue,(ndist,dest,neigh))
+                    heapq.heappush(queue,(ndist,next(order),dest,neigh))
 
 
     return d,forest
-- 
2.43.0


From be093fc3a8ea6cc1c359f06ba20a0d564043451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 48/76] fix: dijkstra did not terminate when edges of weight
 zero were on shortest paths

---
 pymnet/diagnostics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 64f16f2..74a4f68 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -154,11 +154,15 @@ def dijkstra(net,sources):
     for s in sources:
         heapq.heappush(queue,(0,next(order),s,s)) #distance, order, source, dest
     
+    expanded=set()
     while len(queue)>0:
         dist,dummy,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             forest[source][dest]=net[source][dest]
+            if dest in expanded: #another path as short as the first one
+                continue
+            expanded.add(dest)
             for neigh in net[dest].iter_out():
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
-- 
2.43.0


From dd2c944ae169d79a0dcf814792f00edcdb7943bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 49/76] fix: edges of directed networks were drawn a second
 time in the opposite direction with the properties of edges that are not
 there

---
 pymnet/visuals/drawcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawcore.py b/pymnet/visuals/drawcore.py
index e06bcc4..68c0602 100644
--- a/pymnet/visuals/drawcore.py
+++ b/pymnet/visuals/drawcore.py
@@ -222,7 +222,7 @@ def draw(net,layout="spring",layershape="rectangle",azim=-51,elev=22,show=False,
         nodes[nl]=NodeBE(layers[nl[1]],xy[0],xy[1],label=nodeLabel[nl],color=nodeColor[nl],size=nodeSize[nl],labelArgs=nodeLabelArgs)
 
     for nl1 in net.iter_node_layers():
-        for nl2 in net[nl1]:
+        for nl2 in net[nl1].iter_out():
             EdgeBE(nodes[nl1],nodes[nl2],color=edgeColor[(nl1,nl2)],width=edgeWidth[(nl1,nl2)],style=edgeStyle[(nl1,nl2)],z=edgeZ[(nl1,nl2)],alpha=edgeAlpha[(nl1,nl2)])
 
     return nf.draw(ax=ax)
-- 
2.43.0


From 48ce5d9767f721c7f936645438f4ae3951fb1e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 50/76] fix: drawing edges with an edgetype rule giving only
 one of the types did not use the default property for the others

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 55f1180..82dee0e 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -31,7 +31,10 @@ class PropertyAssigner(object):
         elif len(self.propRule)>0:
             assert "rule" in self.propRule, "The rule dictionary must contain 'rule' key"
             if self.propRule["rule"] in self.rules:
-                return self.apply_modify_rules(self.get_by_rule(item,self.propRule["rule"]),item)
+                value=self.get_by_rule(item,self.propRule["rule"])
+                if value is None and self.propRule["rule"]!="f": #the rule doesn't give a value for this item
+                    return self.defaultProp
+                return self.apply_modify_rules(value,item)
             else:
                 raise Exception("Unknown rule: "+str(self.propRule["rule"]))
         else:
-- 
2.43.0


From c645dcbc1d8d845477bdc48a2d6507ea44c79d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 51/76] fix: the colormap property modifier did not work with
 current versions of matplotlib

---
 pymnet/visuals/drawassigners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 82dee0e..6c10d6c 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -63,7 +63,8 @@ class PropertyAssigner(object):
                 item=item*self.propRule["scaleby"]
         if "colormap" in self.propRule:
             if matplotlib_loaded:
-                item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
+                from matplotlib import pyplot
+                item=pyplot.get_cmap(self.propRule["colormap"])(item)
             else:
                 raise ImportError("The colormap feature uses matplotlib, and matplotlib cannot be imported.")
         return item
-- 
2.43.0


From f7d4e0b2e19997353e1bc5fba39ec245c153a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 52/76] fix: the documented order rule of drawing properties
 without a sequence raised AssertionError

---
 pymnet/visuals/drawassigners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 6c10d6c..0438296 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -42,11 +42,12 @@ class PropertyAssigner(object):
 
     def get_by_rule(self,item,rule):
         if rule=="order":
-            assert "sequence" in self.propRule
             if hasattr(self,"i"):
                 self.i+=1
             else:
                 self.i=0
+            if "sequence" not in self.propRule:
+                return self.i
             return self.propRule["sequence"][self.i%len(self.propRule["sequence"])]
         elif rule=="name":
             return item
-- 
2.43.0


From 2c7e8c46df28f174ab353fe0ddb0140f3dc03cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 53/76] fix: the fr layout without aligned nodes gave
 coordinates to nodes instead of node-layers

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 14879a8..15ec244 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -43,7 +43,7 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for nl in net.iter_node_layers():
                 nlcoords[nl]=(random.random(),random.random())
         elif layout=="fr":
-            nlcoords=get_fruchterman_reingold_multilayer_layout(net)
+            nlcoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False)
         else:
             raise Exception("Invalid layout: "+layout)
     return ncoords,nlcoords         
-- 
2.43.0


From 5a8e5e1f76479f6d8faabf0ccd6d6440465abcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 54/76] fix: fr layout of fully interconnected networks without
 aligned nodes had the node-layers of an internal network

---
 pymnet/visuals/layouts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 15ec244..bc81e99 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -141,8 +141,8 @@ def get_fruchterman_reingold_multilayer_layout(net,
     assert isinstance(net,pymnet.MultilayerNetwork), "Invalid network type"
     assert net.aspects>=1, "No monoplex networks"
 
-    #If the network is fully interconnected, we just create network with one layer
-    if net.fullyInterconnected:
+    #If the network is fully interconnected and nodes are aligned, we just create network with one layer
+    if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-- 
2.43.0


From 429dd9d88c5b50a35f1aa40b4a28148f68b602ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 55/76] fix: fr layout of fully interconnected networks with
 several aspects raised AssertionError

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index bc81e99..c3e9fe1 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -146,7 +146,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-        magg.A["all"]=pymnet.transforms.aggregate(net,1)
+        magg.A["all"]=pymnet.transforms.aggregate(net,tuple(range(1,net.aspects+1)))
         net=magg
 
     #nodeDist
-- 
2.43.0


From 3e19616d6a10a813d11e49dc4174d487ef70ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 56/76] fix: layouts were not scaled to the size of the box and
 coordinates on a line raised ZeroDivisionError

---
 pymnet/visuals/layouts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index c3e9fe1..cf384a1 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -63,6 +63,8 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     boxSize : tuple of floats
        The size of the box where the coordinates are to be normalized
     """
+    if len(coords)==0:
+        return coords if inplace else {}
     minx,miny,maxx,maxy=None,None,None,None
     #for node,(x,y) in coords.iteritems():
     for node in coords:
@@ -85,7 +87,7 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     #for node, (x, y) in coords.iteritems():
     for node in coords:
         x,y=coords[node]
-        newcoords[node]=((x-minx)/difx, (y-miny)/dify )
+        newcoords[node]=(boxSize[0]*((x-minx)/difx if difx>0 else 0.5), boxSize[1]*((y-miny)/dify if dify>0 else 0.5))
     return newcoords 
 
 
-- 
2.43.0


From 502f787e0b89ca444d95ce51c73efb2ae1c86d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 57/76] fix: fr layout moved the nodes and node-layers that
 should have been fixed

---
 pymnet/visuals/layouts.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index cf384a1..b1a1491 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -194,6 +194,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
         fixedNodes=set()
     if fixedNodeLayers==None:
         fixedNodeLayers=set()            
+    isfixed=lambda nl: nl in fixedNodeLayers or nl[0] in fixedNodes
 
     #Parsing complete
 
@@ -235,7 +236,10 @@ def get_fruchterman_reingold_multilayer_layout(net,
                 if node not in fixedNodes:
                     delta_len=math.sqrt(x**2+y**2)
                     nc[node]=(nc[node][0]+temperature*delta_len*x, nc[node][1]+temperature*delta_len*y)
-            normalize_coordinates(nc,boxSize,inplace=True)
+            newc=normalize_coordinates(nc,boxSize)
+            for node in newc:
+                if node not in fixedNodes:
+                    nc[node]=newc[node]
 
         else: #we have coordinates for node-layer tuples
             
@@ -271,10 +275,13 @@ def get_fruchterman_reingold_multilayer_layout(net,
             #for nl,(x,y) in delta_nlc.iteritems():
             for nl in delta_nlc:
                 x,y=delta_nlc[nl]
-                if nl not in fixedNodeLayers:
+                if not isfixed(nl):
                     delta_len=math.sqrt(x**2+y**2)
                     nlc[nl]=(nlc[nl][0]+temperature*delta_len*x, nlc[nl][1]+temperature*delta_len*y)
-            normalize_coordinates(nlc,boxSize,inplace=True)
+            newc=normalize_coordinates(nlc,boxSize)
+            for nl in newc:
+                if not isfixed(nl):
+                    nlc[nl]=newc[nl]
 
         temperature-=delta_temperature
     
-- 
2.43.0


From bb6de1761d25c9938c47944bb45b12d513f9a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 58/76] fix: directed networks could not be drawn with the
 default layout

---
 pymnet/visuals/layouts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index b1a1491..4fc3f78 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -27,7 +27,8 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
         if layout in ["circular","shell","spring","spectral"]: #nx layout
             if hasattr(pymnet,"nx"):
                 la=getattr(pymnet.nx,layout+"_layout")
-                na=pymnet.transforms.aggregate(net,1)
+                na=pymnet.MultilayerNetwork(aspects=0,noEdge=net.noEdge) #undirected, also for directed networks
+                na=pymnet.transforms.aggregate(net,1,newNet=na)
                 ncoords=la(na,**kwargs)
             else:
                 raise Exception("Networkx needs to be installed to use layout: "+layout)
-- 
2.43.0


From c4547a9f0af65ec032ed25140df721f0a91adb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 59/76] fix: fr layout raised KeyError for networks with nodes
 that are on no layer

---
 pymnet/visuals/layouts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 4fc3f78..fe15e26 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -222,7 +222,8 @@ def get_fruchterman_reingold_multilayer_layout(net,
             for node1 in net:
                 for node2 in net:
                     if node1!=node2:
-                        layer_overlap=len(net._nodeToLayers[node1].intersection(net._nodeToLayers[node2]))
+                        #nodes that are on no layer don't have an entry
+                        layer_overlap=len(net._nodeToLayers.get(node1,set()).intersection(net._nodeToLayers.get(node2,set())))
                         diff=(nc[node1][0]-nc[node2][0], nc[node1][1]-nc[node2][1])
                         dist=math.sqrt(diff[0]**2+diff[1]**2)
                         dist=max(dist,min_dist)
-- 
2.43.0


From 1002f372c5938def0a983576316e055d61e966c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 60/76] fix: fr layout of directed fully interconnected
 networks missed edges, depending on the order of the nodes

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index fe15e26..ae8d88f 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -147,7 +147,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
     #If the network is fully interconnected and nodes are aligned, we just create network with one layer
     if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
-        magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
+        magg=pymnet.MultiplexNetwork(directed=net.directed,fullyInterconnected=False)
         magg.add_layer("all")
         magg.A["all"]=pymnet.transforms.aggregate(net,tuple(range(1,net.aspects+1)))
         net=magg
-- 
2.43.0


From 769c2a5ec150133347c0b3e7dcf207691253042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 61/76] fix: subnet wrote the no-edge value of a directed
 network for the opposite directions of its edges to the given network

---
 pymnet/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index caf41e3..4d46b3c 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -228,11 +228,11 @@ def subnet(net,nodes,*layers,**kwargs):
                             newNet[nl1][nl2]=net[nl1][nl2]
                 else:
                     if net.aspects==0:
-                        for nl2 in net[nl1]:
+                        for nl2 in net[nl1].iter_out():
                             if nl2 in nodelayers[0]:
                                 newNet[nl1][nl2]=net[nl1][nl2]
                     else:
-                        for nl2 in net[nl1]:
+                        for nl2 in net[nl1].iter_out():
                             if reduce(lambda x,y:x and y, (e in nodelayers[a] for a,e in enumerate(nl2))):
                                 newNet[nl1][nl2]=net[nl1][nl2]
         elif isinstance(net,netmodule.MultilayerNetwork) and isinstance(newNet,netmodule.MultiplexNetwork):
-- 
2.43.0


From a7889cb998c77dfcc624b65b2fe7e0773a64e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 62/76] fix: overlay_network compared the names of the nodes,
 and failed when they are not ordered

---
 pymnet/transforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 4d46b3c..6cfa1cb 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -118,10 +118,11 @@ def overlay_network(net):
     newnet=netmodule.MultilayerNetwork(directed=net.directed)
     for node in net.slices[0]:
         newnet.add_node(node)
+    nodes=list(net.slices[0])
     for layer in net.slices[1]:
-        for node1 in net.slices[0]:
-            for node2 in net.slices[0]:
-                if net.directed or node1>node2:
+        for i,node1 in enumerate(nodes):
+            for j,node2 in enumerate(nodes):
+                if net.directed or i>j:
                     weight=net[node1,node2,layer,layer]
                     if weight!=net.noEdge:
                         newnet[node1,node2]=newnet[node1,node2]+weight
-- 
2.43.0


From 095b641f74948b6bb574edbdf3308b1344af44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 63/76] fix: threejs nodes were drawn ten times as far from the
 origin as the ends of their edges

---
 pymnet/visuals/drawbackends/threejs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/drawbackends/threejs.py b/pymnet/visuals/drawbackends/threejs.py
index 1e52422..164a0a9 100644
--- a/pymnet/visuals/drawbackends/threejs.py
+++ b/pymnet/visuals/drawbackends/threejs.py
@@ -38,8 +38,8 @@ class NodeThreeJS(drawnet.Node):
 
         """
         snippet=snippet.replace("@x",str(SIZE*self.x))
-        snippet=snippet.replace("@y",str(10*SIZE*self.y))
-        snippet=snippet.replace("@z",str(10*SIZE*self.layer.z))
+        snippet=snippet.replace("@y",str(SIZE*self.y))
+        snippet=snippet.replace("@z",str(SIZE*self.layer.z))
         snippet=snippet.replace("@r",str(0.1*self.size/2.))
 
         self.net.node_snippets.append(snippet)
-- 
2.43.0


From e74fb39f520854f25db1f488a14246322fe265ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 64/76] fix: webplot pages were broken by names with quotes,
 backslashes or the end of a script

---
 pymnet/visuals/webplots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/visuals/webplots.py b/pymnet/visuals/webplots.py
index e501978..4321e58 100644
--- a/pymnet/visuals/webplots.py
+++ b/pymnet/visuals/webplots.py
@@ -117,6 +117,8 @@ def webplot(net,outputfile=None):
 
     script=webplot_template
     netdatastr=netio.write_json(net)
+    #the data is inside a JavaScript string, which is inside a script element
+    netdatastr=netdatastr.replace("\\","\\\\").replace("'","\\'").replace("<","\\u003c")
 
     replace={"@netjson" : netdatastr}
     for key,val in replace.items():
-- 
2.43.0


From 0585082946d811e355e153e89b39d902f7240845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 65/76] fix: enumerating subgraphs of networks with another
 no-edge value lost the edges of weight zero

---
 pymnet/sampling/esu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/sampling/esu.py b/pymnet/sampling/esu.py
index 842736b..a720c41 100644
--- a/pymnet/sampling/esu.py
+++ b/pymnet/sampling/esu.py
@@ -222,7 +222,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
     [1] "A Faster Algorithm for Detecting Network Motifs", S. Wernicke, WABI. Vol. 3692, pp. 165-177. Springer 2005.
     """
     if copy_network == True:
-        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,fullyInterconnected=False))
+        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,noEdge=network.noEdge,fullyInterconnected=False))
     else:
         network_copy = network
         
@@ -309,7 +309,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
             _extend_subgraph(network_copy,[start_node],[start_layer],check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth+1,p,results)
         if copy_network == True:
             for neighbor in list(network_copy[v]):
-                network_copy[neighbor][v] = 0
+                network_copy[neighbor][v] = network_copy.noEdge
 
 def _extend_subgraph(network,nodelist,layerlist,check_function,V_extension_nodes,V_extension_layers,numberings,v,req_nodelist_len,req_layerlist_len,depth,p,results):    
     # A helper function of sample_multilayer_subgraphs_esu, not intended for use by users    
-- 
2.43.0


From 95936b4adc9fb13e29f4db89eb20700627cf56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 66/76] fix: the dummy row of a graphlet correlation matrix
 replaced a row with the same name

---
 pymnet/graphlets/graphlet_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 871bb92..5ed47b5 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -218,7 +218,7 @@ def GCM(orbits):
     # add dummy vector
     n_rows = orbits.shape[0]
     n_cols = orbits.shape[1]
-    orbits = orbits.copy()
+    orbits = orbits.reset_index(drop=True) #the dummy row needs to have a new name
     orbits.loc[n_rows] = [1] * n_cols
     
     corr, p = spearmanr(orbits, axis=0)
-- 
2.43.0


From 204b2a0b7fff04e1413da39d410e2f81c927965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 67/76] fix: isomorphisms ignored elementary layers without
 nodes in the aspects that are not mapped

---
 pymnet/isomorphisms/isomcore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index a17d6ca..424ee94 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -114,6 +114,8 @@ class AuxiliaryGraphBuilder(object):
     def compare_labels(self,other):
         if self.colormap!=other.colormap:
             return False
+        if any(self.net.slices[a]!=other.net.slices[a] for a in self.nasp): #some elements might have no color
+            return False
         assert self.auxcolormap==other.auxcolormap #this should be true if comparable
         return True
 
@@ -129,7 +131,9 @@ class AuxiliaryGraphBuilder(object):
         # the colors for the colors for the nodes are determined in a way that there is canonical order for them
         # The self.colormap could be used directly for the invariant, but we want to make sure that the invariant
         # is valid even after it is serialized. To this end, we will sort the dict entries
-        return tuple(sorted(self.colormap.items()))
+        # The elementary layers that are in no node-layer do not have colors.
+        return (tuple(sorted(self.colormap.items())),
+                tuple(tuple(sorted(self.net.slices[a])) for a in self.nasp))
 
     def get_complete_invariant(self):
         return (self.complete_invariant_labels(),self.complete_invariant_structure())
-- 
2.43.0


From 4134e69620b97bb0929524c6edd16ccedddaee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 68/76] fix: overlap_degs took weights for numbers of links

---
 pymnet/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 74a4f68..93e8332 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -118,6 +118,9 @@ def overlap_degs(net):
     layers = net.slices[1]
     
     net0 = subnet(net, nodes, layers)
+    for layer in layers: #the links are counted by their weights below
+        for e in list(net0.A[layer].edges):
+            net0.A[layer][e[0], e[1]] = 1
     
     for n_l in range(len(layers), 0, -1):
         for layer_comb in itertools.combinations(layers, n_l):
-- 
2.43.0


From f0a365177c5d5fd57c1d72efc2b91bb754a27f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 69/76] fix: equal networks had different hashes when they were
 built in a different order

---
 pymnet/net.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 2b53885..91fee99 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -617,7 +617,11 @@ class MultilayerNetwork(object):
 
 
     def __hash__(self):
-        return pickle.dumps(self).__hash__()
+        #equal networks have equal hashes, in whichever order they were built
+        edges=((edge[0:-1:2],edge[1:-1:2],edge[-1]) for edge in self.edges)
+        if not self.directed:
+            edges=((frozenset((n1,n2)),weight) for n1,n2,weight in edges)
+        return hash((self.aspects,self.directed,self.fullyInterconnected,tuple(map(frozenset,self.slices)),frozenset(edges)))
 
     def get_supra_adjacency_matrix(self,includeCouplings=True):
         """Returns the supra-adjacency matrix and a list of node-layer pairs.
-- 
2.43.0


From 33428b4c5aee1f874936400382f99f6e56d5da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 70/76] fix: single_layer_conf did not terminate for networks
 whose no-edge value is not 0

---
 pymnet/models.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 1acd8d4..4360f25 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -83,7 +83,7 @@ def single_layer_conf(net,degs,degstype="distribution"):
 
         edgetoindex[(node1,node2)]=edgetoindex.get((node1,node2),[])+[2*s]
 
-        if net[node1,node2]!=0:
+        if net[node1,node2]!=net.noEdge:
             multiedges.add((node1,node2))
 
         if node1==node2:
@@ -102,9 +102,9 @@ def single_layer_conf(net,degs,degstype="distribution"):
                 n4,n5=sorted([c[3],c[4]])
                 if len(set(c))==len(c):
                     if (n2,n3) not in multiedges and (n4,n5) not in multiedges:
-                        if net[node,n2]==0 and net[node,n4]==0 and net[n3,n5]==0:                            
-                            net[n2,n3]=0
-                            net[n4,n5]=0
+                        if net[node,n2]==net.noEdge and net[node,n4]==net.noEdge and net[n3,n5]==net.noEdge:                            
+                            net[n2,n3]=net.noEdge
+                            net[n4,n5]=net.noEdge
                             net[node,n2]=1
                             net[node,n4]=1
                             net[n3,n5]=1
@@ -132,13 +132,13 @@ def single_layer_conf(net,degs,degstype="distribution"):
                 n5,n6=sorted([c[4],c[5]])
                 if len(set(c))==len(c):
                     if (n3,n4) not in multiedges and (n5,n6) not in multiedges:
-                        if net[n1,n3]==0 and net[n2,n4]==0 and net[n1,n5]==0 and net[n2,n6]==0:
+                        if net[n1,n3]==net.noEdge and net[n2,n4]==net.noEdge and net[n1,n5]==net.noEdge and net[n2,n6]==net.noEdge:
                             if len(edgetoindex[n1,n2])==2:
-                                net[n1,n2]=0
+                                net[n1,n2]=net.noEdge
                             assert net[n3,n4]==1
                             assert net[n5,n6]==1
-                            net[n3,n4]=0
-                            net[n5,n6]=0
+                            net[n3,n4]=net.noEdge
+                            net[n5,n6]=net.noEdge
                             net[n1,n3]=1
                             net[n2,n4]=1
                             net[n1,n5]=1
-- 
2.43.0


From e14aacb719c648460cb9d2aa5cf3521a0f4c872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 71/76] fix: Erdos-Renyi networks with very small edge
 probabilities raised ZeroDivisionError

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 4360f25..c483f5a 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -188,7 +188,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
             v,w=1,-1
             while (v < n):
                 r=random.random()
-                w=w+1+int(math.floor(math.log(1-r)/math.log(1-p)))
+                w=w+1+int(math.floor(math.log(1-r)/math.log1p(-p)))
                 while ((w >= v) and (v < n)):
                     w = w-v
                     v = v+1
-- 
2.43.0


From 1d7914f4180138eb20d7b6bf50ce57f4f1c86218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 72/76] fix: ba_total_degree left out the layers without links

---
 pymnet/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index c483f5a..95e3574 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -838,6 +838,9 @@ def ba_total_degree(n, ms, couplings=None):
     net = MultiplexNetwork(couplings=couplings)
     links = []
     
+    for layer in range(len(ms)):
+        net.add_layer(layer)
+
     for i in range(n):
         net.add_node(i)
         link_sets = []
-- 
2.43.0


From c54c3f251dcbba8313786649480c5876d7322499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 73/76] fix: gcc_aw_seplayers_adj returned no vector for
 networks of two layers

---
 pymnet/cc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 84a4189..ef5552a 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -740,8 +740,6 @@ def gcc_aw_seplayers_adj(net,w1=1./3.,w2=1./3.,w3=1./3.,returnCVector=False):
         c2=sum(c2_nom)/float(sum(c2_den))
     else:
         c2=0
-    if len(net.slices[1])==2:
-        return w1*c1+w2*c2
     if sum(c3_den)!=0:
         c3=sum(c3_nom)/float(sum(c3_den))
     else:
-- 
2.43.0


From 28304d134e34d0f3d22d8243fb6763cbdcb598c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 74/76] fix: dijkstra_mlayer_prune raised RecursionError for
 long paths

---
 pymnet/diagnostics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 93e8332..24e618b 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -208,10 +208,13 @@ def dijkstra_mlayer_prune(net,sources,aaspects):
 
 
     def build_path(otree,ntree,node):
-        for neigh in otree[node].iter_in():
-            ntree[neigh][node]=otree[neigh][node]
-            if ntree[neigh].deg_in()==0:
-                build_path(otree,ntree,neigh)
+        stack=[node] #not recursive, the paths can be long
+        while len(stack)>0:
+            node=stack.pop()
+            for neigh in otree[node].iter_in():
+                ntree[neigh][node]=otree[neigh][node]
+                if ntree[neigh].deg_in()==0:
+                    stack.append(neigh)
 
     nforest=MultilayerNetwork(aspects=net.aspects,
                              fullyInterconnected=False,
-- 
2.43.0


From d24df20f59fc83a66e066f538bc7baaafcd78e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:19 +0000
Subject: [PATCH 75/76] fix: elementary cycle counts depended on the weights of
 edges

---
 pymnet/cc.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index ef5552a..ea63fe9 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -2,7 +2,7 @@
 """
 
 import itertools
-from .net import MultiplexNetwork
+from .net import MultilayerNetwork,MultiplexNetwork
 from . import transforms
 
 def cc_num_den(net,node):
@@ -340,8 +340,13 @@ def elementary_cycles(net,node=None,layer=None,anet=None):
     sums=[0 for i in range(10)]
     nodes=list(net) if node==None else [node]
     if net.fullyInterconnected and (anet!=None or node==None):
-        if anet==None:
-            anet=transforms.aggregate(net,1)
+        if anet==None: #numbers of layers instead of weights
+            anet=MultilayerNetwork(aspects=0)
+            for n in net:
+                anet.add_node(n)
+            for l in net.iter_layers():
+                for n1,n2,w in net.A[l].edges:
+                    anet[n1,n2]+=1
         for n in nodes:
             sums=list(map(lambda x,y:x+y,sums,cc_cycle_vector_anet(net,n,layer=layer,anet=anet)))
     else:
@@ -447,7 +452,7 @@ def cc_cycle_vector_bf(net,node,layer,undefReturn=0.0):
         for i in intranet[node]:
             for dummy,layer2 in net[i,i,layer,:]:
                 if net[node,node,layer,layer2]!=net.noEdge:
-                    if net[node,i,layer2,layer2]:
+                    if net[node,i,layer2,layer2]!=net.noEdge:
                         acfac+=net[node,:,layer2,layer2].deg()-1
                     else:
                         acfac+=net[node,:,layer2,layer2].deg()
-- 
2.43.0


From 47b731a4b6a619cfa71d4e3fd29ed32b2b1d8970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 76/76] fix: Barrett's and Brodka's clustering coefficients
 took absent edges for edges of the weight noEdge

---
 pymnet/cc.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index ea63fe9..3f9ce93 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -5,6 +5,11 @@ import itertools
 from .net import MultilayerNetwork,MultiplexNetwork
 from . import transforms
 
+def _weight(net,*link):
+    """The weight of a link, which is zero if there is no link."""
+    w=net[link]
+    return w if w!=net.noEdge else 0
+
 def cc_num_den(net,node):
     degree=net[node].deg()
     t=0
@@ -180,7 +185,7 @@ def cc_barrett_optimized(net,node,anet,undefReturn=0.0):
                 else:
                     layers=net._nodeToLayers[h] #itertools.imap(lambda x:x[0],net._nodeToLayers[h])
                 for layer in layers:
-                    m+=max(net[node,h,layer],net[j,h,layer])
+                    m+=max(_weight(net,node,h,layer),_weight(net,j,h,layer))
                 den+=anet[node,j]*m
 
         if den!=0.0:
@@ -214,7 +219,7 @@ def cc_barrett(net,node,anet,undefReturn=0.0):
             for h in anet:
                 m=0
                 for layer in net.slices[1]:
-                    m+=max(net[node,h,layer],net[j,h,layer])
+                    m+=max(_weight(net,node,h,layer),_weight(net,j,h,layer))
                 den+=anet[node,j]*m
 
         if den!=0.0:
@@ -242,9 +247,9 @@ def cc_barrett_explicit(net,node,undefReturn=0.0):
                 for l in b:
                     t2=0.0
                     for m in b:
-                        t2+=net[j,h,m]
-                    t1+=t2*net[i,h,l]
-                nom+=net[i,j,k]*t1
+                        t2+=_weight(net,j,h,m)
+                    t1+=t2*_weight(net,i,h,l)
+                nom+=_weight(net,i,j,k)*t1
 
     den=0.0
     for j in n:
@@ -252,8 +257,8 @@ def cc_barrett_explicit(net,node,undefReturn=0.0):
             for k in b:
                 t1=0.0
                 for l in b:
-                    t1+=max(net[i,h,l],net[j,h,l])
-                den+=net[i,j,k]*t1
+                    t1+=max(_weight(net,i,h,l),_weight(net,j,h,l))
+                den+=_weight(net,i,j,k)*t1
 
     if den==0.0:
         return undefReturn
@@ -1489,11 +1494,11 @@ def lcc_brodka(net,node,anet=None,threshold=1,undefReturn=0.0):
         for layer in net.get_layers():
             for v in thneighborhood:
                 for h in thneighborhood:
-                    s+=net[h,v,layer]+net[v,h,layer]
+                    s+=_weight(net,h,v,layer)+_weight(net,v,h,layer)
     else:
         for v in thneighborhood:
             for h in thneighborhood:
-                s+=anet[h,v]+anet[v,h]
+                s+=_weight(anet,h,v)+_weight(anet,v,h)
 
     if len(thneighborhood)*len(net.get_layers())==0:
         return undefReturn
-- 
2.43.0

