From 58ab2470e6880b540389310f187d0dde851479dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:26 +0000
Subject: [PATCH 001/117] fix: use Graph.nodes, Graph.node and nodes_iter are
 gone from the supported networkx

---
 metaknowledge/diffusion.py       | 16 ++++-----
 metaknowledge/grantCollection.py |  6 ++--
 metaknowledge/graphHelpers.py    |  6 ++--
 metaknowledge/mkCollection.py    | 58 ++++++++++++++++----------------
 4 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 92f9bb4..b9ce40a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -105,7 +105,7 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                     if val not in workingGraph:
                         workingGraph.add_node(val, source = False, target = True, **RtExtras)
                     else:
-                        workingGraph.node[val]["target"] = True
+                        workingGraph.nodes[val]["target"] = True
                     targetCites = Rt.get('CR')
                     if targetCites:
                         for Rs in (sourceDict[c] for c in targetCites if c in sourceDict):
@@ -419,24 +419,24 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         except StopIteration:
             pass
         count = 0
-        for n in grph.nodes_iter():
+        for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
             if extraType is not None:
                 if extraKeys:
                     for key in extraKeys:
-                        grph.node[n][key] = 0
-                grph.node[n][diffusionLabel] = 0
+                        grph.nodes[n][key] = 0
+                grph.nodes[n][diffusionLabel] = 0
                 try:
                     for k, v in countsDict[n].items():
                         if k == 'TargetCount':
-                            grph.node[n][diffusionLabel] = v
+                            grph.nodes[n][diffusionLabel] = v
                         else:
                             if k:
-                                grph.node[n][k] = v
+                                grph.nodes[n][k] = v
                 except KeyError:
-                    grph.node[n][diffusionLabel] = 0
+                    grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.node[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 54fc347..8428c87 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -198,7 +198,7 @@ class GrantCollection(CollectionWithIDs):
                             else:
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
-                            grph.node[invest1[0]]['count'] += 1
+                            grph.nodes[invest1[0]]['count'] += 1
                         for invest2 in investList[i + 1:]:
                             if invest2[0] not in grph:
                                 if count:
@@ -206,7 +206,7 @@ class GrantCollection(CollectionWithIDs):
                                 else:
                                     grph.add_node(invest2[0], field = invest2[1])
                             elif count:
-                                grph.node[invest2[0]]['count'] += 1
+                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
@@ -221,7 +221,7 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             grph.add_node(invest1[0], field = invest1[1])
                     elif count:
-                        grph.node[invest1[0]]['count'] += 1
+                        grph.nodes[invest1[0]]['count'] += 1
             if _institutionLevel:
                 PBar.finish("Done making a co-institution network from {}".format(self))
             else:
diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3eb5389..9db19bb 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -439,9 +439,9 @@ def writeTnetFile(grph, name, modeNameString, weighted = False, sourceMode = Non
                 else:
                     eTimeString = ''
                 if weighted:
-                    f.write("{}{} {} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString], eDict[weightString]))
+                    f.write("{}{} {} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString], eDict[weightString]))
                 else:
-                    f.write("{}{} {}\n".format(eTimeString, grph.node[n1][nodeIndexString], grph.node[n2][nodeIndexString]))
+                    f.write("{}{} {}\n".format(eTimeString, grph.nodes[n1][nodeIndexString], grph.nodes[n2][nodeIndexString]))
         PBar.finish("Done writing tnet file '{}'".format(name))
 
 def getWeight(grph, nd1, nd2, weightString = "weight", returnType = int):
@@ -715,7 +715,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
     for addedNode, attribs in addedGraph.nodes(data = True):
         if incrementedNodeVal:
             try:
-                targetGraph.node[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
+                targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
                 targetGraph.add_node(addedNode, **attribs)
         else:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index a9afbbe..3c80257 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -907,21 +907,21 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                                 if nodeCount:
                                     try:
-                                        grph.node[node1]['count'] += 1
+                                        grph.nodes[node1]['count'] += 1
                                     except KeyError:
-                                        grph.node[node1]['count'] = 1
+                                        grph.nodes[node1]['count'] = 1
                                 if nodeAttribute:
                                     try:
-                                        currentAttrib = grph.node[node1][nodeAttribute]
+                                        currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.node[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                            grph.node[node1][nodeAttribute].append(nodeValue)
+                                            grph.nodes[node1][nodeAttribute].append(nodeValue)
                         elif len(tmplst) == 1:
                             if nodeCount:
                                 try:
-                                    grph.node[tmplst[0]]['count'] += 1
+                                    grph.nodes[tmplst[0]]['count'] += 1
                                 except KeyError:
                                     grph.add_node(tmplst[0], count = 1)
                             else:
@@ -929,12 +929,12 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(tmplst[0])
                             if nodeAttribute:
                                 try:
-                                    currentAttrib = grph.node[tmplst[0]][nodeAttribute]
+                                    currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.node[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                        grph.node[tmplst[0]][nodeAttribute].append(nodeValue)
+                                        grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
                         else:
                             pass
                     else:
@@ -944,7 +944,7 @@ class CollectionWithIDs(Collection):
                             nodeVal = str(contents)
                         if nodeCount:
                             try:
-                                grph.node[nodeVal]['count'] += 1
+                                grph.nodes[nodeVal]['count'] += 1
                             except KeyError:
                                 grph.add_node(nodeVal, count = 1)
                         else:
@@ -952,12 +952,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_node(nodeVal)
                         if nodeAttribute:
                             try:
-                                currentAttrib = grph.node[nodeVal][nodeAttribute]
+                                currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.node[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
-                                    grph.node[nodeVal][nodeAttribute].append(nodeValue)
+                                    grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
             if PBar:
                 PBar.finish("Done making a {} from {}".format(_networkTypeString, modes))
         return grph
@@ -1127,12 +1127,12 @@ class CollectionWithIDs(Collection):
                                 grph.add_edge(node1, node2)
                     if nodeCount:
                         try:
-                            grph.node[node1]['count'] += 1
+                            grph.nodes[node1]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node1]['count'] = 1
+                                grph.nodes[node1]['count'] = 1
                                 if recordType:
-                                    grph.node[node1]['type'] = tag1
+                                    grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
                                     grph.add_node(node1, type = tag1)
@@ -1145,22 +1145,22 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node1)
                         elif recordType:
-                            if 'type' not in grph.node[node1]:
-                                grph.node[node1]['type'] = tag1
+                            if 'type' not in grph.nodes[node1]:
+                                grph.nodes[node1]['type'] = tag1
 
                 for node2 in contents2:
                     if nodeCount:
                         try:
-                            grph.node[node2]['count'] += 1
+                            grph.nodes[node2]['count'] += 1
                         except KeyError:
                             try:
-                                grph.node[node2]['count'] = 1
+                                grph.nodes[node2]['count'] = 1
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                             except KeyError:
                                 grph.add_node(node2, count = 1)
                                 if recordType:
-                                    grph.node[node2]['type'] = tag2
+                                    grph.nodes[node2]['type'] = tag2
                     else:
                         if not grph.has_node(node2):
                             if recordType:
@@ -1168,8 +1168,8 @@ class CollectionWithIDs(Collection):
                             else:
                                 grph.add_node(node2)
                         elif recordType:
-                            if 'type' not in grph.node[node2]:
-                                grph.node[node2]['type'] = tag2
+                            if 'type' not in grph.nodes[node2]:
+                                grph.nodes[node2]['type'] = tag2
             if PBar:
                 PBar.finish("Done making a two mode network of " + tag1 + " and " + tag2)
         return grph
@@ -1281,12 +1281,12 @@ class CollectionWithIDs(Collection):
                                         grph.add_edge(node1, node2)
                         if nodeCount:
                             try:
-                                grph.node[node1]['count'] += 1
+                                grph.nodes[node1]['count'] += 1
                             except KeyError:
                                 try:
-                                    grph.node[node1]['count'] = 1
+                                    grph.nodes[node1]['count'] = 1
                                     if recordType:
-                                        grph.node[node1]['type'] = vlst1[0]
+                                        grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
                                         grph.add_node(node1, type = vlst1[0])
@@ -1300,9 +1300,9 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.node[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type'] += vlst1[0]
                                 except KeyError:
-                                    grph.node[node1]['type'] = vlst1[0]
+                                    grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
                 PBar.finish("Done making a {}-mode network of: {}".format(len(tags), ', '.join(tags)))
         return grph
-- 
2.43.0


From 3da5c999bc84b3b566cafb4b047e89d7ef7a35ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 002/117] fix: mergeGraphs without incrementedEdgeVal raised
 AttributeError

---
 metaknowledge/graphHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 9db19bb..3e04123 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -728,7 +728,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             except KeyError:
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
         else:
-            if not targetGraph.Graph.has_edge(edgeNode1, edgeNode2):
+            if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
-- 
2.43.0


From aef3650a96de40f4c0cf3fc6454ca4d624092e7e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 003/117] fix: two and multi mode networks did not count a
 node's first record when it had no partner

---
 metaknowledge/mkCollection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 3c80257..cfd4603 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1135,9 +1135,9 @@ class CollectionWithIDs(Collection):
                                     grph.nodes[node1]['type'] = tag1
                             except KeyError:
                                 if recordType:
-                                    grph.add_node(node1, type = tag1)
+                                    grph.add_node(node1, type = tag1, count = 1)
                                 else:
-                                    grph.add_node(node1)
+                                    grph.add_node(node1, count = 1)
                     else:
                         if not grph.has_node(node1):
                             if recordType:
@@ -1289,9 +1289,9 @@ class CollectionWithIDs(Collection):
                                         grph.nodes[node1]['type'] = vlst1[0]
                                 except KeyError:
                                     if recordType:
-                                        grph.add_node(node1, type = vlst1[0])
+                                        grph.add_node(node1, type = vlst1[0], count = 1)
                                     else:
-                                        grph.add_node(node1)
+                                        grph.add_node(node1, count = 1)
                         else:
                             if not grph.has_node(node1):
                                 if recordType:
-- 
2.43.0


From be4b22b436db6a1a1bc080eafadc7c2e728c8b48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 004/117] fix: networkMultiMode without nodeCount repeated the
 tag in 'type' at every occurrence

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index cfd4603..ff56303 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1300,7 +1300,7 @@ class CollectionWithIDs(Collection):
                                     grph.add_node(node1)
                             elif recordType:
                                 try:
-                                    grph.nodes[node1]['type'] += vlst1[0]
+                                    grph.nodes[node1]['type']
                                 except KeyError:
                                     grph.nodes[node1]['type'] = vlst1[0]
             if PBar:
-- 
2.43.0


From cdbc877b4e497ae9464dd06d1595e978a3ea1561 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 005/117] fix: edgeAttribute raised or split strings in the
 multi level and multi mode networks

---
 metaknowledge/mkCollection.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index ff56303..7a32caa 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -862,7 +862,10 @@ class CollectionWithIDs(Collection):
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
                 if edgeAttribute:
-                    edgeVals = [str(v) for v in R.get(edgeAttribute, [])]
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
+                    edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
                     nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
                 contents = []
@@ -885,10 +888,7 @@ class CollectionWithIDs(Collection):
                                         for edgeVal in edgeVals:
                                             if grph.has_edge(node1, node2, key = edgeVal):
                                                 if edgeWeight:
-                                                    for i, a in grph.edges[node1, node2].items():
-                                                        if a['key'] == edgeVal:
-                                                            grph[node1][node2][i]['weight'] += 1
-                                                            break
+                                                    grph.edges[node1, node2, edgeVal]['weight'] += 1
                                             else:
                                                 if edgeWeight:
                                                     attrDict = {'key' : edgeVal, 'weight' : 1}
@@ -1238,6 +1238,10 @@ class CollectionWithIDs(Collection):
                 if PBar:
                     count += 1
                     PBar.updateVal(count / len(self), "Analyzing: " + str(R))
+                if edgeAttribute is not None:
+                    edgeVals = R.get(edgeAttribute, [])
+                    if not isinstance(edgeVals, list):
+                        edgeVals = [edgeVals]
                 contents = []
                 for t in tags:
                     tmpVal = R.get(t)
@@ -1261,10 +1265,7 @@ class CollectionWithIDs(Collection):
                                     for edgeVal in edgeVals:
                                         if grph.has_edge(node1, node2, key = edgeVal):
                                             if edgeWeight:
-                                                for i, a in grph.edges[node1, node2].items():
-                                                    if a['key'] == edgeVal:
-                                                        grph[node1][node2][i]['weight'] += 1
-                                                        break
+                                                grph.edges[node1, node2, edgeVal]['weight'] += 1
                                         else:
                                             if edgeWeight:
                                                 attrDict = {'key' : edgeVal, 'weight' : 1}
-- 
2.43.0


From 10cb367a6a5e6db4d5b5344fd03a19c5f79f41be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 006/117] fix: nodes of a one mode or multi level network
 shared their nodeAttribute list

---
 metaknowledge/mkCollection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 7a32caa..5057ff6 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -867,7 +867,10 @@ class CollectionWithIDs(Collection):
                         edgeVals = [edgeVals]
                     edgeVals = [str(v) for v in edgeVals]
                 if nodeAttribute:
-                    nodeVals = [str(v) for v in R.get(nodeAttribute, [])]
+                    nodeVals = R.get(nodeAttribute, [])
+                    if not isinstance(nodeVals, list):
+                        nodeVals = [nodeVals]
+                    nodeVals = [str(v) for v in nodeVals]
                 contents = []
                 for attr in modes:
                     tmpContents = R.get(attr, [])
@@ -914,7 +917,7 @@ class CollectionWithIDs(Collection):
                                     try:
                                         currentAttrib = grph.nodes[node1][nodeAttribute]
                                     except KeyError:
-                                        grph.nodes[node1][nodeAttribute] = nodeVals
+                                        grph.nodes[node1][nodeAttribute] = nodeVals.copy()
                                     else:
                                         for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                             grph.nodes[node1][nodeAttribute].append(nodeValue)
@@ -931,7 +934,7 @@ class CollectionWithIDs(Collection):
                                 try:
                                     currentAttrib = grph.nodes[tmplst[0]][nodeAttribute]
                                 except KeyError:
-                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals
+                                    grph.nodes[tmplst[0]][nodeAttribute] = nodeVals.copy()
                                 else:
                                     for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                         grph.nodes[tmplst[0]][nodeAttribute].append(nodeValue)
@@ -954,7 +957,7 @@ class CollectionWithIDs(Collection):
                             try:
                                 currentAttrib = grph.nodes[nodeVal][nodeAttribute]
                             except KeyError:
-                                grph.nodes[nodeVal][nodeAttribute] = nodeVals
+                                grph.nodes[nodeVal][nodeAttribute] = nodeVals.copy()
                             else:
                                 for nodeValue in (n for n in nodeVals if n not in currentAttrib):
                                     grph.nodes[nodeVal][nodeAttribute].append(nodeValue)
-- 
2.43.0


From 85c8a5413468463ad6abf16839f0cc43a0e2a1c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 007/117] fix: binary operators dropped the errors of their
 left operand

---
 metaknowledge/mkCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 5057ff6..0bbe0ce 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -237,6 +237,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection | other._collection, name = '{} | {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -247,6 +248,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection & other._collection, name = '{} & {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -257,6 +259,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection - other._collection, name = '{} - {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
@@ -267,6 +270,7 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             retCollection = type(self)(self._collection ^ other._collection, name = '{} ^ {}'.format(self.name, other.name), quietStart = True)
             if other.bad or self.bad:
                 retCollection.bad = True
+                retCollection.errors.update(self.errors)
                 retCollection.errors.update(other.errors)
             return retCollection
 
-- 
2.43.0


From fa9f41f412d92c1db2edbac01ca513270b2ebcab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 008/117] fix: a collection made from an iterator was always
 empty

---
 metaknowledge/grantCollection.py  | 3 ++-
 metaknowledge/recordCollection.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 8428c87..1d4b5b6 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -123,10 +123,11 @@ class GrantCollection(CollectionWithIDs):
                 PBar.updateVal(.5, "GrantCollection started from {}".format(type(inGrants).__name__))
                 if not name:
                     name = "Grants-from-a-{}".format(type(inGrants).__name__)
+                grantsSet = set()
                 for G in inGrants:
                     if not isinstance(G, Grant):
                         raise GrantCollectionException("A GrantCollection cannot be created from a Iterable containing {}".format(G))
-                grantsSet = set(inGrants)
+                    grantsSet.add(G)
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index af0e417..213ea95 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -151,10 +151,11 @@ class RecordCollection(CollectionWithIDs):
                     raise RCTypeError("'{}' is not a path to a directory or file. Strings cannot be used to initialize RecordCollections".format(inCollection))
             elif isinstance(inCollection, collections.abc.Iterable):
                 PBar.updateVal(.5, "RecordCollection from an iterable started")
+                recordsSet = set()
                 for R in inCollection:
                     if not isinstance(R, Record):
                         raise RCTypeError("RecordCollections can only contain Records, '{}' is not a valid part of an input iterable.".format(R))
-                recordsSet = set(inCollection)
+                    recordsSet.add(R)
             else:
                 raise RCTypeError("A RecordCollection cannot be created from {}.".format(inCollection))
             CollectionWithIDs.__init__(self, recordsSet, Record, recordTypes, name, bad, errors)
-- 
2.43.0


From f232afd2839aa8b0cd177c88d37fdfc8303f2a85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 009/117] fix: writeFile wrote no header for collections made
 by operators or from an iterable

---
 metaknowledge/recordCollection.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 213ea95..8d76e52 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -223,7 +223,8 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `None`, if given the output file will written to _fanme_, if `None` the `RecordCollection`'s name's first 200 characters are used with the suffix .isi
         """
-        if len(self._collectedTypes) < 2:
+        recordTypes = {type(R).__name__ for R in self}
+        if len(recordTypes) < 2:
             recEncoding = self.peek().encoding()
         else:
             recEncoding = 'utf-8'
@@ -231,17 +232,17 @@ class RecordCollection(CollectionWithIDs):
             f = open(fname, mode = 'w', encoding = recEncoding)
         else:
             f = open(self.name[:200] + '.txt', mode = 'w', encoding = recEncoding)
-        if self._collectedTypes == {'WOSRecord'}:
+        if recordTypes == {'WOSRecord'}:
             f.write("\ufeffFN Thomson Reuters Web of Science\u2122\n")
             f.write("VR 1.0\n")
-        elif self._collectedTypes == {'MedlineRecord'}:
+        elif recordTypes == {'MedlineRecord'}:
             f.write('\n')
-        elif self._collectedTypes == {'ScopusRecord'}:
+        elif recordTypes == {'ScopusRecord'}:
             f.write("\ufeff{}\n".format(','.join(scopusHeader)))
         for R in self._collection:
             R.writeRecord(f)
             f.write('\n')
-        if self._collectedTypes == {'WOSRecord'}:
+        if recordTypes == {'WOSRecord'}:
             f.write('EF')
         f.close()
 
-- 
2.43.0


From b8ec17f047472551c9486a7d8a1babb078354746 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:31 +0000
Subject: [PATCH 010/117] fix: cached GrantCollections that are not made from a
 directory raised NameError

---
 metaknowledge/grantCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 1d4b5b6..ff7a032 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -31,6 +31,8 @@ class GrantCollection(CollectionWithIDs):
             errors = {}
             name = name
             grantTypes = set()
+            if cached:
+                cacheName = None
 
             if inGrants is None:
                 PBar.updateVal(.5, "Empty GrantCollection created")
@@ -131,7 +133,7 @@ class GrantCollection(CollectionWithIDs):
             else:
                 raise GrantCollectionException("A GrantCollection cannot be created from {}".format(inGrants))
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
-            if cached:
+            if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
                 self._createCache(cacheName, flist, name, extension)
             try:
-- 
2.43.0


From ac4a4805a4c41fd8dcdd88a9d130e056e859cbae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:31 +0000
Subject: [PATCH 011/117] fix: a truncated or damaged directory cache made
 every later load raise

---
 metaknowledge/mkCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 0bbe0ce..ad4091f 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -372,7 +372,8 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             with open(cacheFile, 'rb') as f:
                 try:
                     dat, RC = pickle.load(f)
-                except pickle.PickleError as e:
+                except Exception as e:
+                    #A truncated or damaged pickle can raise nearly anything
                     raise cacheError("pickle Error: {}".format(e))
             if dat["metaknowledge Version"] != __version__:
                 raise cacheError("mk version mismatch")
-- 
2.43.0


From 2c05ee286f03851728d981b76abc82fbbbf7183e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:31 +0000
Subject: [PATCH 012/117] fix: an unpickled Citation kept the hash of the
 process that pickled it

---
 metaknowledge/citation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 13557e8..58bceff 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -180,6 +180,13 @@ class Citation(collections.abc.Hashable):
         except AttributeError:
             self._hash = hash(self.ID())
             return self._hash
+
+    def __getstate__(self):
+        #The hash of a string is only valid in the current process
+        d = self.__dict__.copy()
+        d.pop('_hash', None)
+        return d
+
     #@profile
     def __eq__(self, other):
         """
-- 
2.43.0


From feac22613e06b784481ccc26cf839f5a26522e6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:12 +0000
Subject: [PATCH 013/117] fix: a WOS continuation line before any tag silently
 ended the reading of the file

---
 metaknowledge/WOS/recordWOS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index a26acf3..8640a25 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -182,6 +182,8 @@ def recordParser(paper):
             #Field tag longer than 2 or offset in some way
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
         elif '   ' in l[1][:3]: #the string is three spaces in row
+            if not tagList:
+                raise BadWOSFile("Continuation line without a field tag on line " + str(l[0]) + " : " + l[1])
             #No new tag append line to current tag (last tag in tagList)
             tagList[-1][1].append(l[1][3:-1])
         else:
-- 
2.43.0


From a70a1d64492e0ff8c82ff5f4bb801f7078a3d5ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:12 +0000
Subject: [PATCH 014/117] fix: a WOS record dropped because of a malformed line
 was not reported as an error

---
 metaknowledge/WOS/wosHandlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/WOS/wosHandlers.py b/metaknowledge/WOS/wosHandlers.py
index 69c7da5..1452d75 100644
--- a/metaknowledge/WOS/wosHandlers.py
+++ b/metaknowledge/WOS/wosHandlers.py
@@ -73,6 +73,7 @@ def wosParser(isifile):
                     try:
                         plst.add(WOSRecord(itertools.chain([line], f), sFile = isifile, sLine = line[0]))
                     except BadWOSFile as e:
+                        error = e
                         try:
                             s = f.__next__()[1]
                             while s[:2] != 'ER':
-- 
2.43.0


From 135d313da72e63d1df9284e1171b5ed4f2cce259 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 015/117] fix: a short line in a Medline file raised IndexError
 instead of making the record bad

---
 metaknowledge/medline/recordMedline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index ca077af..c937963 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -108,7 +108,7 @@ def medlineRecordParser(record):
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
         contents = line[6:-1]
-        if tmptag.isalpha() and line[4] == '-':
+        if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
                 mostRecentAuthor = contents
-- 
2.43.0


From 3eb53e1ed4e9f8f35a9023ead5475dd294a47dc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 016/117] fix: writing a Medline record lost the affiliations
 that are given before its first author

---
 metaknowledge/medline/recordMedline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index c937963..c240c62 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -83,6 +83,10 @@ class MedlineRecord(ExtendedRecord):
                 else:
                     for v in value:
                         f.write("{0}{1}- {2}\n".format(tag, ' ' * (4 - len(tag)), v.replace('\n', '\n      ')))
+                        if tag == 'PMID':
+                            #Those found before any author
+                            for authVal in authTags.pop('None', []):
+                                f.write(authVal)
                         if tag == 'AU':
                             for authVal in authTags.get(v,[]):
                                 f.write(authVal)
-- 
2.43.0


From a0101e9cb8ec6d4ab97aae2ebc0dcc3a17494af3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 017/117] fix: reading an unknown tag of a Medline or Scopus
 record raised KeyError although the tag is in the record

---
 metaknowledge/medline/recordMedline.py | 2 +-
 metaknowledge/scopus/recordScopus.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index c240c62..76ea0fa 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -56,7 +56,7 @@ class MedlineRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return medlineTagToFunc[tag]
+        return medlineTagToFunc.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         #This will usually raise a key error that needs to be caught higher up
diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a349075..11d3656 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -93,7 +93,7 @@ class ScopusRecord(ExtendedRecord):
 
     @staticmethod
     def tagProcessingFunc(tag):
-        return scopusTagToFunction[tag]
+        return scopusTagToFunction.get(tag, lambda x : x)
 
     def specialFuncs(self, key):
         return scopusSpecialTagToFunc[key](self)
-- 
2.43.0


From 80f6ee06697924ba612f3dd9f5cf17836f00984b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 018/117] fix: quoted Scopus cells that start with a comma, |
 or $ were joined to the cells before them

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 11d3656..97a711d 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -164,7 +164,7 @@ class ScopusRecord(ExtendedRecord):
             return ret
 
 firstQuotingRegex = re.compile(r'("")*"([^"]|"$)')
-innerQuotingRegex = re.compile(r'("")*"([^"|$])')
+innerQuotingRegex = re.compile(r'("")*"([^"]|$)')
 
 def scopusRecordParser(record, header = None):
     """The parser [ScopusRecords](../classes/ScopusRecord.html#metaknowledge.scopus.ScopusRecord) use. This takes a line from [scopusParser()](#metaknowledge.scopus.scopusHandlers.scopusParser) and parses it as a part of the creation of a `ScopusRecord`.
-- 
2.43.0


From 1c5aeccb34759b388eef71169be0df09b8b327c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 019/117] fix: empty quoted Scopus cells, as written by
 writeFile, were read as fields

---
 metaknowledge/scopus/recordScopus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index 97a711d..dd1e48f 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -215,7 +215,9 @@ def scopusRecordParser(record, header = None):
                     valString = currentVal[1:-1]
                 except ValueError:
                     valString = currentVal[1:-1]
-            tagDict[key] = valString
+            #writeRecord() quotes the missing values too
+            if valString != '':
+                tagDict[key] = valString
         else:
             tagDict[key] = currentVal
     return tagDict
-- 
2.43.0


From 48bd0d75828609b9612934449dd56a78ca86fc01 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 020/117] fix: the last character of a Scopus file without a
 final newline was dropped

---
 metaknowledge/scopus/recordScopus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index dd1e48f..a108e19 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -185,7 +185,9 @@ def scopusRecordParser(record, header = None):
     """
     if header is None:
         header = scopusHeader
-    splitRecord = record[:-1].split(',')
+    if record.endswith('\n'):
+        record = record[:-1]
+    splitRecord = record.split(',')
     tagDict = {}
     quoted = False
     for key in reversed(header):
-- 
2.43.0


From b7bf78a1654fe2e83d0e4128d028ed188e075c5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 021/117] fix: a damaged ProQuest file raised KeyError instead
 of being reported as an error

---
 metaknowledge/proquest/proQuestHandlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/proQuestHandlers.py b/metaknowledge/proquest/proQuestHandlers.py
index b32a70c..6250845 100644
--- a/metaknowledge/proquest/proQuestHandlers.py
+++ b/metaknowledge/proquest/proQuestHandlers.py
@@ -94,7 +94,7 @@ def proQuestParser(proFile):
                     #Parsing failed
                     error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}. It is likely that the seperators between the records are incorrect".format(proFile, lineNum))
                     raise StopIteration
-    except (UnicodeDecodeError, StopIteration, ValueError) as e:
+    except (UnicodeDecodeError, StopIteration, ValueError, KeyError) as e:
         if error is None:
             error = BadProQuestFile("The file '{}' has parts of it that are unparsable starting at line: {}.\nThe error was: '{}'".format(proFile, lineNum, e))
     return recSet, error
-- 
2.43.0


From 6f7311ee90e82780849c92977c7c1f4e947d6711 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:06 +0000
Subject: [PATCH 022/117] fix: authorsFull of every ProQuest record was the
 string 'Author'

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index b694d22..e5a9b47 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -8,7 +8,7 @@ proQuestSpecialTagToFunc = {
     'keywords' : lambda R : R['Identifier / keyword'],
     'abstract' : lambda R : R['Abstract'],
     #'citations' : '',
-    'authorsFull' : lambda R : 'Author',
+    'authorsFull' : lambda R : R['Author'],
     #'volume' : '',
     'year' : lambda R : R['Degree date'],
     #'j9' : '',
-- 
2.43.0


From 9dbc45f44a628df5ff718f8e61996171b7a9916f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:34 +0000
Subject: [PATCH 023/117] fix: every csv grant file was reported as bad, a
 generator may not raise StopIteration

---
 metaknowledge/grants/baseGrant.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c0c443d..c2e8470 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -119,13 +119,10 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     'currentLineString' : '',
     }
     def readerWithSideEffects(target, datDict):
-        while True:
-            datDict['currentLineNum'], datDict['currentLineString'] = next(target)
+        for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
-    readerIter = reader.__iter__()
-    while True:
-        row = next(readerIter)
+    for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
 
 class FallbackGrant(Grant):
-- 
2.43.0


From 52ca0ee23c0151876a894b212bfe7fd5c97ab08a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:34 +0000
Subject: [PATCH 024/117] fix: getInvestigators and getInstitutions added tags
 to their caller's list

---
 metaknowledge/grants/nsercGrant.py | 4 ++++
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 75ff383..849f34a 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -38,6 +38,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'name-' in k.lower() and k not in tags:
                 tags.append(k)
@@ -56,6 +58,8 @@ class NSERCGrant(Grant):
             tags = []
         elif isinstance(tags, str):
             tags = [tags]
+        else:
+            tags = list(tags)
         for k in self.keys():
             if 'institution' in k.lower() and k not in tags:
                 tags.append(k)
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 0a4953e..fcd1399 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -33,7 +33,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Investigator', tags]
         else:
-            tags.append('Investigator')
+            tags = list(tags) + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -50,7 +50,7 @@ class NSFGrant(Grant):
         elif isinstance(tags, str):
             tags = ['Institution', tags]
         else:
-            tags.append('Institution')
+            tags = list(tags) + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From 2158545fbeb5d17f2d81393bf9c02be7f5fe4096 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:21 +0000
Subject: [PATCH 025/117] fix: the ids of grants without their own identifier
 were different in every process

---
 metaknowledge/grants/baseGrant.py  | 3 ++-
 metaknowledge/grants/cihrGrant.py  | 3 ++-
 metaknowledge/grants/nsercGrant.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index c2e8470..7710f97 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -5,6 +5,7 @@ except ImportError:
     collections.abc = collections
 import csv
 import os
+import zlib
 
 from ..mkRecord import Record
 from ..mkExceptions import BadGrant
@@ -133,7 +134,7 @@ class FallbackGrant(Grant):
     def __init__(self, original, grantdDict, sFile = "", sLine = 0):
         #We do not known anything about the structure of the grant so there is nothing to check about causing an error
         #The id needs to be unique so hashing the original will always give us that
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, zlib.crc32(original.encode('utf-8')))
         Grant.__init__(self, original, grantdDict, idValue, False, None, sFile = sFile, sLine = sLine)
 
 def isFallbackGrantFile(fileName, useFileName = True, encoding = 'latin-1', dialect = 'excel'):
diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 7ff9f09..230128c 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -1,5 +1,6 @@
 import os.path
 import csv
+import zlib
 
 from .baseGrant import Grant, csvAndLinesReader
 from ..mkExceptions import BadGrant
@@ -13,7 +14,7 @@ class CIHRGrant(Grant):
             error = BadGrant("Missing 'PI Names'")
 
         #Source file - line number - 6 character long numeric hash
-        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, hash(original))
+        idValue = "{}-l:{}-{:0=20}".format(os.path.basename(sFile), sLine, zlib.crc32(original.encode('utf-8')))
 
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
 
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 849f34a..453e401 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -1,4 +1,5 @@
 import csv
+import zlib
 import os.path
 
 from .baseGrant import Grant, csvAndLinesReader
@@ -11,7 +12,7 @@ class NSERCGrant(Grant):
         if grantdDict.get('Cle', '') == '':
             bad = True
             error = BadGrant("Missing 'CLE'")
-            idValue = "NSERC:{}".format(hash(original))
+            idValue = "NSERC:{}".format(zlib.crc32(original.encode('utf-8')))
         else:
             idValue = "NSERC:{}".format(grantdDict.get('Cle', ''))
         Grant.__init__(self, original, grantdDict, idValue, bad, error, sFile = sFile, sLine = sLine)
-- 
2.43.0


From ec7a9729ab521a2aa6d9c6c0ca558393d4afcd9f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 026/117] fix: networkCoAuthor counted an author again for
 every author before them and shared citation profiles

---
 metaknowledge/recordCollection.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 8d76e52..037f6b1 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1028,9 +1028,11 @@ class RecordCollection(CollectionWithIDs):
                     detailedInfo = attributeMaker(R)
                     if citeProfile:
                         citesLst = R.get('citations', [])
-                    for i, auth1 in enumerate(authsList):
+                    for auth1 in authsList:
                         if auth1 not in grph:
                             grph.add_node(auth1, **detailedInfo.copy())
+                            if citeProfile:
+                                grph.nodes[auth1]['citeProfile'] = {}
                         elif count:
                             grph.nodes[auth1]['count'] += 1
                         if citeProfile:
@@ -1039,17 +1041,8 @@ class RecordCollection(CollectionWithIDs):
                                     grph.nodes[auth1]['citeProfile'][c] += 1
                                 except KeyError:
                                     grph.nodes[auth1]['citeProfile'][c] = 1
+                    for i, auth1 in enumerate(authsList):
                         for auth2 in authsList[i + 1:]:
-                            if auth2 not in grph:
-                                grph.add_node(auth2, **detailedInfo.copy())
-                            elif count:
-                                grph.nodes[auth2]['count'] += 1
-                            if citeProfile:
-                                for c in citesLst:
-                                    try:
-                                        grph.nodes[auth2]['citeProfile'][c] += 1
-                                    except KeyError:
-                                        grph.nodes[auth2]['citeProfile'][c] = 1
                             if grph.has_edge(auth1, auth2) and weighted:
                                 grph.edges[auth1, auth2]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From e79c5bb16d365137340d226ee583719c87062a2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 027/117] fix: networkCoInvestigator counted an investigator
 again for every one before them

---
 metaknowledge/grantCollection.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index ff7a032..55fc960 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -194,7 +194,7 @@ class GrantCollection(CollectionWithIDs):
                 else:
                     investList = G.getInvestigators(tags = targetTags, seperator = tagSeperator, _getTag = True)
                 if len(investList) > 1:
-                    for i, invest1 in enumerate(investList):
+                    for invest1 in investList:
                         if invest1[0] not in grph:
                             if count:
                                 grph.add_node(invest1[0], count = 1, field = invest1[1])
@@ -202,14 +202,8 @@ class GrantCollection(CollectionWithIDs):
                                 grph.add_node(invest1[0], field = invest1[1])
                         elif count:
                             grph.nodes[invest1[0]]['count'] += 1
+                    for i, invest1 in enumerate(investList):
                         for invest2 in investList[i + 1:]:
-                            if invest2[0] not in grph:
-                                if count:
-                                    grph.add_node(invest2[0], count = 1, field = invest2[1])
-                                else:
-                                    grph.add_node(invest2[0], field = invest2[1])
-                            elif count:
-                                grph.nodes[invest2[0]]['count'] += 1
                             if grph.has_edge(invest1[0], invest2[0]) and weighted:
                                 grph.edges[invest1[0], invest2[0]]['weight'] += 1
                             elif weighted:
-- 
2.43.0


From 7f4c823319031abf594d19c92e6b9011153be966 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 028/117] fix: networkCitation counted a Record that is also
 cited only if it was read before its citers

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 037f6b1..81e7f5d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1622,6 +1622,8 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         if hID not in grph:
             nodeName, nodeDat = makeNodeTuple(headNd, hID, nodeInfo, fullInfo, nodeType, count, coreCitesDict, coreValues, detailedValues, addCR)
             grph.add_node(nodeName, **nodeDat)
+        elif count:
+            grph.nodes[hID]['count'] += 1
     else:
         hID = None
     idList = []
-- 
2.43.0


From ab24bcaf4bc23ef542cc998d062ce08ac9bab3bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 029/117] fix: networkCitation ignored recordToCite or raised
 for unweighted and author, journal or year networks

---
 metaknowledge/recordCollection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 81e7f5d..23aae46 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1666,8 +1666,10 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                             grph.add_edge(hID, nID, weight=1, yearDiff=yearDiff)
                         else:
                             grph.add_edge(nID, hID, weight=1, yearDiff=yearDiff)
-                elif nID not in grph[hID]:
+                elif recordToCite:
                     addedEdges.append((hID, nID))
+                else:
+                    addedEdges.append((nID, hID))
 
             elif weighted:
                 try:
@@ -1679,9 +1681,11 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
                     if recordToCite:
                         grph.add_edge(hID, nID, weight=1)
                     else:
-                        grph.add_edge(hID, nID, weight=1)
-            elif nID not in grph[hID]:
-                addedEdges.append((hID, nID, {yearDiff: yearDiff}))
+                        grph.add_edge(nID, hID, weight=1)
+            elif recordToCite:
+                addedEdges.append((hID, nID))
+            else:
+                addedEdges.append((nID, hID))
     elif len(idList) > 1:
         for i, outerID in enumerate(idList):
             for innerID in idList[i + 1:]:
-- 
2.43.0


From 57d47bbf0b4e480e17b3ba59c7bc03ea45df317d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 030/117] fix: writeEdgeList without extraInfo and
 allSameAttribute raised

---
 metaknowledge/graphHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 3e04123..68067a9 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -213,7 +213,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
         if extraInfo:
             csvHeader = []
             if allSameAttribute:
-                csvHeader = ['Source'] +  ['Target'] + list(grph.edges(data = True).__next__()[2].keys())
+                csvHeader = ['Source'] +  ['Target'] + list(next(iter(grph.edges(data = True)))[2].keys())
             else:
                 extraAttribs = set()
                 for eTuple in grph.edges(data = True):
@@ -253,6 +253,7 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 count += 1
                 if count % 1000 == 0:
                     PBar.updateVal(count / eMax * .90 + .10, "Writing edge: '{}' to '{}'".format(e[0], e[1]))
+                eDict = {}
                 eDict['Source'] = e[0]
                 eDict['Target'] = e[1]
                 try:
@@ -305,7 +306,7 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
     else:
         csvHeader = []
         if allSameAttribute:
-            csvHeader = ['ID'] + list(grph.nodes(data = True).__next__()[1].keys())
+            csvHeader = ['ID'] + list(next(iter(grph.nodes(data = True)))[1].keys())
         else:
             extraAttribs = set()
             for n, attribs in grph.nodes(data = True):
-- 
2.43.0


From fd482b4b50a9ee6e1dfe3a3ee22e8833acb326a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 031/117] fix: rankedSeries ignored greatestFirst in pandasMode

---
 metaknowledge/mkCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index ad4091f..fceda96 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -660,6 +660,8 @@ class CollectionWithIDs(Collection):
                         retList.append((valString, currentRank))
             if not greatestFirst:
                 retList.reverse()
+                for column in panDict.values():
+                    column.reverse()
             if pandasMode:
                 return panDict
             else:
-- 
2.43.0


From ff25b037a13a90f37360f51cd18bf0994b642e5d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 032/117] fix: writeCSV, makeDict and forNLP modified the lists
 given to them

---
 metaknowledge/recordCollection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 23aae46..2cca800 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -295,10 +295,12 @@ class RecordCollection(CollectionWithIDs):
         """
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
+        firstTags = list(firstTags)
         for i in range(len(firstTags)):
             if firstTags[i] in fullToTagDict:
                 firstTags[i] = fullToTagDict[firstTags[i]]
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
@@ -655,6 +657,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
+            extraColumns = list(extraColumns)
             for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
                 if builtinColumn in extraColumns:
                     extraColumns.remove(builtinColumn)
@@ -723,6 +726,7 @@ class RecordCollection(CollectionWithIDs):
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
         if onlyTheseTags:
+            onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
-- 
2.43.0


From 29179d05ceeaaae62a9a4356894bd1e3d04b912d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 033/117] fix: forNLP and forBurst kept every second of
 consecutive dropped words

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 2cca800..a113770 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -498,7 +498,7 @@ class RecordCollection(CollectionWithIDs):
             if dropList is not None:
                 inString = " {} ".format(inString)
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in inString:
+                    while dropS in inString:
                         inString = inString.replace(dropS, ' ')
                 inString = inString[1:-1]
             if removeWhitespace:
@@ -621,7 +621,7 @@ class RecordCollection(CollectionWithIDs):
                 #incase a drop string is on the edge
                 abst = " {} ".format(abst.replace('\n', ' '))
                 for dropS in (" {} ".format(s) for s in dropList):
-                    if dropS in abst:
+                    while dropS in abst:
                         abst = abst.replace(dropS, ' ')
                 abst = abst[1:-1]
             if removeWhitespace:
-- 
2.43.0


From 2cb050ce985ab40e87ed6b1d865c5bbabc60c6dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 034/117] fix: citeFilter stopped at the first citation that
 lacks the searched field

---
 metaknowledge/recordCollection.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a113770..5f149c3 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1550,7 +1550,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.author.upper():
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'journal':
                     for cite in R.get('citations'):
@@ -1558,7 +1558,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.journal:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'year':
                     for cite in R.get('citations'):
@@ -1566,7 +1566,7 @@ class RecordCollection(CollectionWithIDs):
                             if int(keyString) == cite.year:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'V':
                     for cite in R.get('citations'):
@@ -1574,7 +1574,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.V:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'P':
                     for cite in R.get('citations'):
@@ -1582,7 +1582,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.P:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'misc':
                     for cite in R.get('citations'):
@@ -1590,7 +1590,7 @@ class RecordCollection(CollectionWithIDs):
                             if keyString.upper() in cite.misc:
                                 retRecs.append(R)
                                 break
-                        except AttributeError:
+                        except (AttributeError, TypeError):
                             pass
                 elif field == 'anonymous':
                     for cite in R.get('citations'):
-- 
2.43.0


From 2c2bdaed42a24b143dd31935aebea9c8c103a707 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 035/117] fix: citations that could not be parsed made networks
 and statistics by author, journal or year raise

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 5f149c3..d9ecc35 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1436,7 +1436,7 @@ class RecordCollection(CollectionWithIDs):
                         if keyType == keyTypesLst[0]:
                             cVal = c
                         else:
-                            cVal = getattr(c, keyType)
+                            cVal = getattr(c, keyType, None)
                             if cVal is None:
                                 continue
                         if cVal in citesDict:
@@ -1768,7 +1768,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
 def filterCites(cites, nodeType, dropAnon, dropNonJournals, keyWords, coreCites):
     filteredCites = []
     for c in cites:
-        if nodeType != "full" and hasattr(c, nodeType) and not getattr(c, nodeType):
+        if nodeType != "full" and not getattr(c, nodeType, None):
             pass
         elif dropNonJournals and not c.isJournal():
             pass
-- 
2.43.0


From 46bb96f38d0bc768680009b19abce79544618a22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 036/117] fix: localCitesOf did not accept Records

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d9ecc35..a1e924a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1473,7 +1473,7 @@ class RecordCollection(CollectionWithIDs):
         localCites = []
         if isinstance(rec, Record):
             recCite = rec.createCitation()
-        if isinstance(rec, str):
+        elif isinstance(rec, str):
             try:
                 recCite = self.getID(rec)
             except ValueError:
-- 
2.43.0


From 269ee0de30b1c0476002224cadabd7e40704c790 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 037/117] fix: localCiteStats raised for Records not from WOS
 in VERBOSE_MODE

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index a1e924a..394822f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1430,7 +1430,7 @@ class RecordCollection(CollectionWithIDs):
                 rCites = R.get('citations')
                 if PBar:
                     count += 1
-                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.UT))
+                    PBar.updateVal(count / recCount, "Analysing: {}".format(R.id))
                 if rCites:
                     for c in rCites:
                         if keyType == keyTypesLst[0]:
-- 
2.43.0


From 96829469626ed4140a700a00b647d925966f664d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 038/117] fix: rpys dropped citations to the two years before
 the citing Record

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 394822f..67c1b88 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -828,7 +828,7 @@ class RecordCollection(CollectionWithIDs):
                     if (maxYear is not None and cYear > (maxYear + 2)) or (minYear is not None and cYear < (minYear - 2)):
                         continue
                     #years from before the paper are an error
-                    elif recYear < (cYear + 2):
+                    elif (recYear + 2) < cYear:
                         continue
                 if cYear in yearCounts:
                     yearCounts[cYear] += 1
-- 
2.43.0


From f2e2948a00c8c9ec32fbf807068f46768e7502ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 039/117] fix: rpys raised if the cited years are outside the
 default bounds

---
 metaknowledge/recordCollection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 67c1b88..eb3943d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -837,12 +837,10 @@ class RecordCollection(CollectionWithIDs):
 
         if minYear is None:
             smallest = min(yearCounts.keys())
-            if smallest > 1000:
-                minYear = smallest
+            minYear = max(smallest, 1000)
         if maxYear is None:
             biggest = max(yearCounts.keys())
-            if biggest < 2100:
-                maxYear = biggest
+            maxYear = min(biggest, 2100)
 
         targetYears = set(( i for i in range(minYear, maxYear + 1) if i not in dropYears))
 
-- 
2.43.0


From b1b0fa1ac4ab16fc5c678ce52c6a4a3e4221d3db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 040/117] fix: diffusionGraph with labelEdgesBy neither keyed
 nor weighted its edges

---
 metaknowledge/diffusion.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index b9ce40a..a02e164 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -114,13 +114,9 @@ def diffusionGraph(source, target, weighted = True, sourceType = "raw", targetTy
                                     for edgeVal in (str(ev) for ev in edgeVals):
                                         if weighted:
                                             if workingGraph.has_edge(sVal, val, key = edgeVal):
-                                                for i, a in workingGraph[sVal][val].items():
-                                                    if a['key'] == edgeVal:
-                                                        workingGraph[sVal][val][i]['weight'] += 1
-                                                        break
+                                                workingGraph[sVal][val][edgeVal]['weight'] += 1
                                             else:
-                                                attrDict = {'key' : edgeVal, 'weight' : 1}
-                                                workingGraph.add_edge(sVal, val, attr_dict = attrDict)
+                                                workingGraph.add_edge(sVal, val, key = edgeVal, weight = 1)
                                         else:
                                             if not workingGraph.has_edge(sVal, val, key = edgeVal):
                                                 workingGraph.add_edge(sVal, val, key = edgeVal)
-- 
2.43.0


From 323ad5931101d5028b11a5228d41fc8e5323da69 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 041/117] fix: diffusionCount with an extraValue compared with
 the count of the tag instead of its value

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index a02e164..9ab786a 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -323,7 +323,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                         extraValueLst.append(extraVal)
                         if compareCounts:
                             try:
-                                locLst.append(localCounts[R][extraValue])
+                                locLst.append(localCounts[R][extraVal])
                             except KeyError:
                                 locLst.append(0)
                 else:
-- 
2.43.0


From 9c8d27704fe04d2446cdc5b1417def263d0e78b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 042/117] fix: compareCounts of diffusionCount ignored
 useAllAuthors and extraMapping

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 9ab786a..300b2dd 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -266,7 +266,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     sourceCounts[RsourceVals] += 1
     if compareCounts:
-        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, _ProgBar = PBar)
+        localCounts = diffusionCount(source, source, sourceType = sourceType, pandasFriendly = False,  compareCounts = False, extraValue = extraValue, useAllAuthors = useAllAuthors, extraMapping = extraMapping, _ProgBar = PBar)
     if PBar and not _ProgBar:
         PBar.finish("Done counting the diffusion of {} sources into {} targets".format(len(source), len(target)))
     if pandasFriendly:
-- 
2.43.0


From 41539a977f3108b6a2e3ef67831133075625a8d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 043/117] fix: diffusionCount raised for sources without
 authors

---
 metaknowledge/diffusion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 300b2dd..87e12b3 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -291,7 +291,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                     for extraVal, occCount in occ.items():
                         retDict[extraValue].append(extraVal)
                         if numAuthors:
-                            retDict["numAuthors"].append(len(R.get('authorsShort')))
+                            retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                         for tag in retrievedFields:
                             retDict[tag].append(Rvals[tag])
                         retDict[targetCountString].append(occCount)
@@ -303,7 +303,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
                 else:
                     Rvals = R.subDict(retrievedFields)
                     if numAuthors:
-                        retDict["numAuthors"].append(len(R.get('authorsShort')))
+                        retDict["numAuthors"].append(len(R.get('authorsShort', [])))
                     for tag in retrievedFields:
                         retDict[tag].append(Rvals[tag])
                     retDict[targetCountString].append(occ)
-- 
2.43.0


From 7c54e80fe459cca16b5a2ea0c14305f7414db3ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 044/117] fix: dropNonJournals raised KeyError for records
 without a publication type

---
 metaknowledge/recordCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index eb3943d..4fb18ac 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -210,9 +210,9 @@ class RecordCollection(CollectionWithIDs):
         if dropBad:
             self.dropBadEntries()
         if invert:
-            self._collection = {r for r in self._collection if r['pubType'] != ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') != ptVal.upper()}
         else:
-            self._collection = {r for r in self._collection if r['pubType'] == ptVal.upper()}
+            self._collection = {r for r in self._collection if r.get('pubType') == ptVal.upper()}
 
     def writeFile(self, fname = None):
         """Writes the `RecordCollection` to a file, the written file's format is identical to those download from WOS. The order of `Records` written is random.
-- 
2.43.0


From 48c838e0afeb83027d19786a5242e259d2cb3213 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 045/117] fix: localCitesOf ignored citation strings

---
 metaknowledge/recordCollection.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4fb18ac..ac058a9 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1472,18 +1472,12 @@ class RecordCollection(CollectionWithIDs):
         if isinstance(rec, Record):
             recCite = rec.createCitation()
         elif isinstance(rec, str):
-            try:
-                recCite = self.getID(rec)
-            except ValueError:
-                try:
-                    recCite = Citation(rec)
-                except AttributeError:
-                    raise ValueError("{} is not a valid WOS string or a valid citation string".format(recCite))
+            recCite = self.getID(rec)
+            if recCite is None:
+                #Not the ID of a Record in the collection so it is read as a citation string
+                recCite = Citation(rec)
             else:
-                if recCite is None:
-                    return RecordCollection(inCollection = localCites, name = "Records_citing_{}".format(rec), quietStart = True)
-                else:
-                    recCite = recCite.createCitation()
+                recCite = recCite.createCitation()
         elif isinstance(rec, Citation):
             recCite = rec
         else:
-- 
2.43.0


From 3cfce87d3ada9d6881c6e628197ce8bc50141027 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 046/117] fix: citeFilter with a blank keyString raised
 ValueError for the year field

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index ac058a9..d278b9b 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1555,7 +1555,7 @@ class RecordCollection(CollectionWithIDs):
                 elif field == 'year':
                     for cite in R.get('citations'):
                         try:
-                            if int(keyString) == cite.year:
+                            if cite.year is not None and (keyString == '' or int(keyString) == cite.year):
                                 retRecs.append(R)
                                 break
                         except (AttributeError, TypeError):
-- 
2.43.0


From 181973efb98c462d37ea081d2aa1e3f691546ebf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 047/117] fix: Citation kept only one character of the text it
 could not place and lost the DOI after it

---
 metaknowledge/citation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 58bceff..9615092 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -58,7 +58,7 @@ class Citation(collections.abc.Hashable):
 
     > A str containing a WOS style citation.
     """
-    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((.+?)(, DOI (.+))?))")
+    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((, )?(.+?)(, DOI (.+))?$))")
 
     scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
@@ -119,8 +119,8 @@ class Citation(collections.abc.Hashable):
             self.P = regex.group(9)
             self.DOI = regex.group(11)
             if regex.group(12) is not None:
-                self.misc = regex.group(12)
-                self.DOI = regex.group(15)
+                self.misc = regex.group(14)
+                self.DOI = regex.group(16)
                 self.bad = True
                 self.error = BadCitation("The citation did not fully match the expected pattern")
                 atrLst = []
-- 
2.43.0


From 66c4552bcb3ca3a1fc47022e9f8e7e557f2308a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 048/117] fix: Scopus citations without a volume took the page
 marker as the volume

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 9615092..da0c859 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -60,7 +60,7 @@ class Citation(collections.abc.Hashable):
     """
     wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((, )?(.+?)(, DOI (.+))?$))")
 
-    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, ([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
+    scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
 
     #(.*?, )?[^,(]*\((\d{2,5}\))[^,]*(, [^,(]*( \(\d+\))?)?(, (p?p\. .*))?")
-- 
2.43.0


From de48560eed0b10c3421d4bc3901d74e5e1e7b63d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 049/117] fix: a record without author, year, journal or title
 made networkCitation add co-citation edges between its citations

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d278b9b..3a63b3a 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1641,7 +1641,7 @@ def addToNetwork(grph, nds, count, weighted, nodeType, nodeInfo, fullInfo, coreC
         idList.append(nID)
 
     addedEdges = []
-    if hID:
+    if headNd is not None:
         for i in range(len(idList)):
             nID = idList[i]
             if nodeType == 'full' or nodeType == 'original':
-- 
2.43.0


From 3ac43bb17979503059d4888bea0ad2e74cfc3191 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 050/117] fix: cooccurrenceCounts without a counted tag created
 a TagError but did not raise it

---
 metaknowledge/mkCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index fceda96..e802775 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -775,7 +775,7 @@ class CollectionWithIDs(Collection):
         if not isinstance(keyTag, str):
             raise TagError("'{}' is not a string it cannot be used as a tag.".format(keyTag))
         if len(countedTags) < 1:
-            TagError("You need to provide atleast one tag")
+            raise TagError("You need to provide atleast one tag")
         for tag in countedTags:
             if not isinstance(tag, str):
                 raise TagError("'{}' is not a string it cannot be used as a tag.".format(tag))
-- 
2.43.0


From bc2e65e5093947a79fe1bb73d9b0dd6c68acd42e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 051/117] fix: NSF grants do not count a requested default
 investigator field twice

---
 metaknowledge/grants/nsfGrant.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index fcd1399..f5d4b36 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -31,9 +31,9 @@ class NSFGrant(Grant):
         if tags is None:
             tags = ['Investigator']
         elif isinstance(tags, str):
-            tags = ['Investigator', tags]
+            tags = ['Investigator'] + [t for t in [tags] if t != 'Investigator']
         else:
-            tags = list(tags) + ['Investigator']
+            tags = [t for t in tags if t != 'Investigator'] + ['Investigator']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
     def getInstitutions(self, tags = None, seperator = ";", _getTag = False):
@@ -48,9 +48,9 @@ class NSFGrant(Grant):
         if tags is None:
             tags = ['Institution']
         elif isinstance(tags, str):
-            tags = ['Institution', tags]
+            tags = ['Institution'] + [t for t in [tags] if t != 'Institution']
         else:
-            tags = list(tags) + ['Institution']
+            tags = [t for t in tags if t != 'Institution'] + ['Institution']
         return super().getInvestigators(tags = tags, seperator = seperator, _getTag = _getTag)
 
 def isNSFfile(fileName, useFileName = True):
-- 
2.43.0


From cdc7c85dd04cc595b519b4e78005d13b58332d03 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 052/117] fix: cells missing at the end of a grant row are
 empty cells

---
 metaknowledge/grants/baseGrant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index 7710f97..7404692 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -122,6 +122,8 @@ def csvAndLinesReader(enumeratedFile, *csvArgs, **csvKwargs):
     def readerWithSideEffects(target, datDict):
         for datDict['currentLineNum'], datDict['currentLineString'] in target:
             yield datDict['currentLineString']
+    #Cells missing at the end of a row are empty like any other empty cell
+    csvKwargs.setdefault('restval', '')
     reader = csv.DictReader(readerWithSideEffects(enumeratedFile, currentData), *csvArgs, **csvKwargs)
     for row in reader:
         yield currentData['currentLineNum'], currentData['currentLineString'], row
-- 
2.43.0


From 0c7b9d7c1581f728c96e424c7d891686716ba47f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 053/117] fix: an empty NSF element no longer hides or breaks
 the elements of the same name

---
 metaknowledge/grants/nsfGrant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index f5d4b36..bede5fd 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -116,9 +116,11 @@ def parserNSFfile(fileName):
             if xmlElement.tag == 'Organization' or xmlElement.tag == 'Investigator':
                 continue
             elif len(xmlElement) < 1:
-                grantDict[xmlElement.tag] = xmlElement.text
+                #An empty element must not hide the values of its siblings
+                if xmlElement.text is not None or xmlElement.tag not in grantDict:
+                    grantDict[xmlElement.tag] = xmlElement.text
             else:
-                if xmlElement.tag not in grantDict:
+                if grantDict.get(xmlElement.tag) is None:
                     grantDict[xmlElement.tag] = []
                 elmComps = []
                 for subElement in xmlElement:
-- 
2.43.0


From 68dbf18af08cc41cf820d1646898f7a7ac819192 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 054/117] fix: Scopus grant strings of more than three parts
 keep all of their text

---
 metaknowledge/grants/scopusGrant.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/grants/scopusGrant.py b/metaknowledge/grants/scopusGrant.py
index 5a02a1d..f87224c 100644
--- a/metaknowledge/grants/scopusGrant.py
+++ b/metaknowledge/grants/scopusGrant.py
@@ -24,9 +24,8 @@ class ScopusGrant(Grant):
             except IndexError:
                 pass
             else:
-                try:
-                    grantDict['code'] = split.pop()
-                except IndexError:
-                    pass
+                #The rest is the code, which can contain the seperator
+                if len(split) > 0:
+                    grantDict['code'] = ', '.join(split)
         idValue  = "{}-{}-{}".format(grantDict.get('code', ''), grantDict.get('agencyCode', ''), grantDict.get('agency', ''))
         Grant.__init__(self, grantString, grantDict, idValue, bad, error)
-- 
2.43.0


From 39586062245f0dd96a39e9894652fe516959eea8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 055/117] fix: an empty field of a grant names no investigators

---
 metaknowledge/grants/baseGrant.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/grants/baseGrant.py b/metaknowledge/grants/baseGrant.py
index 7404692..40ae792 100644
--- a/metaknowledge/grants/baseGrant.py
+++ b/metaknowledge/grants/baseGrant.py
@@ -67,7 +67,8 @@ class Grant(Record, collections.abc.MutableMapping):
                 except KeyError:
                     pass
                 except AttributeError:
-                    tval = [auth.split(seperator)[0] for auth in self[tag]]
+                    #Empty XML elements have no text, so no names
+                    tval = [auth.split(seperator)[0] for auth in self[tag] or []]
                     if _getTag:
                         investVal += [(t.strip(), tag) for t in tval]
                     else:
-- 
2.43.0


From 58ab4bc5f41a0a6a1c7ecf9a48524d8199600af5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 056/117] fix: an NSF award with an empty AwardID element is
 damaged

---
 metaknowledge/grants/nsfGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index bede5fd..50e3499 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -11,7 +11,7 @@ class NSFGrant(Grant):
         bad = False
         error = None
         originalName = os.path.basename(sFile)
-        if grantdDict.get('AwardID', '') == '':
+        if not grantdDict.get('AwardID', ''):
             bad = True
             error = BadGrant("Missing 'AwardID'")
             idValue = "NSF:{}".format(originalName)
-- 
2.43.0


From 8755f85640ab82d41f3d5e825b1b35ec9c0f7f1d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 057/117] fix: a Medline grant string without number has no
 empty number

---
 metaknowledge/grants/medlineGrant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/grants/medlineGrant.py b/metaknowledge/grants/medlineGrant.py
index 98f4ade..08c12e8 100644
--- a/metaknowledge/grants/medlineGrant.py
+++ b/metaknowledge/grants/medlineGrant.py
@@ -33,7 +33,7 @@ class MedlineGrant(Grant):
                     grantDict['number'] = split.pop()
                 else:
                     grantDict['number'] = "{}/{}".format(split.pop(), code)
-            else:
+            elif len(split) > 0:
                 grantDict['number'] = '/'.join(split)
         if 'number' in  grantDict:
             idValue = "{}/{}-{}".format(grantDict.get('number', ''), grantDict.get('code', ''), grantDict.get('country', ''))
-- 
2.43.0


From ea11a6a2f5503befba3b91da36eab65799d1f398 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 058/117] fix: dropEdges drops the edges of multigraphs that
 are out of bounds, not others between the same nodes

---
 metaknowledge/graphHelpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 68067a9..ee9c373 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -543,9 +543,10 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                 grph.remove_edge(e[0], e[1])
         edgesToDrop = []
         if minWeight != - float('inf') or maxWeight != float('inf'):
-            for e in grph.edges(data = True):
+            #Multigraphs need the key to tell their parallel edges apart
+            for *edge, attribs in grph.edges(data = True, **({'keys' : True} if grph.is_multigraph() else {})):
                 try:
-                    val = e[2][parameterName]
+                    val = attribs[parameterName]
                 except KeyError:
                     if not ignoreUnweighted:
                         raise KeyError("One or more Edges do not have weight or " + str(parameterName), " is not the name of the weight")
@@ -557,7 +558,7 @@ def dropEdges(grph, minWeight = - float('inf'), maxWeight = float('inf'), parame
                     if count % 100000 == 0:
                         PBar.updateVal(count/ total, str(count) + " edges analysed and " + str(total -len(grph.edges())) + " edges dropped")
                     if val > maxWeight or  val < minWeight:
-                        edgesToDrop.append((e[0], e[1]))
+                        edgesToDrop.append(tuple(edge))
         grph.remove_edges_from(edgesToDrop)
         PBar.finish(str(total - len(grph.edges())) + " edges out of " + str(total) + " dropped, " + str(len(grph.edges())) + " returned")
 
-- 
2.43.0


From 9a299b8521912ac0ab8d1a16d518d6213af80f4d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 059/117] fix: mergeGraphs keeps the attributes of targetGraph
 when there is nothing to increment

---
 metaknowledge/graphHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index ee9c373..39dba80 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -719,7 +719,8 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.nodes[addedNode][incrementedNodeVal] += attribs[incrementedNodeVal]
             except KeyError:
-                targetGraph.add_node(addedNode, **attribs)
+                #The attributes targetGraph already has are given precedence
+                targetGraph.add_node(addedNode, **dict(attribs, **dict(targetGraph.nodes.get(addedNode, {}))))
         else:
             if not targetGraph.has_node(addedNode):
                 targetGraph.add_node(addedNode, **attribs)
@@ -728,7 +729,7 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
             try:
                 targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
             except KeyError:
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+                targetGraph.add_edge(edgeNode1, edgeNode2, **dict(attribs, **(targetGraph.get_edge_data(edgeNode1, edgeNode2) or {})))
         else:
             if not targetGraph.has_edge(edgeNode1, edgeNode2):
                 targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
-- 
2.43.0


From dd3e4cdf83ab64c45766dde6387780c282c828ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 060/117] fix: mergeGraphs merges multigraphs edge by edge

---
 metaknowledge/graphHelpers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 39dba80..47e21d4 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -724,15 +724,17 @@ def mergeGraphs(targetGraph, addedGraph, incrementedNodeVal = 'count', increment
         else:
             if not targetGraph.has_node(addedNode):
                 targetGraph.add_node(addedNode, **attribs)
-    for edgeNode1, edgeNode2, attribs in addedGraph.edges(data = True):
+    #The parallel edges of multigraphs are told apart by their keys
+    edgesCaller = {'keys' : True} if targetGraph.is_multigraph() and addedGraph.is_multigraph() else {}
+    for *edge, attribs in addedGraph.edges(data = True, **edgesCaller):
         if incrementedEdgeVal:
             try:
-                targetGraph.edges[edgeNode1, edgeNode2][incrementedEdgeVal] += attribs[incrementedEdgeVal]
+                targetGraph.edges[tuple(edge)][incrementedEdgeVal] += attribs[incrementedEdgeVal]
             except KeyError:
-                targetGraph.add_edge(edgeNode1, edgeNode2, **dict(attribs, **(targetGraph.get_edge_data(edgeNode1, edgeNode2) or {})))
+                targetGraph.add_edge(*edge, **dict(attribs, **(targetGraph.get_edge_data(*edge) or {})))
         else:
-            if not targetGraph.has_edge(edgeNode1, edgeNode2):
-                targetGraph.add_edge(edgeNode1, edgeNode2, **attribs)
+            if not targetGraph.has_edge(*edge):
+                targetGraph.add_edge(*edge, **attribs)
 
 def graphStats(G, stats = ('nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity'), makeString = True, sentenceString = False):
     """Returns a string or list containing statistics about the graph _G_.
-- 
2.43.0


From 7822cf41983da857af0250c98722652b2db45e9d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 061/117] fix: readGraph keeps the line breaks inside cells as
 they were written

---
 metaknowledge/graphHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 47e21d4..d4929fd 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -65,7 +65,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
             grph = nx.Graph()
         if nodeList:
             PBar.updateVal(0, "Reading " + nodeList)
-            f = open(os.path.expanduser(os.path.abspath(nodeList)))
+            f = open(os.path.expanduser(os.path.abspath(nodeList)), newline = '')
             nFile = csv.DictReader(f)
             for line in nFile:
                 vals = line
@@ -77,7 +77,7 @@ def readGraph(edgeList, nodeList = None, directed = False, idKey = 'ID', eSource
                     grph.add_node(ndID)
             f.close()
         PBar.updateVal(.25, "Reading " + edgeList)
-        f = open(os.path.expanduser(os.path.abspath(edgeList)))
+        f = open(os.path.expanduser(os.path.abspath(edgeList)), newline = '')
         eFile = csv.DictReader(f)
         for line in eFile:
             vals = line
-- 
2.43.0


From f3375ec4f6d0386cd1dd8655850744a376787e32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 062/117] fix: allSameAttribute also refuses edges and nodes
 that lack an attribute

---
 metaknowledge/graphHelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index d4929fd..4d6c0db 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -241,6 +241,8 @@ def writeEdgeList(grph, name, extraInfo = True, allSameAttribute = False, _progB
                 eDict['Source'] = e[0]
                 eDict['Target'] = e[1]
                 try:
+                    if allSameAttribute and len(eDict) < len(csvHeader):
+                        raise ValueError("Missing attribute")
                     outFile.writerow(eDict)
                 except UnicodeEncodeError:
                     #Because Windows
@@ -330,6 +332,8 @@ def writeNodeAttributeFile(grph, name, allSameAttribute = False, _progBar = None
             nDict = n[1].copy()
             nDict['ID'] = n[0]
             try:
+                if allSameAttribute and len(nDict) < len(csvHeader):
+                    raise ValueError("Missing attribute")
                 outFile.writerow(nDict)
             except UnicodeEncodeError:
                 #Because Windows
-- 
2.43.0


From 114715e9cb995ddf6c526819f3202f60d8397295 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 063/117] fix: dropNodesByDegree counts the edges entering a
 node of a directed graph

---
 metaknowledge/graphHelpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/graphHelpers.py b/metaknowledge/graphHelpers.py
index 4d6c0db..ed0143c 100644
--- a/metaknowledge/graphHelpers.py
+++ b/metaknowledge/graphHelpers.py
@@ -608,6 +608,12 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
         progKwargs = {'dummy' : True}
     with _ProgressBar(*progArgs, **progKwargs) as PBar:
         badNodes = []
+        def _touching(nd):
+            edges = list(grph.edges(nd, data = True))
+            if grph.is_directed():
+                #edges() only gives the edges leaving the node, self loops are among them
+                edges += [e for e in grph.in_edges(nd, data = True) if e[0] != nd]
+            return edges
         for n in grph.nodes():
             if PBar:
                 count += 1
@@ -615,7 +621,7 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                     PBar.updateVal(count/ total, str(count) + " nodes analysed and " + str(len(badNodes)) + " nodes dropped")
             val = 0
             if useWeight:
-                for e in grph.edges(n, data = True):
+                for e in _touching(n):
                     try:
                         val += e[2][parameterName]
                     except KeyError:
@@ -624,7 +630,7 @@ def dropNodesByDegree(grph, minDegree = -float('inf'), maxDegree = float('inf'),
                         else:
                             val += 1
             else:
-                val = len(grph.edges(n))
+                val = len(_touching(n))
             if val < minDegree or val > maxDegree:
                 badNodes.append(n)
         if PBar:
-- 
2.43.0


From dfb343a91366c648efbdaa7a744752ad4bc1ae65 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:32 +0000
Subject: [PATCH 064/117] fix: read the end of a WOS record on a last line
 without a line break

---
 metaknowledge/WOS/recordWOS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metaknowledge/WOS/recordWOS.py b/metaknowledge/WOS/recordWOS.py
index 8640a25..6e98ea4 100644
--- a/metaknowledge/WOS/recordWOS.py
+++ b/metaknowledge/WOS/recordWOS.py
@@ -171,13 +171,13 @@ def recordParser(paper):
     doneReading = False
     l = (0, '')
     for l in paper:
-        if len(l[1]) < 3:
-            #Line too short
-            raise BadWOSRecord("Missing field on line {} : {}".format(l[0], l[1]))
-        elif 'ER' in l[1][:2]:
-            #Reached the end of the record
+        if 'ER' in l[1][:2]:
+            #Reached the end of the record, the line is shorter when it is the last one
             doneReading = True
             break
+        elif len(l[1]) < 3:
+            #Line too short
+            raise BadWOSRecord("Missing field on line {} : {}".format(l[0], l[1]))
         elif l[1][2] != ' ':
             #Field tag longer than 2 or offset in some way
             raise BadWOSFile("Field tag not formed correctly on line " + str(l[0]) + " : " + l[1])
-- 
2.43.0


From 0fae106f94bafe1b1412c2945314297dbb5fd94c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:57 +0000
Subject: [PATCH 065/117] fix: Medline files may end without a line break,
 author names may wrap

---
 metaknowledge/medline/recordMedline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/medline/recordMedline.py b/metaknowledge/medline/recordMedline.py
index 76ea0fa..d827f1b 100644
--- a/metaknowledge/medline/recordMedline.py
+++ b/metaknowledge/medline/recordMedline.py
@@ -111,7 +111,8 @@ def medlineRecordParser(record):
     mostRecentAuthor = None
     for lineNum, line in record:
         tmptag = line[:4].rstrip()
-        contents = line[6:-1]
+        #Only the last line of a file can lack a line break
+        contents = line[6:].rstrip('\n')
         if tmptag.isalpha() and line[4:5] == '-':
             tag = tmptag
             if tag == 'AU':
@@ -123,7 +124,9 @@ def medlineRecordParser(record):
             except KeyError:
                 tagDict[tag] = [contents]
         elif line[:6] == '      ':
-            tagDict[tag][-1] += '\n' + line[6:-1]
+            tagDict[tag][-1] += '\n' + contents
+            if tag == 'AU':
+                mostRecentAuthor = tagDict[tag][-1]
         elif line == '\n':
             break
         else:
-- 
2.43.0


From 9957dabf82cd768ca1ec8e3c5eb6d3fd9526ba59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 066/117] fix: Scopus columns in another order, rows with too
 many cells, a header without a line break

---
 metaknowledge/scopus/recordScopus.py   | 2 ++
 metaknowledge/scopus/scopusHandlers.py | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index a108e19..c3046f2 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -222,4 +222,6 @@ def scopusRecordParser(record, header = None):
                 tagDict[key] = valString
         else:
             tagDict[key] = currentVal
+    if splitRecord:
+        raise BadScopusRecord("The row has more cells than there are columns")
     return tagDict
diff --git a/metaknowledge/scopus/scopusHandlers.py b/metaknowledge/scopus/scopusHandlers.py
index 6cc1077..5ac7664 100644
--- a/metaknowledge/scopus/scopusHandlers.py
+++ b/metaknowledge/scopus/scopusHandlers.py
@@ -36,7 +36,7 @@ def isScopusFile(infile, checkedLines = 2, maxHeaderDiff = 3):
             if openfile.read(1) != "\ufeff":
                 return False
             for i in range(checkedLines):
-                if len(set(openfile.readline()[:-1].split(',')) ^ set(scopusHeader)) < maxHeaderDiff:
+                if len(set(openfile.readline().rstrip('\n').split(',')) ^ set(scopusHeader)) < maxHeaderDiff:
                     return True
     except (StopIteration, UnicodeDecodeError):
         return False
@@ -68,8 +68,8 @@ def scopusParser(scopusFile):
         with open(scopusFile, 'r', encoding = 'utf-8') as openfile:
             #Get rid of the BOM
             openfile.read(1)
-            header = openfile.readline()[:-1].split(',')
-            if len(set(header) ^ set(scopusHeader)) == 0:
+            header = openfile.readline().rstrip('\n').split(',')
+            if header == scopusHeader:
                 header = None
             lineNum = 0
             try:
-- 
2.43.0


From ab5258d3494bc21fc1518dbf08fd5e26caeb9625 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 067/117] fix: ProQuest authors, year and abstract have the
 types of every other source

---
 metaknowledge/proquest/tagProcessing/specialFunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/specialFunctions.py b/metaknowledge/proquest/tagProcessing/specialFunctions.py
index e5a9b47..dc8edf6 100644
--- a/metaknowledge/proquest/tagProcessing/specialFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/specialFunctions.py
@@ -1,16 +1,16 @@
 proQuestSpecialTagToFunc = {
     #'DOI' : lambda R : None,
-    'authorsShort' : lambda R : R['Author'],
+    'authorsShort' : lambda R : [R['Author']],
     #'grants' : lambda R : [],
     #'address' : '',
     'selfCitation' : lambda R: R.createCitation(),
     'beginningPage' : lambda R : 0,
     'keywords' : lambda R : R['Identifier / keyword'],
-    'abstract' : lambda R : R['Abstract'],
+    'abstract' : lambda R : ' '.join(R['Abstract']),
     #'citations' : '',
-    'authorsFull' : lambda R : R['Author'],
+    'authorsFull' : lambda R : [R['Author']],
     #'volume' : '',
-    'year' : lambda R : R['Degree date'],
+    'year' : lambda R : int(R['Degree date']),
     #'j9' : '',
     #'journal' : '',
     'title' : lambda R : R['Title'],
-- 
2.43.0


From c870d76727cc1519b0b3762492a3891cb45a2a6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:13 +0000
Subject: [PATCH 068/117] fix: ProQuest text with a colon is no field, labels
 standing alone or repeated are

---
 metaknowledge/proquest/recordProQuest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/proquest/recordProQuest.py b/metaknowledge/proquest/recordProQuest.py
index e983fe3..db326f3 100644
--- a/metaknowledge/proquest/recordProQuest.py
+++ b/metaknowledge/proquest/recordProQuest.py
@@ -95,12 +95,12 @@ def proQuestRecordParser(enRecordFile, recNum):
         elif line == '\n':
             pass
         elif currentEntry is 'Name' or currentEntry is 'url':
-            tagDict[currentEntry] = [line.rstrip()]
+            tagDict.setdefault(currentEntry, []).append(line.rstrip())
             currentEntry = None
-        elif ':' in line and not line.startswith('http://'):
-            splitLine = line.split(': ')
+        elif ': ' in line.replace('\n', ' ') and not line.startswith('http://'):
+            splitLine = line.replace('\n', ' ').split(': ')
             currentEntry = splitLine[0]
-            tagDict[currentEntry] = [': '.join(splitLine[1:]).rstrip()]
+            tagDict.setdefault(currentEntry, []).append(': '.join(splitLine[1:]).rstrip())
             if currentEntry == 'Author':
                 currentEntry = 'url'
         else:
-- 
2.43.0


From 3f992a4b73088d9495a7408176eaa86e3ca12bea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 069/117] fix: the caches of a directory are no files to read

---
 metaknowledge/grantCollection.py  | 2 +-
 metaknowledge/recordCollection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 55fc960..465cba3 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -69,7 +69,7 @@ class GrantCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inGrants):
                         fullF = os.path.join(os.path.abspath(inGrants), f)
-                        if fullF.endswith(extension) and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith(('mkGrantDirCache', 'mkRecordDirCache')) and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         cacheName = os.path.join(inGrants, '{}.[{}].mkGrantDirCache'.format(os.path.basename(os.path.abspath(inGrants)), extension))
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3a63b3a..9d085ae 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -116,7 +116,7 @@ class RecordCollection(CollectionWithIDs):
                     flist = []
                     for f in os.listdir(inCollection):
                         fullF = os.path.join(os.path.abspath(inCollection), f)
-                        if fullF.endswith(extension) and not fullF.endswith('mkRecordDirCache') and os.path.isfile(fullF):
+                        if fullF.endswith(extension) and not fullF.endswith(('mkRecordDirCache', 'mkGrantDirCache')) and os.path.isfile(fullF):
                             flist.append(fullF)
                     if cached:
                         PBar.updateVal(0, "Trying to load from cache")
-- 
2.43.0


From 19c172ec4ed3ff56b72bdd8c505f6f15bd96d44a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 070/117] fix: a pickle of something else in place of a cache
 is replaced

---
 metaknowledge/mkCollection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index e802775..6f234a5 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -393,7 +393,8 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
         if os.path.isfile(cacheName):
             try:
                 self.__dict__ = loadCache(cacheName, flist, name, extension)
-            except (cacheError, KeyError, FileNotFoundError):
+            except (cacheError, KeyError, FileNotFoundError, TypeError, AttributeError):
+                #The last two are from a pickle of something else than a cache
                 os.remove(cacheName)
                 return False
             else:
-- 
2.43.0


From c26817e9131ae942d4f143bc53b752a6139378ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 071/117] fix: a file edited while a directory is read does not
 pass for the one the cache holds

---
 metaknowledge/grantCollection.py  | 5 ++++-
 metaknowledge/mkCollection.py     | 6 ++----
 metaknowledge/recordCollection.py | 5 ++++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 465cba3..4febdc6 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -81,6 +81,9 @@ class GrantCollection(CollectionWithIDs):
                             return
                         else:
                             PBar.updateVal(0, 'Cache error, rereading files')
+                    if cached:
+                        #The times have to be those from before the reading, a file edited later must not pass as the one that was read
+                        fileTimes = {fileName : os.stat(fileName).st_mtime for fileName in flist}
                     for fileName in flist:
                         count += 1
                         PBar.updateVal(count / len(flist), "Reading grants from: {}".format(fileName))
@@ -135,7 +138,7 @@ class GrantCollection(CollectionWithIDs):
             CollectionWithIDs.__init__(self, grantsSet, Grant, grantTypes, name, bad, errors, quietStart = quietStart)
             if cached and cacheName is not None:
                 PBar.updateVal(1, "Writing GrantCollection cache to {}".format(cacheName))
-                self._createCache(cacheName, flist, name, extension)
+                self._createCache(cacheName, fileTimes, name, extension)
             try:
                 PBar.finish("Done making a GrantCollection of {} Grants".format(len(self)))
             except AttributeError:
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 6f234a5..2ae7805 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -400,15 +400,13 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
             else:
                 return True
 
-    def _createCache(self, cacheFile, flist, name, extension):
+    def _createCache(self, cacheFile, fileTimes, name, extension):
         dat = {
             "metaknowledge Version" : __version__,
-            "File dict" : {},
+            "File dict" : fileTimes,
             "Collection Name" : name,
             "File Extension" : extension,
         }
-        for fileName in flist:
-            dat["File dict"][fileName] =  os.stat(fileName).st_mtime
         with open(cacheFile, 'wb') as f:
             pickle.dump((dat, self), f)
 
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 9d085ae..81cf05d 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -129,6 +129,9 @@ class RecordCollection(CollectionWithIDs):
                             return
                         else:
                             PBar.updateVal(0, 'Cache error, rereading files')
+                    if cached:
+                        #The times have to be those from before the reading, a file edited later must not pass as the one that was read
+                        fileTimes = {fileName : os.stat(fileName).st_mtime for fileName in flist}
                     for fileName in flist:
                         count += 1
                         PBar.updateVal(count / len(flist), "Reading records from: {}".format(fileName))
@@ -164,7 +167,7 @@ class RecordCollection(CollectionWithIDs):
                     pass
                 else:
                     PBar.updateVal(1, "Writing RecordCollection cache to {}".format(cacheName))
-                    self._createCache(cacheName, flist, name, extension)
+                    self._createCache(cacheName, fileTimes, name, extension)
             try:
                 PBar.finish("Done making a RecordCollection of {} Records".format(len(self)))
             except AttributeError:
-- 
2.43.0


From f0e5f63c671f678e22891718b271fbc896c9c318 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:10 +0000
Subject: [PATCH 072/117] fix: a file no parser can read is no grant file
 rather than an error of the detectors

---
 metaknowledge/grants/cihrGrant.py  | 2 +-
 metaknowledge/grants/nsercGrant.py | 2 +-
 metaknowledge/grants/nsfGrant.py   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/grants/cihrGrant.py b/metaknowledge/grants/cihrGrant.py
index 230128c..439ea49 100644
--- a/metaknowledge/grants/cihrGrant.py
+++ b/metaknowledge/grants/cihrGrant.py
@@ -33,7 +33,7 @@ def isCIHRfile(fileName, useFileName = True):
             for row in reader:
                 if 'PI Names' not in row:
                     return False
-    except (StopIteration, UnicodeDecodeError):
+    except (StopIteration, UnicodeDecodeError, csv.Error):
         return False
     else:
         return True
diff --git a/metaknowledge/grants/nsercGrant.py b/metaknowledge/grants/nsercGrant.py
index 453e401..a94736f 100644
--- a/metaknowledge/grants/nsercGrant.py
+++ b/metaknowledge/grants/nsercGrant.py
@@ -79,7 +79,7 @@ def isNSERCfile(fileName, useFileName = True):
                     return False
             if length < 1:
                 return False
-    except (StopIteration, UnicodeDecodeError, KeyError):
+    except (StopIteration, UnicodeDecodeError, KeyError, csv.Error):
         return False
     else:
         return True
diff --git a/metaknowledge/grants/nsfGrant.py b/metaknowledge/grants/nsfGrant.py
index 50e3499..4e66a06 100644
--- a/metaknowledge/grants/nsfGrant.py
+++ b/metaknowledge/grants/nsfGrant.py
@@ -63,7 +63,7 @@ def isNSFfile(fileName, useFileName = True):
             return False
         else:
             return True
-    except (ET.ParseError, UnicodeError):
+    except (ET.ParseError, ValueError, LookupError):
         return False
 
 def parserNSFfile(fileName):
@@ -128,7 +128,7 @@ def parserNSFfile(fileName):
                         elmComps.append(subElement.text)
                 grantDict[xmlElement.tag].append('; '.join(elmComps))
         grantSet.add(NSFGrant(grantDict, fileName))
-    except (ET.ParseError, UnicodeError):
+    except (ET.ParseError, ValueError, LookupError):
         if error is None:
             error = BadGrant("The file '{}' is having decoding issues. It may have been modifed since it was downloaded or not be a NSF grant file.".format(fileName))
     return grantSet, error
-- 
2.43.0


From 847c5bdb20621698d8a2869a8bec53649d45e202 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:26 +0000
Subject: [PATCH 073/117] fix: a directory edited while it is read is not
 cached

---
 metaknowledge/grantCollection.py  | 1 -
 metaknowledge/mkCollection.py     | 3 +++
 metaknowledge/recordCollection.py | 1 -
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/grantCollection.py b/metaknowledge/grantCollection.py
index 4febdc6..0645f02 100644
--- a/metaknowledge/grantCollection.py
+++ b/metaknowledge/grantCollection.py
@@ -82,7 +82,6 @@ class GrantCollection(CollectionWithIDs):
                         else:
                             PBar.updateVal(0, 'Cache error, rereading files')
                     if cached:
-                        #The times have to be those from before the reading, a file edited later must not pass as the one that was read
                         fileTimes = {fileName : os.stat(fileName).st_mtime for fileName in flist}
                     for fileName in flist:
                         count += 1
diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index 2ae7805..f6a5e6b 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -401,6 +401,9 @@ class Collection(collections.abc.MutableSet, collections.abc.Hashable):
                 return True
 
     def _createCache(self, cacheFile, fileTimes, name, extension):
+        if any(not os.path.isfile(f) or os.stat(f).st_mtime != t for f, t in fileTimes.items()):
+            #A file was edited while the directory was read, so this may not be what it holds at any time
+            return
         dat = {
             "metaknowledge Version" : __version__,
             "File dict" : fileTimes,
diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 81cf05d..3320d95 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -130,7 +130,6 @@ class RecordCollection(CollectionWithIDs):
                         else:
                             PBar.updateVal(0, 'Cache error, rereading files')
                     if cached:
-                        #The times have to be those from before the reading, a file edited later must not pass as the one that was read
                         fileTimes = {fileName : os.stat(fileName).st_mtime for fileName in flist}
                     for fileName in flist:
                         count += 1
-- 
2.43.0


From e530396479a8832801773fcac80f4378a80216bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 074/117] fix: a blank line of WOS addresses is a blank address

---
 metaknowledge/WOS/tagProcessing/tagFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/tagFunctions.py b/metaknowledge/WOS/tagProcessing/tagFunctions.py
index 672acc2..8e76bb2 100644
--- a/metaknowledge/WOS/tagProcessing/tagFunctions.py
+++ b/metaknowledge/WOS/tagProcessing/tagFunctions.py
@@ -412,7 +412,7 @@ def authAddress(val):
     """
     ret = []
     for a in val:
-        if a[0] == '[':
+        if a.startswith('['):
             ret.append('] '.join(a.split('] ')[1:]))
         else:
             ret.append(a)
-- 
2.43.0


From f7e783b1c4b59d4b99110ba18a97736eecde695e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 075/117] fix: months given as numbers are numbers

---
 metaknowledge/WOS/tagProcessing/helpFuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/WOS/tagProcessing/helpFuncs.py b/metaknowledge/WOS/tagProcessing/helpFuncs.py
index 5446afe..79cc0d5 100644
--- a/metaknowledge/WOS/tagProcessing/helpFuncs.py
+++ b/metaknowledge/WOS/tagProcessing/helpFuncs.py
@@ -18,7 +18,7 @@ def getMonth(s):
     else:
         monthOrSeason = s.split('-')[-1].upper()
         if monthOrSeason.isdigit():
-            return monthOrSeason
+            return int(monthOrSeason)
         else:
             return monthDict[monthOrSeason]
 
-- 
2.43.0


From 613e768b77f689bcdb60a8c4066a59785aedbacf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 076/117] fix: a blank Medline address is no address

---
 metaknowledge/medline/tagProcessing/specialFunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/medline/tagProcessing/specialFunctions.py b/metaknowledge/medline/tagProcessing/specialFunctions.py
index 079224e..ef64e64 100644
--- a/metaknowledge/medline/tagProcessing/specialFunctions.py
+++ b/metaknowledge/medline/tagProcessing/specialFunctions.py
@@ -41,7 +41,10 @@ def DOI(R):
 
 def address(R):
     """Gets the first address of the first author"""
-    return R['AD'][R['AU'][0]][0]
+    addresses = R['AD'][R['AU'][0]]
+    if len(addresses) < 1:
+        raise KeyError("The first author's address is blank")
+    return addresses[0]
 
 medlineSpecialTagToFunc = {
     'year' : year,
-- 
2.43.0


From adb6fab1ef71802e0d658ac24cbcb1397fbd7482 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 077/117] fix: ProQuest subjects, keywords and classifications
 of every line

---
 metaknowledge/proquest/tagProcessing/tagFunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/proquest/tagProcessing/tagFunctions.py b/metaknowledge/proquest/tagProcessing/tagFunctions.py
index 1fff65f..ff73072 100644
--- a/metaknowledge/proquest/tagProcessing/tagFunctions.py
+++ b/metaknowledge/proquest/tagProcessing/tagFunctions.py
@@ -28,13 +28,13 @@ singleLineEntries = {
 }
 
 def proQuestSubject(value):
-    return value[0].split('; ')
+    return [s for v in value for s in v.split('; ')]
 
 def proQuestIdentifier_Keyword(value):
-    return value[0].split(', ')
+    return [s for v in value for s in v.split(', ')]
 
 def proQuestClassification(value):
-    return [tuple(s.split(': ')) for s in value[0].split('; ')]
+    return [tuple(s.split(': ')) for v in value for s in v.split('; ')]
 
 customTags = {
     'Classification' : proQuestClassification,
-- 
2.43.0


From 8f08fca8ea4ad8e045ed3ae02a8c12145be9e6dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 078/117] fix: Scopus citations by each author have the author
 apart from the title

---
 metaknowledge/scopus/recordScopus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/scopus/recordScopus.py b/metaknowledge/scopus/recordScopus.py
index c3046f2..c2e4f35 100644
--- a/metaknowledge/scopus/recordScopus.py
+++ b/metaknowledge/scopus/recordScopus.py
@@ -142,7 +142,7 @@ class ScopusRecord(ExtendedRecord):
         if self.get("beginningPage", False):
             valsStr += 'PP. ' + str(self.get('beginningPage'))
         if multiCite and len(auths) > 0:
-            ret = (tuple((Citation(a + valsStr, scopusMode = True) for a in auths)))
+            ret = (tuple((Citation(a + ', ' + valsStr, scopusMode = True) for a in auths)))
         elif multiCite:
             ret = Citation(valsStr, scopusMode = True),
         else:
-- 
2.43.0


From a2d62daecf241298763d6abbe1a4b59a16a57e98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 079/117] fix: citations of several lines are parsed instead of
 raising AttributeError

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index da0c859..dc82890 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -58,7 +58,7 @@ class Citation(collections.abc.Hashable):
 
     > A str containing a WOS style citation.
     """
-    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((, )?(.+?)(, DOI (.+))?$))")
+    wosCiteRegex = re.compile(r"([^0-9,][^,]+)?(, )?(-?[0-9]{1,5})?(, )?([^,]+)?(, (V[^,]+))?(, (P[^,]+))?($|, DOI (.+)|((, )?(.+?)(, DOI (.+))?$))", re.DOTALL)
 
     scopusCiteRegex = re.compile(r"([\w\- ]+,? [\w\.\-]+\.), (([\w\- ]+,? [\w\-\.]+\., )+)?([^(]+? )?\((\d{2,5})\) ([^,]+)(, (?!P?P\. )([\w-]+)( \(([\w-]*)\))?)?(, P?P\. ([\w-]*))?(.*)")
 
-- 
2.43.0


From 208051d8002f469c750f0748d0ed3a20fd3048d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 080/117] fix: a value a Record repeats is not counted again by
 the diffusion functions

---
 metaknowledge/diffusion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 87e12b3..83f3b9f 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -353,7 +353,8 @@ def makeNodeID(Rec, ndType, extras = None):
     if recID is None:
         pass
     elif isinstance(recID, list):
-        recID = tuple(recID)
+        #A Record has a value however often it is repeated
+        recID = tuple(dict.fromkeys(recID))
     else:
         recID = recID
     extraDict = {}
-- 
2.43.0


From 409c5aa594badfc09d9a6ac3a587ece1ffdb0143 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 081/117] fix: diffusionCount tables with an extraValue that is
 a tag of the sources had a column of twice the length

---
 metaknowledge/diffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index 83f3b9f..fadff99 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -281,7 +281,7 @@ def diffusionCount(source, target, sourceType = "raw", extraValue = None, pandas
             retrievedFields = []
             targetCount = []
             for R in sourceCounts.keys():
-                tagsLst = [t for t in R.keys() if t not in retrievedFields]
+                tagsLst = [t for t in R.keys() if t not in retrievedFields and t != extraValue]
                 retrievedFields += tagsLst
             for tag in retrievedFields:
                 retDict[tag] = []
-- 
2.43.0


From 720bcc846ad59892b9d220a80ccefb33c600cc0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 082/117] fix: diffusionAddCountsFromSource finds the counts of
 numbers and citations and leaves the given counts

---
 metaknowledge/diffusion.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/metaknowledge/diffusion.py b/metaknowledge/diffusion.py
index fadff99..e0607f7 100644
--- a/metaknowledge/diffusion.py
+++ b/metaknowledge/diffusion.py
@@ -3,6 +3,7 @@ import itertools
 import networkx as nx
 
 from .WOS.tagProcessing.funcDicts import tagsAndNameSet, normalizeToTag
+from .citation import Citation
 from .progressBar import _ProgressBar
 from .recordCollection import RecordCollection
 
@@ -402,19 +403,15 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
         PBar.updateVal(0, 'Getting counts')
         if countsDict is None:
             countsDict = diffusionCount(source, target, sourceType = nodeType, extraValue = extraType, _ProgBar = PBar, extraMapping = extraMapping)
-        try:
-            if not isinstance(countsDict.keys().__iter__().__next__(), str):
-                PBar.updateVal(.5, "Prepping the counts")
-                newCountsDict = {}
-                while True:
-                    try:
-                        k, v = countsDict.popitem()
-                    except KeyError:
-                        break
-                    newCountsDict[str(k)] = v
-                countsDict = newCountsDict
-        except StopIteration:
-            pass
+        PBar.updateVal(.5, "Prepping the counts")
+        #The nodes are the values, how they are written, or for Citations their ID
+        nodeCounts = dict(countsDict)
+        for k, v in countsDict.items():
+            if not isinstance(k, str):
+                nodeCounts.setdefault(str(k), v)
+                if isinstance(k, Citation):
+                    nodeCounts.setdefault(k.ID(), v)
+        countsDict = {str(k) : v for k, v in countsDict.items()}
         count = 0
         for n in grph.nodes():
             PBar.updateVal(.5 + .5 * (count / len(grph)), "Adding count for '{}'".format(n))
@@ -424,7 +421,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
                         grph.nodes[n][key] = 0
                 grph.nodes[n][diffusionLabel] = 0
                 try:
-                    for k, v in countsDict[n].items():
+                    for k, v in nodeCounts[n].items():
                         if k == 'TargetCount':
                             grph.nodes[n][diffusionLabel] = v
                         else:
@@ -433,7 +430,7 @@ def diffusionAddCountsFromSource(grph, source, target, nodeType = 'citations', e
                 except KeyError:
                     grph.nodes[n][diffusionLabel] = 0
             else:
-                grph.nodes[n][diffusionLabel] = countsDict.get(n, 0)
+                grph.nodes[n][diffusionLabel] = nodeCounts.get(n, 0)
             count += 1
         PBar.finish("Done adding diffusion counts to a graph")
     return countsDict
-- 
2.43.0


From 605b02a3af017c93bc74d924d725dc265b8fc082 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:18 +0000
Subject: [PATCH 083/117] fix: rpys accepts a single year in dropYears, as
 documented

---
 metaknowledge/recordCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3320d95..c30b038 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -810,6 +810,8 @@ class RecordCollection(CollectionWithIDs):
 
         if dropYears is None:
             dropYears = set()
+        elif isinstance(dropYears, int):
+            dropYears = {dropYears}
         yearCounts = {}
         retDict = {'year' : [], 'count' : [], 'abs-deviation' : [], 'rank' : []}
 
-- 
2.43.0


From 78ceea6959d52a9e5f2cdb0b86c293e003b3e230 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:18 +0000
Subject: [PATCH 084/117] fix: getCitations drops the citations missing the
 named field

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 5a2b314..ab3506c 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -578,7 +578,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             for cite in self.get('citations', []):
                 try:
                     targetVal = getattr(cite, field)
-                    if values is None or targetVal in values:
+                    if targetVal is not None and (values is None or targetVal in values):
                         retCites.append(cite)
                 except AttributeError:
                     pass
-- 
2.43.0


From a3a9ee9d8d9ea1d5cf3feff06a73133fc12d7ff7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 085/117] fix: writeCSV splitByTag writes a record once to the
 file of a value it repeats and keeps files of values that begin alike
 together

---
 metaknowledge/recordCollection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index c30b038..45bfc49 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -358,16 +358,21 @@ class RecordCollection(CollectionWithIDs):
             if genderCounts:
                 recDict['num-Male'], recDict['num-Female'], recDict['num-Unknown'] = R.authGenders(_countsTuple = True)
             if splitByTag:
+                #a value the record repeats still gives it only one row
+                splitNames = []
                 for sTag in splitVal:
-                    if sTag in filesDict:
-                        filesDict[sTag][1].writerow(recDict)
+                    fname = "{}-{}".format(sTag[:200], baseFileName)
+                    if fname not in splitNames:
+                        splitNames.append(fname)
+                for fname in splitNames:
+                    if fname in filesDict:
+                        filesDict[fname][1].writerow(recDict)
                     else:
-                        fname = "{}-{}".format(sTag[:200], baseFileName)
                         f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
                         csvWriter.writeheader()
                         csvWriter.writerow(recDict)
-                        filesDict[sTag] = (f, csvWriter)
+                        filesDict[fname] = (f, csvWriter)
             else:
                 csvWriter.writerow(recDict)
         if splitByTag:
-- 
2.43.0


From f4d25c7910210b62c7275f44f6465b62e61abddf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 086/117] fix: writeCSV splitByTag writes to valid file names,
 in the directory of fname

---
 metaknowledge/recordCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 45bfc49..3a03248 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -361,7 +361,9 @@ class RecordCollection(CollectionWithIDs):
                 #a value the record repeats still gives it only one row
                 splitNames = []
                 for sTag in splitVal:
-                    fname = "{}-{}".format(sTag[:200], baseFileName)
+                    #values can be objects or contain path separators
+                    fname = "{}-{}".format(str(sTag)[:200].replace(os.sep, '_'), os.path.basename(baseFileName))
+                    fname = os.path.join(os.path.dirname(baseFileName), fname)
                     if fname not in splitNames:
                         splitNames.append(fname)
                 for fname in splitNames:
-- 
2.43.0


From 289c154280df1430b4209ebde674ba0be4269e56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 087/117] fix: writeCSV splitByTag does not run out of open
 files

---
 metaknowledge/recordCollection.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 3a03248..4123a77 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -332,7 +332,7 @@ class RecordCollection(CollectionWithIDs):
             csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
             csvWriter.writeheader()
         else:
-            filesDict = {}
+            writtenFiles = set()
         for R in self:
             if splitByTag:
                 try:
@@ -367,20 +367,16 @@ class RecordCollection(CollectionWithIDs):
                     if fname not in splitNames:
                         splitNames.append(fname)
                 for fname in splitNames:
-                    if fname in filesDict:
-                        filesDict[fname][1].writerow(recDict)
-                    else:
-                        f = open(fname, mode = 'w', encoding = 'utf-8', newline = '')
+                    #the files are not kept open, there can be more values than a process may open files
+                    with open(fname, mode = 'a' if fname in writtenFiles else 'w', encoding = 'utf-8', newline = '') as f:
                         csvWriter = csv.DictWriter(f, csvWriterFields, delimiter = csvDelimiter, quotechar = csvQuote, quoting=csv.QUOTE_ALL)
-                        csvWriter.writeheader()
+                        if fname not in writtenFiles:
+                            csvWriter.writeheader()
                         csvWriter.writerow(recDict)
-                        filesDict[fname] = (f, csvWriter)
+                    writtenFiles.add(fname)
             else:
                 csvWriter.writerow(recDict)
-        if splitByTag:
-            for f, c in filesDict.values():
-                f.close()
-        else:
+        if not splitByTag:
             f.close()
 
     def writeBib(self, fname = None, maxStringLength = 1000, wosMode = False, reducedOutput = False, niceIDs = True):
-- 
2.43.0


From dfb51996806900e29b76473f82b7374433555bd1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 088/117] fix: makeDict and writeCSV accept the common fields
 without a short tag, like the default 'id', with longNames

---
 metaknowledge/recordCollection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 4123a77..d1315ce 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -14,6 +14,7 @@ from .constants import __version__
 from .mkRecord import Record, _pandasPrep
 from .progressBar import _ProgressBar
 from .WOS.tagProcessing.funcDicts import tagToFullDict, fullToTagDict, normalizeToTag
+from .constants import commonRecordFields
 from .citation import Citation
 from .fileHandlers import recordHandlers
 from .mkExceptions import BadWOSRecord, RCTypeError, BadInputFile, BadRecord, RCValueError, RecordsNotCompatible, UnknownFile
@@ -314,7 +315,7 @@ class RecordCollection(CollectionWithIDs):
                 retrievedFields += tagsLst
         if longNames:
             try:
-                retrievedFields = [tagToFullDict[t] for t in retrievedFields]
+                retrievedFields = [t if t in commonRecordFields else tagToFullDict[t] for t in retrievedFields]
             except KeyError:
                 raise KeyError("One of the tags could not be converted to a long name.")
         if fname:
@@ -743,7 +744,7 @@ class RecordCollection(CollectionWithIDs):
                 retrievedFields += tagsLst
         if longNames:
             try:
-                retrievedFields = [tagToFullDict[t] for t in retrievedFields]
+                retrievedFields = [t if t in commonRecordFields else tagToFullDict[t] for t in retrievedFields]
             except KeyError:
                 raise KeyError("One of the tags could not be converted to a long name.")
         retDict = {k : [] for k in retrievedFields}
-- 
2.43.0


From 7f514241e6770c9796edd2091d51d3404c2f607a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 089/117] fix: makeDict and writeCSV give the common fields of
 Records of all sources

---
 metaknowledge/recordCollection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d1315ce..d08e3ea 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -299,13 +299,17 @@ class RecordCollection(CollectionWithIDs):
         if firstTags is None:
             firstTags = ['id', 'title', 'authorsFull', 'citations', 'keywords', 'DOI']
         firstTags = list(firstTags)
+        #The tags are those of WOS, other Records only know the fields by the names given
+        givenNames = {}
         for i in range(len(firstTags)):
             if firstTags[i] in fullToTagDict:
+                givenNames[fullToTagDict[firstTags[i]]] = firstTags[i]
                 firstTags[i] = fullToTagDict[firstTags[i]]
         if onlyTheseTags:
             onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
+                    givenNames[fullToTagDict[onlyTheseTags[i]]] = onlyTheseTags[i]
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
             retrievedFields = [t for t in firstTags if t in onlyTheseTags] + [t for t in onlyTheseTags if t not in firstTags]
         else:
@@ -345,7 +349,7 @@ class RecordCollection(CollectionWithIDs):
                         splitVal = [str(splitVal)]
             recDict = {}
             for t in retrievedFields:
-                value = R.get(t)
+                value = R.get(givenNames.get(t, t))
                 if isinstance(value, str):
                     recDict[t] = value
                 elif hasattr(value, '__iter__'):
@@ -731,10 +735,13 @@ class RecordCollection(CollectionWithIDs):
 
         > Default `True`, if `True` adds the number of authors as the column `'numAuthors'`.
         """
+        #The tags are those of WOS, other Records only know the fields by the names given
+        givenNames = {}
         if onlyTheseTags:
             onlyTheseTags = list(onlyTheseTags)
             for i in range(len(onlyTheseTags)):
                 if onlyTheseTags[i] in fullToTagDict:
+                    givenNames[fullToTagDict[onlyTheseTags[i]]] = onlyTheseTags[i]
                     onlyTheseTags[i] = fullToTagDict[onlyTheseTags[i]]
             retrievedFields = onlyTheseTags
         else:
@@ -760,8 +767,8 @@ class RecordCollection(CollectionWithIDs):
                 retDict['num-Male'].append(m)
                 retDict['num-Female'].append(f)
                 retDict['num-Unknown'].append(u)
-            for k, v in R.subDict(retrievedFields, raw = raw).items():
-                retDict[k].append(v)
+            for k in set(retrievedFields):
+                retDict[k].append(R.get(givenNames.get(k, k), raw = raw))
         return retDict
 
     def rpys(self, minYear = None, maxYear = None, dropYears = None, rankEmptyYears = False):
-- 
2.43.0


From 71fabb8da6031407ee4db07884f299ab77b95cb9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:48 +0000
Subject: [PATCH 090/117] fix: nameStringGender raises its exception instead of
 returning it

---
 metaknowledge/genders/nameGender.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/genders/nameGender.py b/metaknowledge/genders/nameGender.py
index 2bc9dac..db0fdf7 100644
--- a/metaknowledge/genders/nameGender.py
+++ b/metaknowledge/genders/nameGender.py
@@ -60,7 +60,7 @@ def nameStringGender(s, noExcept = False):
         if noExcept:
             return 'Unknown'
         else:
-            return GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
+            raise GenderException("The given String: '{}' does not have a  last name, first name pair in with a ', ' seperation.".format(s))
     if mappingDict is None:
         mappingDict = getMapping()
     return mappingDict.get(first, 'Unknown')
-- 
2.43.0


From f436e8de6d3758540c8401d49af2d508f2c65832 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 091/117] fix: bibString keeps the quotation marks of values
 longer than maxLength

---
 metaknowledge/mkRecord.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index ab3506c..9a50966 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -779,9 +779,12 @@ def _bibFormatter(s, maxLength):
     elif not isinstance(s, str):
         s = str(s)
     if len(s) > maxLength:
-        s = s.replace('"', '')
+        quoted = '"' not in s
         s = [s[i * maxLength: (i + 1) * maxLength] for i in range(len(s) // maxLength )]
-        s = '"{}"'.format('" # "'.join(s))
+        if quoted:
+            s = '"{}"'.format('" # "'.join(s))
+        else:
+            s = '{{{}}}'.format('} # {'.join(s))
     elif '"' not in s:
         s = '"{}"'.format(s)
     else:
-- 
2.43.0


From 20f93478ff154c73c1aae740590c8c928726a885 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 092/117] fix: bibString in WOSMode cut the first characters of
 the ids of other sources

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 9a50966..9328b7d 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -744,7 +744,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
                     bibID += '-' + tiSorted.pop().title() #Title Case
             if len(bibID) < 30:
                 bibID += str(self.id)
-        elif WOSMode:
+        elif WOSMode and str(self.id).startswith('WOS:'):
             bibID = 'ISI:{}'.format(self.id[4:])
         else:
             bibID = str(self.id)
-- 
2.43.0


From 3baf75b5d709ae34f7354c852d570068260a74b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 093/117] fix: bibString wrote keys and field names with
 characters BibTeX does not accept in them

---
 metaknowledge/mkRecord.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 9328b7d..7fd9d0c 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -18,6 +18,7 @@ except ImportError:
     import collections
     collections.abc = collections
 import copy
+import re
 
 from .constants import commonRecordFields
 
@@ -748,6 +749,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
             bibID = 'ISI:{}'.format(self.id[4:])
         else:
             bibID = str(self.id)
+        bibID = _bibName(bibID)
         keyEntries.append("author = {{{{{}}}}},".format(' and '.join(self.get('authorsFull', ['None']))))
         if restrictedOutput:
             tagsIter = ((k, self[k]) for k in commonRecordFields if k in self)
@@ -756,16 +758,20 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
         if WOSMode:
             for tag, value in tagsIter:
                 if isinstance(value, list):
-                    keyEntries.append("{} = {{{{{}}}}},".format(tag,'\n   '.join((str(v) for v in value))))
+                    keyEntries.append("{} = {{{{{}}}}},".format(_bibName(tag),'\n   '.join((str(v) for v in value))))
                 else:
-                    keyEntries.append("{} = {{{{{}}}}},".format(tag, value))
+                    keyEntries.append("{} = {{{{{}}}}},".format(_bibName(tag), value))
             s = """@{0}{{ {1},\n{2}\n}}""".format('misc', bibID, '\n'.join(keyEntries))
         else:
             for tag, value in tagsIter:
-                keyEntries.append("{} = {},".format(tag, _bibFormatter(value, maxLength)))
+                keyEntries.append("{} = {},".format(_bibName(tag), _bibFormatter(value, maxLength)))
             s = """@{0}{{ {1},\n    {2}\n}}""".format('misc', bibID, '\n    '.join(keyEntries))
         return s
 
+def _bibName(s):
+    """Replaces the characters that cannot be in the keys of bib entries or the names of their fields"""
+    return re.sub(r"""[\s{}(),="#%~'\\]""", '-', s)
+
 def _bibFormatter(s, maxLength):
     """Formats a string, list or number to make it good for a bib file by:
         * if too long splits up the string correctly
-- 
2.43.0


From 842a211617145239fa8df564a1fa7914ae274bbd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:24 +0000
Subject: [PATCH 094/117] fix: forNLP gives the abstracts of Records of all
 sources

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index d08e3ea..52a6f5f 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -677,7 +677,7 @@ class RecordCollection(CollectionWithIDs):
             for R in self:
                 pcount += 1
                 PBar.updateVal(pcount/ pmax, "Analyzing: {}".format(R))
-                abstract, copyrightString = abPrep(R.get('AB', ''))
+                abstract, copyrightString = abPrep(R.get('abstract', ''))
 
                 retDict['id'].append(R.id)
                 retDict['year'].append(R.get('year', ''))
-- 
2.43.0


From 6922c3fd6f812e3ebb1aae9af6886995b49124f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:24 +0000
Subject: [PATCH 095/117] fix: forNLP gives a column asked for twice once, as
 long as the others

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 52a6f5f..439887c 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -667,7 +667,7 @@ class RecordCollection(CollectionWithIDs):
         if extraColumns is None:
             extraColumns = []
         else:
-            extraColumns = list(extraColumns)
+            extraColumns = list(dict.fromkeys(extraColumns))
             for builtinColumn in ['id', 'year', 'title', 'keywords', 'abstract']:
                 if builtinColumn in extraColumns:
                     extraColumns.remove(builtinColumn)
-- 
2.43.0


From 2a0de93fa94d0919c7e0ed9308b658b07604609a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:24 +0000
Subject: [PATCH 096/117] fix: forBurst does not give the empty text between
 two spaces as a word

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 439887c..2d3dffa 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -516,7 +516,7 @@ class RecordCollection(CollectionWithIDs):
             if lower:
                 inString = inString.lower()
             inString = re.sub(otherDropsRegex, otherRepl, inString, count = 0)
-            sTokens = inString.split(' ')
+            sTokens = [s for s in inString.split(' ') if s]
             if stemmer is not None:
                 retTokens = []
                 for token in sTokens:
-- 
2.43.0


From 7ffe3e743ad73ec15a5cdeba0c3efb100a5cb9c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:04 +0000
Subject: [PATCH 097/117] fix: Citation.addToDB keeps full names for the
 citations of the session as getj9dict gives them

---
 metaknowledge/citation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index dc82890..b88b0c6 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -363,10 +363,12 @@ class Citation(collections.abc.Hashable):
             else:
                 d = {self.journal : manualName}
             addToDB(abbr = d, dbname = manualDB)
-        except KeyError:
+        except (AttributeError, KeyError):
             raise KeyError("This citation does not have a journal field.")
         else:
-            abbrevDict.update(d)
+            #the names are kept in the same form as getj9dict() gives them
+            if abbrevDict is not None:
+                abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
-- 
2.43.0


From d52415b44ea951cf03db446c236bc812f04862be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:04 +0000
Subject: [PATCH 098/117] fix: updatej9DB adds the new names of abbreviations
 that are already in the database

---
 metaknowledge/journalAbbreviations/backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index fb94759..178ce3c 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -119,9 +119,11 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
                 raise urllib.error.URLError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
+                    jNames = db[k].decode('utf-8').split('|')
                     for jName in v:
-                        if jName not in j9Dict[k]:
-                            j9Dict[k] += '|' + jName
+                        if jName not in jNames:
+                            jNames.append(jName)
+                    db[k] = '|'.join(jNames)
                 else:
                     db[k] = '|'.join(v)
     except dbm.dumb.error as e:
-- 
2.43.0


From bdb7f6c24a4f2ba035435346ce1296c518ab3905 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:04 +0000
Subject: [PATCH 099/117] fix: updatej9DB keeps the names of an abbreviation
 that is on several pages

---
 metaknowledge/journalAbbreviations/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 178ce3c..da08173 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -89,7 +89,8 @@ def _getCurrentj9Dict():
         d = _getDict(urllib.request.urlopen(url))
         if len(d) == 0:
             raise RuntimeError("Parsing failed, this is could require an update of the parser.")
-        j9Dict.update(d)
+        for k, v in d.items():
+            j9Dict[k] = j9Dict.get(k, []) + v
     return j9Dict
 
 def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
-- 
2.43.0


From dda14e1a59940f688c3b9f5ca2057e3f6d89c52a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:04 +0000
Subject: [PATCH 100/117] fix: getj9dict regenerates the database it was asked
 for instead of recursing without end

---
 metaknowledge/journalAbbreviations/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index da08173..83c8d09 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -158,7 +158,7 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
                 for k, v in db.items():
                     retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
     except JournalDataBaseError:
-        updatej9DB()
+        updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
     try:
         if returnDict == 'both' or returnDict == 'manual':
-- 
2.43.0


From 0d4ec0068d93087627b0f7db1a6620f0bf80390a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:04 +0000
Subject: [PATCH 101/117] fix: getj9dict does not download the listing of WOS
 into a missing manual database

---
 metaknowledge/journalAbbreviations/backend.py | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 83c8d09..2cf9f05 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -160,18 +160,14 @@ def getj9dict(dbname = abrevDBname, manualDB = manualDBname, returnDict ='both')
     except JournalDataBaseError:
         updatej9DB(dbname = dbname)
         return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
-    try:
-        if returnDict == 'both' or returnDict == 'manual':
-            if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
-                with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
-                    for k, v in db.items():
-                        retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
-            else:
-                if returnDict == 'manual':
-                    raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
-    except JournalDataBaseError:
-        updatej9DB(dbname = manualDB)
-        return getj9dict(dbname = dbname, manualDB = manualDB, returnDict = returnDict)
+    if returnDict == 'both' or returnDict == 'manual':
+        if os.path.isfile(dbLoc + '/{}.dat'.format(manualDB)):
+            with dbm.dumb.open(dbLoc + '/{}'.format(manualDB)) as db:
+                for k, v in db.items():
+                    retDict[k.decode('utf-8')] = v.decode('utf-8').split('|')
+        else:
+            if returnDict == 'manual':
+                raise JournalDataBaseError("Manual J9 Database ({0}) missing, to create it run addToDB(dbname = {0})".format(manualDB))
     return retDict
 
 def addToDB(abbr = None, dbname = manualDBname):
-- 
2.43.0


From 1be84151e76b53157196dea53bf5a59446f8d687 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:04 +0000
Subject: [PATCH 102/117] fix: the command-line tool excludes journals from the
 database chosen

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b0eaa29..b7f1000 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -200,7 +200,7 @@ def getWhatToDo(clargs, inRC):
                             c.addToDB(manualDB= dbName)
                             print("{} added as a journal abbrviation.".format(c.journal))
                         else:
-                            c.addToDB(invert = True)
+                            c.addToDB(manualDB = dbName, invert = True)
                             print("{} will now be skipped".format(c.journal))
         except KeyboardInterrupt:
             print('\nExiting manual citation clasification', end = '')
-- 
2.43.0


From 01196575880dfd7fe606e077ef3e66e5fcea9872 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 103/117] fix: Citation.addToDB raises its KeyError for
 citations without a journal

---
 metaknowledge/citation.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index b88b0c6..9447508 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -355,20 +355,18 @@ class Citation(collections.abc.Hashable):
 
         > Default `False`, if `True` the journal will be removed instead of added
         """
-        try:
-            if invert:
-                d = {self.journal : ''}
-            elif manualName is None:
-                d = {self.journal : self.journal}
-            else:
-                d = {self.journal : manualName}
-            addToDB(abbr = d, dbname = manualDB)
-        except (AttributeError, KeyError):
+        if not getattr(self, 'journal', None):
             raise KeyError("This citation does not have a journal field.")
+        if invert:
+            d = {self.journal : ''}
+        elif manualName is None:
+            d = {self.journal : self.journal}
         else:
-            #the names are kept in the same form as getj9dict() gives them
-            if abbrevDict is not None:
-                abbrevDict.update({k : v.split('|') for k, v in d.items()})
+            d = {self.journal : manualName}
+        addToDB(abbr = d, dbname = manualDB)
+        #the names are kept in the same form as getj9dict() gives them
+        if abbrevDict is not None:
+            abbrevDict.update({k : v.split('|') for k, v in d.items()})
 
 def filterNonJournals(citesLst, invert = False):
     """Removes the `Citations` from _citesLst_ that are not journals
-- 
2.43.0


From 7e5524e974a71316be3cfcc2509f2851e36efee7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 104/117] fix: updatej9DB without a connection raises its
 URLError instead of one telling to delete the database

---
 metaknowledge/journalAbbreviations/backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/journalAbbreviations/backend.py b/metaknowledge/journalAbbreviations/backend.py
index 2cf9f05..acc1a15 100644
--- a/metaknowledge/journalAbbreviations/backend.py
+++ b/metaknowledge/journalAbbreviations/backend.py
@@ -112,12 +112,12 @@ def updatej9DB(dbname = abrevDBname, saveRawHTML = False):
             os.mkdir(rawDir)
         _j9SaveCurrent(sDir = rawDir)
     dbLoc = os.path.join(os.path.normpath(os.path.dirname(__file__)), dbname)
+    try:
+        j9Dict = _getCurrentj9Dict()
+    except urllib.error.URLError:
+        raise urllib.error.URLError("Unable to access server, check your connection")
     try:
         with dbm.dumb.open(dbLoc, flag = 'c') as db:
-            try:
-                j9Dict = _getCurrentj9Dict()
-            except urllib.error.URLError:
-                raise urllib.error.URLError("Unable to access server, check your connection")
             for k, v in j9Dict.items():
                 if k in db:
                     jNames = db[k].decode('utf-8').split('|')
-- 
2.43.0


From bf2c9a3c1b7a4abc11ccbabd24a2a324bb3dff21 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 105/117] fix: Record.getCitations gives the caller a list of
 its own

---
 metaknowledge/mkRecord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/mkRecord.py b/metaknowledge/mkRecord.py
index 7fd9d0c..2d190ec 100644
--- a/metaknowledge/mkRecord.py
+++ b/metaknowledge/mkRecord.py
@@ -584,7 +584,7 @@ class ExtendedRecord(Record, metaclass = abc.ABCMeta):
                 except AttributeError:
                     pass
         else:
-            retCites = self.get('citations', [])
+            retCites = list(self.get('citations', []))
         if pandasFriendly:
             return _pandasPrep(retCites, False)
         return retCites
-- 
2.43.0


From e61fccbdf2e1c7ae8909028c3120c2287abc233e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:42 +0000
Subject: [PATCH 106/117] fix: multi-mode networks count values that are zero
 or empty, as the other networks do

---
 metaknowledge/mkCollection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metaknowledge/mkCollection.py b/metaknowledge/mkCollection.py
index f6a5e6b..b8c30aa 100644
--- a/metaknowledge/mkCollection.py
+++ b/metaknowledge/mkCollection.py
@@ -1258,13 +1258,13 @@ class CollectionWithIDs(Collection):
                 for t in tags:
                     tmpVal = R.get(t)
                     if stemCheck:
-                        if tmpVal:
+                        if tmpVal is not None:
                             if isinstance(tmpVal, list):
                                 contents.append((t, [stemmer(str(v)) for v in tmpVal]))
                             else:
                                 contents.append((t, [stemmer(str(tmpVal))]))
                     else:
-                        if tmpVal:
+                        if tmpVal is not None:
                             if isinstance(tmpVal, list):
                                 contents.append((t, [str(v) for v in tmpVal]))
                             else:
-- 
2.43.0


From 2ec6b6f7f3faa69a37a254eefb0d1a4c3716a52f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:02 +0000
Subject: [PATCH 107/117] fix: core attributes of a field whose values are not
 strings, e.g. the citations

---
 metaknowledge/recordCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 2d3dffa..65083e4 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1742,7 +1742,7 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                         for tag in coreValues:
                             v = R.get(tag, None)
                             if isinstance(v, list):
-                                d[tag] = '|'.join(sorted(v))
+                                d[tag] = '|'.join(sorted(str(e) for e in v))
                             else:
                                 d[tag] = v
                     d['inCore'] = True
-- 
2.43.0


From 7a94e1e77c51d1bc9534d70e7887e4b281e3ba50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:02 +0000
Subject: [PATCH 108/117] fix: the info of core nodes leaves out the year and
 other numbers, and fails on citations

---
 metaknowledge/recordCollection.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index 65083e4..f4b49dc 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1731,12 +1731,10 @@ def makeNodeTuple(citation, idVal, nodeInfo, fullInfo, nodeType, count, coreCite
                         infoVals = []
                         for tag in coreValues:
                             tagVal = R.get(tag)
-                            if isinstance(tagVal, str):
-                                infoVals.append(tagVal.replace(',',''))
-                            elif isinstance(tagVal, list):
-                                infoVals.append(tagVal[0].replace(',',''))
-                            else:
-                                pass
+                            if isinstance(tagVal, list):
+                                infoVals.append(str(tagVal[0]).replace(',',''))
+                            elif tagVal is not None:
+                                infoVals.append(str(tagVal).replace(',',''))
                         d['info'] = ', '.join(infoVals)
                     else:
                         for tag in coreValues:
-- 
2.43.0


From 7dc3987fb04923c90f03e391c4c7991b516141bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:06 +0000
Subject: [PATCH 109/117] fix: expanded core of a network without weights
 leaves authors unconnected

Nodes of one record that already were in the network got no edge between
them when the network has no weights.
---
 metaknowledge/recordCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/recordCollection.py b/metaknowledge/recordCollection.py
index f4b49dc..4e65d96 100644
--- a/metaknowledge/recordCollection.py
+++ b/metaknowledge/recordCollection.py
@@ -1818,7 +1818,9 @@ def expandRecs(G, RecCollect, nodeType, weighted):
                                 G.edges[citeID1, citeID2]['weight'] += 1
                             except KeyError:
                                 G.add_edge(citeID1, citeID2, weight = 1)
-                        for e1, e2, data in G.edges(citeID1, data = True):
+                        else:
+                            G.add_edge(citeID1, citeID2)
+                        for e1, e2, data in list(G.edges(citeID1, data = True)):
                             G.add_edge(citeID2, e2, **data)
 
 
-- 
2.43.0


From 51bd16d5d04554234222024d7479a4a150a7bd47 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 110/117] fix: command line menus come back after the python
 console

---
 metaknowledge/bin/metaknowledgeCLI.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index b7f1000..a2bdd6b 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -62,6 +62,7 @@ def inputMenu(inputDict, header = None, footer = None, errorMsg = 'That is not a
             else:
                 bannerMsg += '.'
         code.interact(local = globals(), banner = bannerMsg)
+        return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg, extraOptions = extraOptions)
     else:
         print('\033[93m\a' + errorMsg + '\033[0m') #Not windows compatible
         return inputMenu(inputDict, header = header, footer = footer, errorMsg = errorMsg, promptMsg = promptMsg)
-- 
2.43.0


From a2484852829bba45a9544eb7eea48d4ccc392696 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 111/117] fix: --name gives the collection of the command line
 its name

---
 metaknowledge/bin/metaknowledgeCLI.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index a2bdd6b..d511775 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -113,13 +113,13 @@ def getFiles(args):
             else:
                 raise TypeError(path + " is not an existing file or directory")
         if args.name:
-            tmpRC._repr = args.name
+            tmpRC.name = args.name
         else:
             FileNames = [os.path.basename(nm) for nm in args.files]
             if len(FileNames) == 1:
-                tmpRC._repr = "WOS files from: {}".format(FileNames[0])
+                tmpRC.name = "WOS files from: {}".format(FileNames[0])
             else:
-                tmpRC._repr = "WOS files from: {0} and {1}".format(', '.join(FileNames[:-1]), FileNames[-1])
+                tmpRC.name = "WOS files from: {0} and {1}".format(', '.join(FileNames[:-1]), FileNames[-1])
         return tmpRC
     else:
         nflist = input("What files or directorys do you want to extract a network from: ")
-- 
2.43.0


From 4ec056713186da9a8a13852ae246858aa342f101 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 112/117] fix: going over citations skips those without a
 journal

---
 metaknowledge/bin/metaknowledgeCLI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index d511775..e51e0f2 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -189,7 +189,7 @@ def getWhatToDo(clargs, inRC):
         try:
             for R in inRC:
                 for c in R.get('citations', []):
-                    if not hasattr(c, 'journal'):
+                    if not getattr(c, 'journal', None):
                         print("{} does not have a journal field".format(c))
                     elif c.isJournal(manualDB= dbName, returnDict ='both'):
                         print("the journal field of {} is in the database".format(c.journal))
-- 
2.43.0


From cb42018a652524a5872511d329811f4319f56261 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 113/117] fix: command line writes GraphML of networks with
 missing values

---
 metaknowledge/bin/metaknowledgeCLI.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metaknowledge/bin/metaknowledgeCLI.py b/metaknowledge/bin/metaknowledgeCLI.py
index e51e0f2..ded4ddb 100644
--- a/metaknowledge/bin/metaknowledgeCLI.py
+++ b/metaknowledge/bin/metaknowledgeCLI.py
@@ -329,7 +329,12 @@ def  outputNetwork(clargs, grph):
         metaknowledge.writeNodeAttributeFile(grph, outName)
     else:
         outName = getOutputName(clargs, '.graphml')
-        nx.write_graphml(grph, outName)
+        outGrph = grph.copy()
+        for e in list(outGrph.nodes(data = True)) + list(outGrph.edges(data = True)):
+            #GraphML cannot store missing values
+            for k in [k for k, v in e[-1].items() if v is None]:
+                del e[-1][k]
+        nx.write_graphml(outGrph, outName)
 
 def mkCLI():
     try:
-- 
2.43.0


From 8e8fb5f57dfcecbcc465f489f64215f49d5cd215 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 114/117] fix: glimpse in a terminal of six lines with a
 wrapped description

---
 metaknowledge/RCglimpse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index cea6180..36ea8fe 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -24,13 +24,14 @@ def _glimpse(RC, *tags, compact = False):
     #If it can't fit just go with the usual settings
     if tColumns < 55:
         tColumns = 80
-    if tRows < 6:
-        tRows = 24
     glimpseVals = collections.OrderedDict()
     if len(descriptionStringFull) > tColumns:
-        maxRows = tRows - 7
+        headerRows = 7
     else:
-        maxRows = tRows - 6
+        headerRows = 6
+    if tRows < headerRows:
+        tRows = 24
+    maxRows = tRows - headerRows
     for name, tag in targetTags.items():
         glimpseVals[name] = RC.rankedSeries(tag, giveCounts = False, giveRanks = True, pandasMode = False)
     return makeHeader(RC, tColumns, targetTags, compact) + makeTable(glimpseVals, maxRows, tColumns, compact)
-- 
2.43.0


From 4fdeec7bbb1542723140e9c7416c6551c0dcf881 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 115/117] fix: long titles do not make the table of glimpse
 wider than the terminal

---
 metaknowledge/RCglimpse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index 36ea8fe..5ab5fe2 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -59,13 +59,13 @@ def makeTable(values, height, width, compact):
         cRemainder = width % len(values) - 1
         for title, rows in values.items():
             if cRemainder > 0:
-                heading = "{1:-^{0}}".format(cWidth + 1, title)
+                heading = "{1:-^{0}}".format(cWidth + 1, title[:cWidth + 1])
                 cRemainder -= 1
             elif cRemainder < 0:
-                heading = "{1:-^{0}}".format(cWidth - 1, title)
+                heading = "{1:-^{0}}".format(cWidth - 1, title[:cWidth - 1])
                 cRemainder += 1
             else:
-                heading = "{1:-^{0}}".format(cWidth, title)
+                heading = "{1:-^{0}}".format(cWidth, title[:cWidth])
             hWidth = len(heading)
             lines[0].append(heading)
             if len(rows) < height:
-- 
2.43.0


From 4ff856e615c4e69821c2898a12b82617972dfda4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 116/117] fix: ranks of three digits do not make the table of
 glimpse wider than the terminal

---
 metaknowledge/RCglimpse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metaknowledge/RCglimpse.py b/metaknowledge/RCglimpse.py
index 5ab5fe2..c7a571c 100644
--- a/metaknowledge/RCglimpse.py
+++ b/metaknowledge/RCglimpse.py
@@ -85,8 +85,10 @@ def makeTable(values, height, width, compact):
 
 def prepEntry(maxLength, valString, rank):
     valString = str(valString)
-    if len(valString) <= maxLength - 2:
-        valString = valString.rjust(maxLength - 2, ' ')
+    rankString = "{:<2.0f}".format(rank)
+    maxLength -= len(rankString)
+    if len(valString) <= maxLength:
+        valString = valString.rjust(maxLength, ' ')
     else:
-        valString = "{}.".format(valString[:maxLength - 3])
-    return "{:<2.0f}{}".format(rank, valString)
+        valString = "{}.".format(valString[:maxLength - 1])
+    return rankString + valString
-- 
2.43.0


From 095dde51403f6ec112404772f8a240f638029cac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:40 +0000
Subject: [PATCH 117/117] fix: Citation.Extra() works on citations that lack
 some of the fields (Scopus)

---
 metaknowledge/citation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metaknowledge/citation.py b/metaknowledge/citation.py
index 9447508..b755326 100644
--- a/metaknowledge/citation.py
+++ b/metaknowledge/citation.py
@@ -260,7 +260,7 @@ class Citation(collections.abc.Hashable):
         extraTags = ['V', 'P', 'DOI', 'misc']
         retVal = ""
         for tag in extraTags:
-            if getattr(self, tag):
+            if getattr(self, tag, None):
                 retVal += getattr(self, tag) + ', '
         if len(retVal) > 2:
             return retVal[:-2]
-- 
2.43.0

