From c0979be6bcae36fe8f05bf981fca434ee1593458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 01/53] fix: correctionReplace inserts only the characters not
 yet used; empty insertion is a no-op

---
 common/lattice.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..a18642f 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -824,7 +824,7 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
     VertexDescriptor from = here;
-    VertexDescriptor to;
+    VertexDescriptor to = here;
     std::string::iterator iter = text.begin();
     std::string::iterator end = text.end();
     while (iter != end) {
@@ -839,6 +839,9 @@ void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
         );
         from = to;
     }
+    if (to == here) {
+        return;
+    }
     try {
         EdgeDescriptor nextEdge
             = firstOutEdge(here, symbolMask_);
@@ -881,7 +884,7 @@ void Lattice::correctionReplace(VertexDescriptor from, VertexDescriptor to, std:
         std::string::iterator end = text.end();
         while (iter != end) {
             if (from == to) {
-                return correctionInsert(from, text);
+                return correctionInsert(from, std::string(iter, end));
             }
             std::string symbol;
             utf8::append(utf8::next(iter, end), std::back_inserter(symbol));
-- 
2.43.0


From 7377300eac8d1b1c5691a788bad78f22e5acddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 02/53] fix: symbol edges leaving a loose vertex no longer
 index the visibility bitset with a negative position

---
 common/lattice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index a18642f..56d49ea 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -237,9 +237,13 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (tags == getSymbolTag()) {
             try {
                 firstOutEdge(from, symbolMask_);
-                visibleImplicitOutEdges_[from] = true;
+                if (!isLooseVertex(from)) {
+                    visibleImplicitOutEdges_[from] = true;
+                }
                 EdgeDescriptor ed = firstInEdge(to, symbolMask_);
-                visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                if (!isLooseVertex(getEdgeSource(ed))) {
+                    visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                }
             } catch (NoEdgeException) {
             }
         }
-- 
2.43.0


From 7b99e9c04370cb23df04193dee19ad184467d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 03/53] fix: a path skipping blanks follows only edges of the
 layer and blank edges

---
 common/lattice.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2f8a788..b4a764e 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -908,14 +908,16 @@ Lattice::EdgeSequence Lattice::getPathWithSkipping(
             vertex = getEdgeTarget(bestOne);
         } else {
             iter = allOutEdges(vertex);
-            if (iter.hasNext()) {
-                EdgeDescriptor bestOne = iter.next();
-                while (iter.hasNext()) {
-                    EdgeDescriptor currentOne = iter.next();
-                    if (skippingPredicate(*this, currentOne)) {
-                        bestOne = iter.next();
-                    }
+            EdgeDescriptor bestOne;
+            bool bestOneFound = false;
+            while (iter.hasNext()) {
+                EdgeDescriptor currentOne = iter.next();
+                if (skippingPredicate(*this, currentOne)) {
+                    bestOne = currentOne;
+                    bestOneFound = true;
                 }
+            }
+            if (bestOneFound) {
                 pathBuilder.addEdge(bestOne);
                 vertex = getEdgeTarget(bestOne);
             } else {
-- 
2.43.0


From c007e99e14a8b11fdaacfe6c01425e0c59b48364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 04/53] fix: layer queries see the tags an existing annotation
 acquires by a later merge or discard

---
 common/lattice.cpp | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 common/lattice.hpp |  9 +++++++++
 2 files changed, 56 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 56d49ea..75f1eac 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -210,6 +210,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (edge.isExplicit()) {
             if (tags != oldTags) {
                 graph_[edge.descriptor].tagList = tags;
+                updateTagMaskIndices_(edge.descriptor, oldTags);
             }
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
@@ -949,6 +950,52 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     }
 }
 
+void Lattice::updateTagMaskIndices_(
+    Graph::edge_descriptor edge,
+    const LayerTagCollection& oldTags
+) {
+    Graph::vertex_descriptor source = boost::source(edge, graph_);
+    Graph::vertex_descriptor target = boost::target(edge, graph_);
+    for (
+        TagMasksHash::iterator iter = indexedTagMasks_.begin();
+        iter != indexedTagMasks_.end();
+        ++iter
+    ) {
+        if (
+            matches(oldTags, iter->first)
+            || !matches(graph_[edge].tagList, iter->first)
+        ) {
+            continue;
+        }
+        // the edges are kept in the order in which they were added
+        std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& outEdgesList
+            = graph_[source].outEdgesIndex[iter->second];
+        std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>::iterator place
+            = outEdgesList.begin();
+        BOOST_FOREACH(Graph::edge_descriptor outEdge, boost::out_edges(source, graph_)) {
+            if (outEdge == edge) {
+                outEdgesList.insert(place, edge);
+                break;
+            }
+            if (matches(graph_[outEdge].tagList, iter->first)) {
+                ++place;
+            }
+        }
+        std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& inEdgesList
+            = graph_[target].inEdgesIndex[iter->second];
+        place = inEdgesList.begin();
+        BOOST_FOREACH(Graph::edge_descriptor inEdge, boost::in_edges(target, graph_)) {
+            if (inEdge == edge) {
+                inEdgesList.insert(place, edge);
+                break;
+            }
+            if (matches(graph_[inEdge].tagList, iter->first)) {
+                ++place;
+            }
+        }
+    }
+}
+
 void Lattice::resizeImplicitEdgesStructures_() {
     implicitOutEdges_.resize(allText_.length()+1);
     hiddenImplicitOutEdges_.resize(allText_.length()+1);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index b4a764e..448cbfe 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -744,6 +744,15 @@ private:
 
     void resizeImplicitEdgesStructures_();
 
+    /**
+     * Updates the indices of the source and target vertices of an edge
+     * whose layer tags have just been extended.
+     */
+    void updateTagMaskIndices_(
+        Graph::edge_descriptor edge,
+        const LayerTagCollection& oldTags
+    );
+
     VertexDescriptor priorVertex_(VertexDescriptor vertex);
 
     size_t symbolLength_(int ix) const;
-- 
2.43.0


From b22027bb351e73b501dd9081413a5434a0dfb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 05/53] fix: tags, score and derivations merged into a symbol
 annotation are kept on that annotation

---
 common/lattice.cpp | 99 ++++++++++++++++++++++++++++++++++------------
 common/lattice.hpp | 20 ++++++++++
 2 files changed, 93 insertions(+), 26 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 75f1eac..f12c56f 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -125,7 +125,7 @@ size_t Lattice::getVertexRawCharIndex(VertexDescriptor vd) {
 Lattice::EdgeDescriptor Lattice::addEdge(
     VertexDescriptor from,
     VertexDescriptor to,
-    const AnnotationItem& annotationItem,
+    const AnnotationItem& givenAnnotationItem,
     LayerTagCollection tags,
     EdgeSequence sequence,
     Score score,
@@ -145,6 +145,16 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         throw ReversedEdgeException("Cannot add a reversed edge");
     }
 
+    // a bare symbol is kept as an implicit edge (its text is the symbol itself)
+    bool bareSymbol = tags == getSymbolTag()
+        && sequence.empty() && score == 0.0 && ruleId == -1 && treeChoice == -1
+        && isSymbolAnnotation_(from, to, givenAnnotationItem);
+
+    AnnotationItem annotationItem(
+        bareSymbol ?
+            AnnotationItem(givenAnnotationItem, StringFrag(allText_.substr(from, to - from))) :
+            givenAnnotationItem);
+
     // result of adding edge to the boost graph
     std::pair<Graph::edge_descriptor, bool> result;
 
@@ -217,10 +227,17 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             }
             graph_[edge.descriptor].partitions.push_back(
                 Partition(tags, sequence, score, ruleId, treeChoice));
-        } else {
-            implicitOutEdges_.set(from, false);
-            edge.implicitIndex = -1;
-            needToAddEdge = true;
+        } else if (!bareSymbol) {
+            std::map<int, EdgeEntry>::iterator entryIter
+                = annotatedSymbols_.find(edge.implicitIndex);
+            if (entryIter == annotatedSymbols_.end()) {
+                entryIter = annotatedSymbols_.insert(
+                    std::pair<int, EdgeEntry>(edge.implicitIndex, EdgeEntry())).first;
+            }
+            entryIter->second.tagList = tags;
+            entryIter->second.score = std::max(oldScore, score);
+            entryIter->second.partitions.push_back(
+                Partition(tags, sequence, score, ruleId, treeChoice));
         }
     }
 
@@ -250,13 +267,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         }
 
         // updating implicit edges, where applicable
-        if (
-            !isLooseVertex(from)
-            && !isLooseVertex(to)
-            && tags == getSymbolTag()
-            && from + (int) symbolLength_(from) == to
-            && !implicitOutEdges_[from]
-        ) {
+        if (bareSymbol && !implicitOutEdges_[from]) {
             implicitOutEdges_.set(from, true);
             (insertResult.first)->second.push_back(EdgeDescriptor(from));
             return EdgeDescriptor(from);
@@ -392,18 +403,14 @@ Lattice::InOutEdgesIterator Lattice::outEdges(
     VerticesMap::iterator iter = vertices_.find(vertex);
     if (iter == vertices_.end()) {
         return Lattice::InOutEdgesIterator(
-            (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
-             && implicitOutEdges_[vertex]) ?
-                vertex : -1
+            isImplicitOutEdgeMatching_(vertex, mask) ? vertex : -1
         );
     }
     Graph::vertex_descriptor boost_vertex = (*iter).second;
     return Lattice::InOutEdgesIterator(
         graph_[boost_vertex].outEdgesIndex[ix].begin(),
         graph_[boost_vertex].outEdgesIndex[ix].end(),
-        (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
-         && implicitOutEdges_[vertex]) ?
-            vertex : -1
+        isImplicitOutEdgeMatching_(vertex, mask) ? vertex : -1
     );
 }
 
@@ -427,25 +434,21 @@ Lattice::InOutEdgesIterator Lattice::inEdges(
     VertexDescriptor priorVertex;
     try {
         priorVertex = priorVertex_(vertex);
-        priorVertexImplicitOutEdges = implicitOutEdges_[priorVertex];
+        priorVertexImplicitOutEdges = isImplicitOutEdgeMatching_(priorVertex, mask);
     } catch (NoVertexException) {
         priorVertexImplicitOutEdges = false;
     }
     VerticesMap::iterator iter = vertices_.find(vertex);
     if (iter == vertices_.end()) {
         return Lattice::InOutEdgesIterator(
-            (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
-             && priorVertexImplicitOutEdges) ?
-                priorVertex : -1
+            priorVertexImplicitOutEdges ? priorVertex : -1
         );
     }
     Graph::vertex_descriptor boost_vertex = (*iter).second;
     return Lattice::InOutEdgesIterator(
         graph_[boost_vertex].inEdgesIndex[ix].begin(),
         graph_[boost_vertex].inEdgesIndex[ix].end(),
-        (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
-         && priorVertexImplicitOutEdges) ?
-            priorVertex : -1
+        priorVertexImplicitOutEdges ? priorVertex : -1
     );
 }
 
@@ -570,6 +573,10 @@ const LayerTagCollection& Lattice::getEdgeLayerTags(Lattice::EdgeDescriptor edge
     if (edge.isExplicit()) {
         return graph_[edge.descriptor].tagList;
     }
+    std::map<int, EdgeEntry>::const_iterator iter = annotatedSymbols_.find(edge.implicitIndex);
+    if (iter != annotatedSymbols_.end()) {
+        return iter->second.tagList;
+    }
     return getSymbolTag();
 }
 
@@ -611,7 +618,8 @@ int Lattice::getEdgeLength(Lattice::EdgeDescriptor edge) const {
 bool Lattice::isEdgeHidden(Lattice::EdgeDescriptor edge) const {
     return !edge.isExplicit()
         && hiddenImplicitOutEdges_[edge.implicitIndex]
-        && !visibleImplicitOutEdges_[edge.implicitIndex];
+        && !visibleImplicitOutEdges_[edge.implicitIndex]
+        && annotatedSymbols_.find(edge.implicitIndex) == annotatedSymbols_.end();
 }
 
 const std::list<Lattice::Partition> & Lattice::getEdgePartitions(
@@ -620,6 +628,10 @@ const std::list<Lattice::Partition> & Lattice::getEdgePartitions(
     if (edge.isExplicit()) {
         return graph_[edge.descriptor].partitions;
     }
+    std::map<int, EdgeEntry>::const_iterator iter = annotatedSymbols_.find(edge.implicitIndex);
+    if (iter != annotatedSymbols_.end()) {
+        return iter->second.partitions;
+    }
     return emptyPartitionList_;
 }
 
@@ -627,6 +639,10 @@ Lattice::Score Lattice::getEdgeScore(Lattice::EdgeDescriptor edge) const {
     if (edge.isExplicit()) {
         return graph_[edge.descriptor].score;
     }
+    std::map<int, EdgeEntry>::const_iterator iter = annotatedSymbols_.find(edge.implicitIndex);
+    if (iter != annotatedSymbols_.end()) {
+        return iter->second.score;
+    }
     return 0.0;
 }
 
@@ -1016,6 +1032,37 @@ Lattice::VertexDescriptor Lattice::priorVertex_(Lattice::VertexDescriptor vertex
     return vertex - symbol.length();
 }
 
+bool Lattice::isSymbolAnnotation_(
+    VertexDescriptor from,
+    VertexDescriptor to,
+    const AnnotationItem& annotationItem
+) {
+    if (
+        isLooseVertex(from)
+        || isLooseVertex(to)
+        || to > int(allText_.length())
+        || from + int(symbolLength_(from)) != to
+    ) {
+        return false;
+    }
+    std::string symbol = allText_.substr(from, to - from);
+    std::string text = annotationItem.getText();
+    return annotationItem.getCategory() == "'" + symbol
+        && (text.empty() || text == symbol)
+        && annotationItemManager_.getValues(annotationItem).empty();
+}
+
+bool Lattice::isImplicitOutEdgeMatching_(VertexDescriptor vertex, const LayerTagMask& mask) {
+    if (!implicitOutEdges_[vertex]) {
+        return false;
+    }
+    std::map<int, EdgeEntry>::const_iterator iter = annotatedSymbols_.find(vertex);
+    if (iter != annotatedSymbols_.end()) {
+        return matches(iter->second.tagList, mask);
+    }
+    return layerTagManager_.canBeAppliedToImplicitSymbol(mask);
+}
+
 size_t Lattice::symbolLength_(int ix) const {
     return symbolLength(allText_, ix);
 }
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 448cbfe..ef2e762 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -728,6 +728,12 @@ private:
      */
     boost::dynamic_bitset<> visibleImplicitOutEdges_;
 
+    /**
+     * Stores the tags, the score and the derivations merged into implicit edges.
+     * Implicit edges which are not there are bare symbols.
+     */
+    std::map<int, EdgeEntry> annotatedSymbols_;
+
     typedef std::map<int, Graph::vertex_descriptor> VerticesMap;
 
     /**
@@ -757,6 +763,20 @@ private:
 
     size_t symbolLength_(int ix) const;
 
+    /**
+     * Checks whether the annotation is the one borne by a symbol edge between given vertices.
+     */
+    bool isSymbolAnnotation_(
+        VertexDescriptor from,
+        VertexDescriptor to,
+        const AnnotationItem& annotationItem
+    );
+
+    /**
+     * Checks whether there is an implicit out-edge matching the mask.
+     */
+    bool isImplicitOutEdgeMatching_(VertexDescriptor vertex, const LayerTagMask& mask);
+
     int getEdgeSourceInternalIndex_(EdgeDescriptor edge) const;
     int getEdgeTargetInternalIndex_(EdgeDescriptor edge) const;
 
-- 
2.43.0


From 618bd03701963873ff83a2d992302b4822332a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 06/53] fix: inserting text at the end of a document does not
 link the inserted characters in a cycle

---
 common/lattice.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index f12c56f..d7c922d 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -844,6 +844,15 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 }
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
+    if (text.empty()) {
+        return;
+    }
+    // the edge to be followed must be found before the inserted edges are added
+    boost::optional<EdgeDescriptor> nextEdge;
+    try {
+        nextEdge = firstOutEdge(here, symbolMask_);
+    } catch (NoEdgeException) {
+    }
     VertexDescriptor from = here;
     VertexDescriptor to = here;
     std::string::iterator iter = text.begin();
@@ -860,14 +869,8 @@ void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
         );
         from = to;
     }
-    if (to == here) {
-        return;
-    }
-    try {
-        EdgeDescriptor nextEdge
-            = firstOutEdge(here, symbolMask_);
-        addEdge(to, getEdgeTarget(nextEdge), getEdgeAnnotationItem(nextEdge), getSymbolTag());
-    } catch (NoEdgeException) {
+    if (nextEdge) {
+        addEdge(to, getEdgeTarget(*nextEdge), getEdgeAnnotationItem(*nextEdge), getSymbolTag());
     }
 }
 
-- 
2.43.0


From d5c0aa95ffb302b256d98e9f9e4921f83f86ce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 07/53] fix: appending text with symbols works when extra
 points follow the end of the text

---
 common/lattice.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index d7c922d..db78a42 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -65,9 +65,9 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
 }
 
 void Lattice::appendStringWithSymbols(const std::string & text) {
-    Lattice::VertexDescriptor joinPoint = getLastVertex();
+    Lattice::VertexDescriptor joinPoint = allText_.length();
     appendString(text);
-    addSymbols(joinPoint, getLastVertex());
+    addSymbols(joinPoint, allText_.length());
 }
 
 Lattice::VertexDescriptor Lattice::addLooseVertex() {
-- 
2.43.0


From 2675b56f18c599472693abb404429c317c8d9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 08/53] fix: an edge sequence of non-adjacent characters is
 never compressed to a range

---
 common/lattice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index db78a42..49dee0f 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1252,6 +1252,7 @@ Lattice::EdgeSequence::Builder& Lattice::EdgeSequence::Builder::addEdge(
         } else if (lattice_.getEdgeBeginIndex(edge) == end) {
             end = lattice_.getEdgeEndIndex(edge);
         } else {
+            begin = 1;
             end = 0;
         }
     } else {
-- 
2.43.0


From 61879154550cb78efd63f40500d321011f7e4174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 09/53] fix: integer attribute values beyond 30 bits keep their
 value

---
 common/zvalue.cpp | 11 ++++++-----
 common/zvalue.hpp |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/common/zvalue.cpp b/common/zvalue.cpp
index f0d6895..1cae6bd 100644
--- a/common/zvalue.cpp
+++ b/common/zvalue.cpp
@@ -358,11 +358,12 @@ char* itoa(int i)
     char buf[16];
     char *s = buf;
     int neg = 0;
-    if (i<0) { i*=-1; neg=1; }
-    if (0==i) { *s++ = '0'; }
-    while (i>0) {
-        *s++ = '0' + i%10;
-        i/=10;
+    unsigned int u = i;
+    if (i<0) { u = -u; neg=1; }
+    if (0==u) { *s++ = '0'; }
+    while (u>0) {
+        *s++ = '0' + u%10;
+        u/=10;
     }
     char* result = new char[s-buf+1+neg];
     char* r = result;
diff --git a/common/zvalue.hpp b/common/zvalue.hpp
index 0ab36ce..3978095 100644
--- a/common/zvalue.hpp
+++ b/common/zvalue.hpp
@@ -34,7 +34,7 @@ class zobject;
 #define TRUEP(z)    ( !( NULLP((z)) || ZEROP((z)) ) )
 
 #define ZVALUE_TO_INTEGER(z) ( reinterpret_cast<zint_t>(z) >> 1 )
-#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>(((i) << 1) | 1) )
+#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>((static_cast<zint_t>(i) << 1) | 1) )
 #define INTEGERP(z)          ( reinterpret_cast<zint_t>(z) & 1 )
 
 #define ZVALUE_TO_ZOBJECT(z) ( reinterpret_cast<zobject*>(z) )
-- 
2.43.0


From f27de2942b69ffae2c4b98f894a164934f0b53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 10/53] fix: equality and hash of annotation items do not
 depend on which attribute names were registered first

---
 common/annotation_item.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/annotation_item.cpp b/common/annotation_item.cpp
index d13c08f..8f80f4c 100644
--- a/common/annotation_item.cpp
+++ b/common/annotation_item.cpp
@@ -26,6 +26,9 @@ long AnnotationItem::getHash() const {
     std::string str = category_;
     str += text_.str();
     BOOST_FOREACH(const zvalue & av, values_) {
+        if (NULLP(av)) {
+            continue; // empty cells do not distinguish items
+        }
         char * avStr = zvalue_to_string(av);
         str += avStr;
         delete [] avStr;
@@ -60,9 +63,7 @@ bool AnnotationItem::areAttributesTheSame_(const AnnotationItem& other) const {
    }
 
    for (size_t i = smallerSize; i < largerSize; ++i) {
-       char * valStr = zvalue_to_string((*largerVector)[i]);
-       if (strcmp(valStr, "") != 0) {
-           delete [] valStr;
+       if (!NULLP((*largerVector)[i])) {
            return false;
        }
    }
-- 
2.43.0


From 2848c057d18698003ac9eaaee9f241004117890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 11/53] fix: asking a layer condition whether it is empty does
 not change what it matches

---
 common/layer_tag_mask.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/layer_tag_mask.cpp b/common/layer_tag_mask.cpp
index 74a2b06..9b9163e 100644
--- a/common/layer_tag_mask.cpp
+++ b/common/layer_tag_mask.cpp
@@ -14,7 +14,6 @@ bool LayerTagMask::isNone() {
             return false;
     }
 
-    none_ = true;
     return true;
 }
 
-- 
2.43.0


From 739bacb44522c0a030400bc714d7088937a27e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 12/53] fix: only two hexadecimal digits, not naming the NUL
 character, decode a % escape of an address

---
 server/server/request_handler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d25e1a0..241c52f 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -4,6 +4,7 @@
 //
 
 #include "request_handler.hpp"
+#include <cctype>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -86,7 +87,10 @@ bool request_handler::url_decode(const std::string& in, std::string& out)
       {
         int value = 0;
         std::istringstream is(in.substr(i + 1, 2));
-        if (is >> std::hex >> value)
+        if (isxdigit(static_cast<unsigned char>(in[i + 1]))
+            && isxdigit(static_cast<unsigned char>(in[i + 2]))
+            && is >> std::hex >> value
+            && value != 0)
         {
           out += static_cast<char>(value);
           i += 2;
-- 
2.43.0


From cfc8d7c9bb920951a1e89549c45ea0f4120e747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 13/53] fix: the address of a directory is answered with 404,
 not with an empty page

---
 server/server/request_handler.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index 241c52f..4f8180d 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -57,6 +57,15 @@ void request_handler::handle_request(const request& req, reply& rep)
   // Open the file to send back.
   std::string full_path = doc_root_ + request_path;
   std::ifstream is(full_path.c_str(), std::ios::in | std::ios::binary);
+  is.peek(); // a directory can be opened, but not read
+  if (is.bad())
+  {
+    is.setstate(std::ios::failbit);
+  }
+  else if (is.eof())
+  {
+    is.clear(); // an empty file
+  }
   if (!is)
   {
     rep = reply::stock_reply(reply::not_found);
-- 
2.43.0


From c76be682743e7e7ef3fea0fc380e29e63edcbe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 14/53] fix: the session identifier is read from the cookie of
 that name only

---
 server/session_manager.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..02ec14b 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -1,19 +1,26 @@
 #include "session_manager.hpp"
 #include "logging.hpp"
 
+#include <algorithm>
 #include <iostream>
 
 std::string SessionManager::cookieIdentifier = "PSISESSIONID";
 int SessionManager::sessionIdLength = 25;
 
 std::string SessionManager::SessionId(std::string cookies) {
-    size_t hasId = cookies.find(cookieIdentifier);
+    const std::string prefix = cookieIdentifier + "=";
 
-    std::string id = "";
-    if (hasId != std::string::npos) {
-        id = cookies.substr(hasId + cookieIdentifier.size() + 1, sessionIdLength);
+    for (size_t begin = 0; begin < cookies.size(); ) {
+        size_t end = (std::min)(cookies.find(';', begin), cookies.size());
+        size_t name = (std::min)(cookies.find_first_not_of(" \t", begin), end);
+
+        if (cookies.compare(name, prefix.size(), prefix) == 0) {
+            size_t value = name + prefix.size();
+            return cookies.substr(value, end - value);
+        }
+        begin = end + 1;
     }
-    return id;
+    return std::string("");
 }
 
 std::string SessionManager::CookieHeaderValue(std::string & id) {
-- 
2.43.0


From c4e35163f2e8a959b3babfd7294af8b0c4e2a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 15/53] fix: a new session is the stored one, not an unattached
 copy

---
 server/session_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 02ec14b..269d91e 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -64,9 +64,9 @@ Session * SessionManager::getSession(std::string & id) {
 
 Session * SessionManager::newSession() {
     std::string id = generateNewId();
-    Session * ses = new Session(id);
-    addSession(ses);
-    return ses;
+    Session ses(id);
+    addSession(&ses);
+    return getSession(id);
 }
 
 Session * SessionManager::currentSession() {
-- 
2.43.0


From e345c73b36aa358c884eebc3471dbf7a241118b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 16/53] fix: storages sharing a directory never overwrite each
 other's files

---
 common/file_storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/file_storage.cpp b/common/file_storage.cpp
index c7e9f24..e01699e 100644
--- a/common/file_storage.cpp
+++ b/common/file_storage.cpp
@@ -44,6 +44,11 @@ std::string FileStorage::storeFile(const std::string& content) {
 std::string FileStorage::storeFile(const std::string& content, const std::string& ext) {
     std::string newGuid = guidGenerator_.getGUID();
 
+    // another storage with the same root might have used the same name
+    while (isFileStored_(newGuid, ext)) {
+        newGuid = guidGenerator_.getGUID();
+    }
+
     return storeFile_(content, newGuid, ext);
 }
 
-- 
2.43.0


From ea649f6963f6833cd729e45e47c41451d96b4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 17/53] fix: concurrently handled requests do not use each
 other's session

---
 server/psi_request_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 64a51db..59a0c21 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -4,6 +4,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/assign.hpp>
+#include <boost/thread/mutex.hpp>
 
 std::map<std::string, std::string> PsiRequestHandler::filesToContentTypes =
     boost::assign::map_list_of
@@ -37,6 +38,10 @@ std::map<std::string, std::string> PsiRequestHandler::fileExceptionsToContentTyp
 void PsiRequestHandler::handle_request(
     const http::server3::request& req, http::server3::reply& rep
 ) {
+    // the current session and the sites are shared: one request at a time
+    static boost::mutex requestMutex;
+    boost::mutex::scoped_lock lock(requestMutex);
+
     http::server3::request req_modified = req;
 
     // session management
-- 
2.43.0


From 441e598c01e4229ab4a899b7a6bee5c7d09d5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 18/53] fix: the last byte of a multipart body is kept

---
 server/server/request_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..ad94a98 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -330,6 +330,7 @@ boost::tribool request_parser::consume(request& req, char input)
         return boost::indeterminate;
     }
     else {
+        req.post_data += input;
         return true;
     }
   default:
-- 
2.43.0


From f50e43cd0fc4e32f1114da9b8e1a5bbd1a376e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 19/53] fix: a POST request without a body is complete at the
 end of its headers

---
 server/server/request_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index ad94a98..b954c36 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -296,6 +296,10 @@ boost::tribool request_parser::consume(request& req, char input)
                 state_ = multipart_start;
             }
             set_post_data_length(req);
+            if (post_data_length_ <= 0) {
+                // there is no body to wait for
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
-- 
2.43.0


From c2bf20b031924e12081354659d321f88c9dff9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 20/53] fix: form data without = does not make the server loop
 forever

---
 server/psi_server.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..258b8a6 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -182,9 +182,15 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
     int flag_done = 0;
 
     while (!flag_done) {
-        q = uri.find("=", p);
+        q = uri.find_first_of("=&", p);
         name = uri.substr(p, q-p);
-        p = q + 1;
+        if (q == -1) {
+            q = uri.length();
+        }
+        if (q < (int)uri.length() && uri[q] == '=') {
+            ++q;
+        }
+        p = q; // without '=' the value is empty
         q = uri.find("&", p);
 
         if (q != -1) {
-- 
2.43.0


From 77d804c9fa15ff9e3d9f4c30d01d0e3440d15346 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 21/53] fix: intersect: use the start states of the second
 automaton and follow empty moves

The second component of the start states was taken from the first automaton,
a pair was final only without empty moves, and with allowAny an empty move
could stand for ANY.
---
 .../datastructures/psi_query/fsa_algorithms.hpp  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 2f4b0cb..5b60bd2 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -228,14 +228,14 @@ class Intersector {
     std::set<state_type> startFn() const {
         std::set<state_type> starts;
         BOOST_FOREACH( typename FSA1::state_type p1, m_fsa1.getStartStates() )
-            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa1.getStartStates() )
+            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa2.getStartStates() )
                 starts.insert(state_type(p1, p2));
 
         return starts;
     }
 
     bool finalFn(state_type p) const {
-        return (m_fsa1.isEndState(p.first) && m_fsa2.isEndState(p.second));
+        return reachesEndState(m_fsa1, p.first) && reachesEndState(m_fsa2, p.second);
     }
 
     std::set<arc_type, ArcSorter> arcFn(state_type p) const {
@@ -260,7 +260,7 @@ class Intersector {
                         }
 
                         if (m_allowAny) {
-                            if (ait1->getSymbol() == ANY) {
+                            if (ait1->getSymbol() == ANY && ait2->getSymbol() != EPS) {
                                 arcs.insert(
                                     arc_type(
                                         ait2->getSymbol(),
@@ -268,7 +268,7 @@ class Intersector {
                                     )
                                 );
                             }
-                            else if (ait2->getSymbol() == ANY) {
+                            else if (ait2->getSymbol() == ANY && ait1->getSymbol() != EPS) {
                                 arcs.insert(
                                     arc_type(
                                         ait1->getSymbol(),
@@ -285,6 +285,14 @@ class Intersector {
     }
 
   private:
+    template <typename FSA>
+    static bool reachesEndState(const FSA &fsa, typename FSA::state_type p) {
+        BOOST_FOREACH(typename FSA::state_type q, fsa.epsClosure(p))
+            if (fsa.isEndState(q))
+                return true;
+        return false;
+    }
+
     const FSA1 &m_fsa1;
     const FSA2 &m_fsa2;
     bool m_allowAny;
-- 
2.43.0


From 743f3375598a79b327c8e59365327f787788e497 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 22/53] fix: kleene_option and kleene_star accept the empty
 word

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 5b60bd2..e3b2ddf 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -597,6 +597,8 @@ void kleene_option(FSA &fsa) {
         fsa.unsetEndState(p);
         fsa.addArc(p, typename FSA::arc_type(EPS, ne));
     }
+
+    fsa.addArc(ns, typename FSA::arc_type(EPS, ne));
 }
 
 /*******************************************************************************
-- 
2.43.0


From f1e23362eefa3a5102da80caeabeb51e931d0997 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 23/53] fix: concatenate: the second automaton does not start
 on its own

The start states of the second automaton were only unset when the first one
had end states.
---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index e3b2ddf..7e7d607 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -557,13 +557,16 @@ void concatenate(FSA1 &dst, FSA2 &src) {
 
     BOOST_FOREACH(typename FSA1::state_type p, first_end) {
         BOOST_FOREACH(typename FSA1::state_type q, second_start) {
-            if (!first_start.count(q)) {
+            if (!first_start.count(q))
                 dst.addArc(p, typename FSA1::arc_type(EPS, q));
-                dst.unsetStartState(q);
-            }
         }
         dst.unsetEndState(p);
     }
+
+    BOOST_FOREACH(typename FSA1::state_type q, second_start) {
+        if (!first_start.count(q))
+            dst.unsetStartState(q);
+    }
 }
 
 /*******************************************************************************
-- 
2.43.0


From edb24d53295ca28b19b9039c06692b1276dc8079 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 24/53] fix: minimize_incremental: accept empty collections and
 the empty word alone

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 7e7d607..555be06 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -716,7 +716,11 @@ void replace_or_register(DFSA &fsa,
 
     //std::cerr << "replace or register: " << state << std::endl;
 
-    ArcIt last_arc = fsa.getArcs(state).second-1;
+    ArcRange<ArcIt> arcs = fsa.getArcs(state);
+    if (arcs.first == arcs.second)
+        return;
+
+    ArcIt last_arc = arcs.second-1;
     State last_child = last_arc->getDest();
     ArcRange<ArcIt> range = fsa.getArcs(last_child);
     if (range.first != range.second)
-- 
2.43.0


From a9c6d00bd561ca8bd0ed31008e597ef5a02ca01a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 25/53] fix: copying an automaton replaces the one assigned to

The states were appended to those already there, and the implicit copy
constructor shared (and then deleted twice) the arcs.
---
 tools/datastructures/psi_query/fsa_ndfsa.hpp      |  1 +
 tools/datastructures/psi_query/fsa_ndfsa_impl.hpp | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/tools/datastructures/psi_query/fsa_ndfsa.hpp b/tools/datastructures/psi_query/fsa_ndfsa.hpp
index d04bd57..0ed0a46 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa.hpp
@@ -257,6 +257,7 @@ pointers, iterators to states and transitions will be invalidated.
 *******************************************************************************/
     void print();
 
+    NDFSA(const NDFSA<arc_type> &);
     NDFSA<arc_type>& operator=(const NDFSA<arc_type> &);
 
 };
diff --git a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
index 8a9f86f..97d0ae3 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
@@ -45,6 +45,11 @@ NDFSA<ArcT>::NDFSA(std::string input) {
     setEndState(q);
 }
 
+template <typename ArcT>
+NDFSA<ArcT>::NDFSA(const NDFSA<ArcT> &a) {
+    *this = a;
+}
+
 template <typename ArcT>
 NDFSA<ArcT>::~NDFSA() {
     BOOST_FOREACH( Arcs* arcs, m_states )
@@ -239,6 +244,13 @@ std::set<typename ArcT::state_type> NDFSA<ArcT>::epsClosure(typename ArcT::state
 
 template <typename ArcT>
 NDFSA<ArcT>& NDFSA<ArcT>::operator=(const NDFSA<ArcT> &a) {
+    if (this == &a)
+        return *this;
+
+    BOOST_FOREACH(Arcs* arcs, m_states)
+        delete arcs;
+    m_states.clear();
+
     BOOST_FOREACH(Arcs* arcs, a.m_states)
         m_states.push_back(new Arcs(*arcs));
 
-- 
2.43.0


From 0914d548aa160ab4857c67914c065547a1cedf30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 26/53] fix: looking up the aliases of a name stops at the
 depth limit

The look-up only warned and went on with the limit wrapped around, so that a
loop of aliases made it recurse until the stack was exhausted.
---
 framework/aliaser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/aliaser.cpp b/framework/aliaser.cpp
index a32e67c..befc324 100644
--- a/framework/aliaser.cpp
+++ b/framework/aliaser.cpp
@@ -90,9 +90,11 @@ void Aliaser::findAliases_(
     if (isAlias(name))
         aliases.insert(name);
 
-    if (depthLimit == 0)
+    if (depthLimit == 0) {
         WARN("search depth limit exceeded for `" << name
              << "` , there might be a loop in alias definitions");
+        return;
+    }
 
     std::map<std::string, std::set<std::string> >::const_iterator it
         = destinationAliases_.find(name);
-- 
2.43.0


From 0c7a91b916a816e2758060436f9e8b65bab98877 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 27/53] fix: completing a pipeline terminates when processors
 require each other

A processor added to meet a requirement is not added again as long as its own
requirements are open: with A requiring what B provides and B requiring what A
provides the sequence grew without end.
---
 framework/auto_completer.cpp | 26 +++++++++++++++++++++++---
 framework/auto_completer.hpp | 11 ++++++++++-
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/framework/auto_completer.cpp b/framework/auto_completer.cpp
index 0b100a3..2668d26 100644
--- a/framework/auto_completer.cpp
+++ b/framework/auto_completer.cpp
@@ -174,7 +174,8 @@ void AutoCompleter::complete_(ProcessorPromiseAlternativeSequence& sequence) {
                     }
 
                     ProcessorPromiseAlternative fulfillers = findFulfillers_(
-                        *unfulfilledRequiredTags, langCode);
+                        *unfulfilledRequiredTags, langCode,
+                        getOpenProcessors_(iter, sequence.end()));
 
                     if (fulfillers->empty()) {
                         INFO(" not found!");
@@ -254,7 +255,8 @@ bool AutoCompleter::isSubset_(LayerTagList sub, LayerTagList sup) {
 }
 
 ProcessorPromiseAlternative AutoCompleter::findFulfillers_(
-    LayerTagList requiredTags, boost::optional<std::string> langCode) {
+    LayerTagList requiredTags, boost::optional<std::string> langCode,
+    const std::set<std::string>& openProcessors) {
     MainFactoriesKeeper& keeper = MainFactoriesKeeper::getInstance();
 
     ProcessorPromiseAlternative fulfillersAlternative(
@@ -266,21 +268,39 @@ ProcessorPromiseAlternative AutoCompleter::findFulfillers_(
         AnnotatorFactory* asAnnotatorFactory =
             dynamic_cast<AnnotatorFactory*>(&factory);
 
+        // an open processor cannot contribute to fulfilling its own requirements
         if (asAnnotatorFactory
+            && openProcessors.count(processorName) == 0
             && !isViciousCircle_(asAnnotatorFactory, requiredTags)
             && isSubset_(requiredTags, asAnnotatorFactory->providedLayerTags())) {
 
             boost::optional<ProcessorPromiseSharedPtr> defaultPromise
                 = getDefaultPromise_(*asAnnotatorFactory, langCode);
 
-            if (defaultPromise)
+            if (defaultPromise) {
+                addedPromises_.insert(*defaultPromise);
                 fulfillersAlternative->push_back(*defaultPromise);
+            }
         }
     }
 
     return fulfillersAlternative;
 }
 
+std::set<std::string> AutoCompleter::getOpenProcessors_(
+    ProcessorPromiseAlternativeSequence::iterator beg,
+    ProcessorPromiseAlternativeSequence::iterator end) {
+
+    std::set<std::string> names;
+
+    for (ProcessorPromiseAlternativeSequence::iterator iter = beg; iter != end; ++iter)
+        BOOST_FOREACH(ProcessorPromiseSharedPtr promise, *(*iter))
+            if (addedPromises_.count(promise))
+                names.insert(promise->getName());
+
+    return names;
+}
+
 bool AutoCompleter::isViciousCircle_(
     AnnotatorFactory* factory,
     LayerTagList requiredTags) {
diff --git a/framework/auto_completer.hpp b/framework/auto_completer.hpp
index bf0ff8e..9c07a0b 100644
--- a/framework/auto_completer.hpp
+++ b/framework/auto_completer.hpp
@@ -2,6 +2,7 @@
 #define AUTO_COMPLETER_HDR
 
 #include <list>
+#include <set>
 #include <boost/shared_ptr.hpp>
 
 #include "processor_promise.hpp"
@@ -37,7 +38,14 @@ private:
     bool isSubset_(LayerTagList sub, LayerTagList sup);
 
     ProcessorPromiseAlternative findFulfillers_(
-        LayerTagList requiredTags, boost::optional<std::string> langCode);
+        LayerTagList requiredTags, boost::optional<std::string> langCode,
+        const std::set<std::string>& openProcessors);
+
+    // names of the processors added by the auto-completer whose requirements
+    // have not been met yet
+    std::set<std::string> getOpenProcessors_(
+        ProcessorPromiseAlternativeSequence::iterator beg,
+        ProcessorPromiseAlternativeSequence::iterator end);
 
     bool isViciousCircle_(
         AnnotatorFactory* factory,
@@ -75,6 +83,7 @@ private:
     boost::optional<double> bestEstimatedTime_;
 
     std::list<ProcessorPromiseSequence> alternativeSequences_;
+    std::set<ProcessorPromiseSharedPtr> addedPromises_;
 };
 
 #endif
-- 
2.43.0


From 98cc902f37e66efd90d4c8dc68a4be0cb1d3b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 28/53] fix: iterators over annotations of a layer survive a
 query about another layer

Asking about a layer condition for the first time moved the lists of all
the other conditions, so that e.g. the antiselector crashed on a place
with two fall-back readings.
---
 common/lattice.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/common/lattice.hpp b/common/lattice.hpp
index ef2e762..e5c34e9 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -12,6 +12,8 @@
 
 #include <boost/graph/adjacency_list.hpp>
 #include <boost/graph/topological_sort.hpp>
+#include <boost/make_shared.hpp>
+#include <boost/shared_ptr.hpp>
 
 #include "utf8/utf8.h"
 
@@ -74,8 +76,25 @@ public:
          */
         int index;
 
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > outEdgesIndex;
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > inEdgesIndex;
+        // The lists are kept behind pointers, so that iterators over a list
+        // stay valid when another mask is indexed.
+        class EdgesIndex {
+        public:
+            typedef std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> EdgesList;
+
+            void push_back(const EdgesList& edgesList) {
+                lists_.push_back(boost::make_shared<EdgesList>(edgesList));
+            }
+
+            EdgesList& operator[](size_t ix) {
+                return *lists_[ix];
+            }
+        private:
+            std::vector< boost::shared_ptr<EdgesList> > lists_;
+        };
+
+        EdgesIndex outEdgesIndex;
+        EdgesIndex inEdgesIndex;
 
         VertexEntry() : index(-1) { }
         VertexEntry(int ix) : index(ix) { }
-- 
2.43.0


From 2a833bdf170ab5ef2a844eaac54f91572358ec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 29/53] fix: joiner's outer join of annotations in a plane with
 out tags without one

The plane is then taken over from the joined annotation, which means the
very same annotation: it was refused as derived from itself.
---
 tools/converters/joiner/joiner.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/converters/joiner/joiner.cpp b/tools/converters/joiner/joiner.cpp
index a721b6d..6b7c7e1 100644
--- a/tools/converters/joiner/joiner.cpp
+++ b/tools/converters/joiner/joiner.cpp
@@ -238,9 +238,9 @@ void Joiner::Worker::doRun() {
             LayerTagCollection edgePlane = tagManager.onlyPlaneTags(
                 lattice_.getEdgeLayerTags(edge));
 
-            // if this is the same plane, we have to avoid circular
-            // references
-            if (providedTagsPlane == edgePlane)
+            // if this is the same plane (also when it is taken over from
+            // the edge), we have to avoid circular references
+            if (providedTagsPlane == edgePlane || providedTagsPlane.isEmpty())
                 lattice_.addPartitionToEdge(
                     edge,
                     providedTags);
-- 
2.43.0


From df3ea571867f8ca3d426c95965c099f1e4f539ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 30/53] fix: iterating writer: groups that begin after a gap
 are opened, only opened ones closed

---
 common/lattice_iter_writer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/lattice_iter_writer.cpp b/common/lattice_iter_writer.cpp
index b93871c..6abee90 100644
--- a/common/lattice_iter_writer.cpp
+++ b/common/lattice_iter_writer.cpp
@@ -14,11 +14,14 @@ void LatticeIterWriter::run() {
         fallbackMap.insert(FallbackMapItem(fallbackTag, std::queue<Lattice::EdgeDescriptor>()));
     }
 
+    typedef std::pair<std::string, Lattice::VertexDescriptor> TagTargetPair;
     std::map<std::string, Lattice::VertexDescriptor> targets;
 
     std::map<std::string, bool> groupOpened;
+    std::map<std::string, bool> groupEnded;
     BOOST_FOREACH(std::string tag, handledTags_) {
         groupOpened[tag] = false;
+        groupEnded[tag] = true;
     }
     bool alternativeOpened = false;
 
@@ -33,6 +36,12 @@ void LatticeIterWriter::run() {
         Lattice::InOutEdgesIterator oei
             = lattice_.outEdges(vd, lattice_.getLayerTagManager().anyTag());
 
+        BOOST_FOREACH(TagTargetPair tagTargetPair, targets) {
+            if (tagTargetPair.second == vd) {
+                groupEnded[tagTargetPair.first] = true;
+            }
+        }
+
         // gather information about edges
         while (oei.hasNext()) {
             edge = oei.next();
@@ -62,8 +71,9 @@ void LatticeIterWriter::run() {
                         fmi->second.push(edge);
                     }
                 }
-                if (isHandledTag_(tag) && targets[tag] == vd) {
+                if (isHandledTag_(tag) && groupEnded[tag]) {
                     targets[tag] = lattice_.getEdgeTarget(edge);
+                    groupEnded[tag] = false;
                     if (groupOpened[tag]) {
                         outputIterator_.closeGroup(tag);
                     }
@@ -148,7 +158,6 @@ void LatticeIterWriter::run() {
 
     }
 
-    typedef std::pair<std::string, Lattice::VertexDescriptor> TagTargetPair;
     BOOST_FOREACH(TagTargetPair tagTargetpair, targets) {
         outputIterator_.closeGroup(tagTargetpair.first);
     }
-- 
2.43.0


From ad123b029e8a1ebbcff455ffa21915154dde6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 31/53] fix: json-simple-writer: escape control characters

---
 formats/json-simple/json_lattice_writer_output.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/formats/json-simple/json_lattice_writer_output.cpp b/formats/json-simple/json_lattice_writer_output.cpp
index 2a16926..9fec21d 100644
--- a/formats/json-simple/json_lattice_writer_output.cpp
+++ b/formats/json-simple/json_lattice_writer_output.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <iostream>
 #include <list>
 #include <string>
@@ -188,6 +189,11 @@ void JSONLatticeWriterOutput::createEscapedJSONString_(
     output = content;
     boost::replace_all(output, "\\", "\\\\");
     boost::replace_all(output, "\"", "\\\"");
+    for (char control = 0; control < 0x20; ++control) {
+        char escaped[7];
+        snprintf(escaped, sizeof(escaped), "\\u%04x", static_cast<unsigned>(control));
+        boost::replace_all(output, std::string(1, control), escaped);
+    }
 
     output = "\"" + output + "\"";
 }
-- 
2.43.0


From d10e586026544d2aa77e90cfe86089b6a6c8e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 32/53] fix: a tokenization rule matching the empty string does
 not stop the tokenizer

---
 tools/tokenizers/tp/tp_token_cutter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/tokenizers/tp/tp_token_cutter.hpp b/tools/tokenizers/tp/tp_token_cutter.hpp
index 990ec5e..b9523ec 100644
--- a/tools/tokenizers/tp/tp_token_cutter.hpp
+++ b/tools/tokenizers/tp/tp_token_cutter.hpp
@@ -48,6 +48,11 @@ AnnotationItem TpTokenCutter::performCutOff(const StringType& text, size_t& posi
 
         if (PerlRegExp::Consume(&textSp, *regexp)) {
             size_t tokenLength = len - textSp.size();
+
+            // a token cannot be empty
+            if (tokenLength == 0)
+                continue;
+
             StringFrag sf(text, positionInText, tokenLength);
             positionInText += tokenLength;
             return AnnotationItem(ruleSet_.getRegexCategory(i), sf);
-- 
2.43.0


From 0cd4a497e6369f2cd2fa2cc78070806d84449576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 33/53] fix: a conditional nested in a switched-off branch of a
 rule file stays switched off

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index b61883a..5e87ce0 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -498,8 +498,13 @@ void TPBasicTokenizerRuleSet::readElse(
     else
     {
         ifstack.back().setType(TELSE);
-        ifstack.back().setValue(true);
-        openedIf = false;
+
+        // when already switched off by an outer condition,
+        // it is the outer condition that has to switch on again
+        if (openedIf) {
+            ifstack.back().setValue(true);
+            openedIf = false;
+        }
     }
 };
 
-- 
2.43.0


From cdf30584c3af21c7d0c696184ee7922039c79c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 34/53] fix: adjacent text fragments are cut on their own

---
 common/lattice.cpp | 27 ++++++++++++++++++++++++++-
 common/lattice.hpp |  3 +++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 49dee0f..a05528a 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1343,7 +1343,7 @@ void Lattice::runCutterOnEdge_(Cutter& cutter, EdgeDescriptor edge, LayerTagMask
 
     VertexDescriptor vertex = getEdgeSource(edge);
 
-    EdgeSequence sequence = getPath(vertex, mask);
+    EdgeSequence sequence = getPathUpTo_(vertex, mask, getEdgeTarget(edge));
 
     if (sequence.empty())
         return;
@@ -1374,6 +1374,31 @@ void Lattice::runCutterOnEdge_(Cutter& cutter, EdgeDescriptor edge, LayerTagMask
     } while (pos < text.length() && pos != std::string::npos);
 }
 
+Lattice::EdgeSequence Lattice::getPathUpTo_(
+    VertexDescriptor& vertex,
+    LayerTagMask mask,
+    VertexDescriptor endVertex) {
+
+    EdgeSequence::Builder pathBuilder(*this);
+
+    while (vertex != endVertex) {
+        InOutEdgesIterator iter = outEdges(vertex, mask);
+
+        if (!iter.hasNext())
+            break;
+
+        EdgeDescriptor bestOne = iter.next();
+
+        while (iter.hasNext())
+            bestOne = iter.next();
+
+        pathBuilder.addEdge(bestOne);
+        vertex = getEdgeTarget(bestOne);
+    }
+
+    return pathBuilder.build();
+}
+
 Lattice::EdgeSequence Lattice::cutSequenceByTextLength_(
     EdgeSequence::Iterator& sequenceIterator,
     int length
diff --git a/common/lattice.hpp b/common/lattice.hpp
index e5c34e9..895e594 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -804,6 +804,9 @@ private:
 
     void runCutterOnEdge_(Cutter& cutter, EdgeDescriptor edge, LayerTagMask mask);
 
+    EdgeSequence getPathUpTo_(
+        VertexDescriptor& vertex, LayerTagMask mask, VertexDescriptor endVertex);
+
     EdgeSequence cutSequenceByTextLength_(
         EdgeSequence::Iterator& sequenceIterator,
         int length
-- 
2.43.0


From b6b92caaefef2def9a65a241ede512b1a2561115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 35/53] fix: parentheses in SRX character classes are left
 alone

---
 tools/segmenters/srx/srx_segmenter.cpp | 29 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/tools/segmenters/srx/srx_segmenter.cpp b/tools/segmenters/srx/srx_segmenter.cpp
index bc32647..ae403d9 100644
--- a/tools/segmenters/srx/srx_segmenter.cpp
+++ b/tools/segmenters/srx/srx_segmenter.cpp
@@ -126,16 +126,31 @@ std::string SrxSegmenter::makeRegexp_(const SrxRule& srxRule) {
 }
 
 std::string SrxSegmenter::makeAllParensNonCapturing_(const std::string& pattern) {
-    size_t pos = 0;
     std::string ret = pattern;
-    while ( (pos = ret.find("(", pos)) != std::string::npos ) {
-        if (!Escaping::isEscaped(ret, pos)
-            && !(pos + 1 < ret.length() && ret[pos+1] == '?')) {
+    bool insideClass = false;
+    size_t classStart = 0;
+
+    for (size_t pos = 0; pos < ret.length(); ++pos) {
+        if (Escaping::isEscaped(ret, pos))
+            continue;
+
+        if (insideClass) {
+            if (ret.compare(pos, 2, "[:") == 0
+                && ret.find(":]", pos + 2) != std::string::npos)
+                pos = ret.find(":]", pos + 2) + 1;
+            // a closing bracket put at the beginning belongs to the class
+            else if (ret[pos] == ']' && pos > classStart)
+                insideClass = false;
+        }
+        else if (ret[pos] == '[') {
+            insideClass = true;
+            classStart = pos + (ret.compare(pos + 1, 1, "^") == 0 ? 2 : 1);
+        }
+        else if (ret[pos] == '('
+                 && !(pos + 1 < ret.length() && ret[pos+1] == '?')) {
             ret.replace(pos+1, 0, "?:");
             pos += 2;
         }
-
-        ++pos;
     }
 
     return ret;
@@ -364,7 +379,7 @@ private:
             PerlStringPiece fragFound;
 
             if (PerlRegExp::FindAndConsume(&currentText, *regexp.get(), &fragFound)) {
-                assert (originalLength > currentText.size());
+                assert (originalLength >= currentText.size());
                 int lengthDiff = originalLength - currentText.size();
 
                 ruleApplication.breakingPosition =
-- 
2.43.0


From 7624e5771b5a8c5472269d4dec73271a449f563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 36/53] fix: fragments of string fragments keep their text

---
 common/string_frag.cpp | 2 +-
 common/string_frag.hpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 22ea01a..7b8a3d3 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -74,7 +74,7 @@ void StringFrag::append(const StringFrag & other) {
     ) {
         len_ += other.len_;
         contents_ = src_.substr(begin_, (std::min)(len_, (size_t)ABBR_LENGTH));
-    } else if (contents_=="" && this != &other) {
+    } else if (length() == 0 && this != &other) {
         this->StringFrag::~StringFrag();
         new (this) StringFrag(other);
     } else {
diff --git a/common/string_frag.hpp b/common/string_frag.hpp
index e6b49ea..4ec75d6 100644
--- a/common/string_frag.hpp
+++ b/common/string_frag.hpp
@@ -56,12 +56,15 @@ public:
         size_t len
     ) :
 #if STRING_FRAG_VALIDATION
-        contents_(sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
+        contents_(
+            sf.stored_()
+            ? sf.contents_.substr(begin, len)
+            : sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
 #else
-        contents_(""),
+        contents_(sf.stored_() ? sf.contents_.substr(begin, len) : std::string()),
 #endif
         src_(sf.src_),
-        begin_(sf.begin_ + begin),
+        begin_(sf.stored_() ? std::string::npos : sf.begin_ + begin),
         len_(len)
     {
 #if STRING_FRAG_VALIDATION
-- 
2.43.0


From f42e98ad64ce72fae2b5a083d824cc5fb83f7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 37/53] fix: the parser handles cyclic unary rules

---
 tools/parsers/gobio/accommodater/accommodater.tpl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/parsers/gobio/accommodater/accommodater.tpl b/tools/parsers/gobio/accommodater/accommodater.tpl
index 45e7a25..20f0f96 100644
--- a/tools/parsers/gobio/accommodater/accommodater.tpl
+++ b/tools/parsers/gobio/accommodater/accommodater.tpl
@@ -15,6 +15,9 @@ void binary_accommodater<H,K>::accommodate(typename H::edge_descriptor edge)
     if (accommodated_[edge])
     return;
 
+    // marked now, as the edge may be its own (indirect) constituent
+    accommodated_[edge] = true;
+
     std::pair<
     typename H::partition_iterator,
     typename H::partition_iterator> pits
@@ -34,8 +37,6 @@ void binary_accommodater<H,K>::accommodate(typename H::edge_descriptor edge)
 
     // jeśli dane pochodzą ze słownika nie wprowadzamy żadnych ograniczeń
     // chart_.sort_variants(edge, (lexical_entry_found ? 0 : limit_));
-
-    accommodated_[edge] = true;
 }
 
 template<class H, class K>
-- 
2.43.0


From 4502f2cf07c7044c511b7037dc20b45109974fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 38/53] fix: filters of pairs of constituents use whole
 conditions

---
 .../gobio/rules/decompose_expression.tpl      | 21 ++++++++++++++++---
 .../gobio/rules/relocate_expression.tpl       |  2 +-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/tools/parsers/gobio/rules/decompose_expression.tpl b/tools/parsers/gobio/rules/decompose_expression.tpl
index bc758f4..483ed47 100644
--- a/tools/parsers/gobio/rules/decompose_expression.tpl
+++ b/tools/parsers/gobio/rules/decompose_expression.tpl
@@ -453,15 +453,30 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
         if (block_used_subvars[i])
             ++nb_used_subvars;
 
-        if (nb_used_subvars == 2
+        // the value of a block matters only if either it is checked by
+        // the jump ending the block or this is the last block
+        bool ends_with_jump
+            = (expr->get_opcode(block_cut_point - 1) == gobio_opcodes::OPCODE_IFNJUMP);
+
+        // if the last block is just a == b, it is enough to check whether b has a value
+        bool is_last_uequal
+            = (i == last_address
+               && block_cut_point - prev_block_cut_point == 3
+               && expr->get_opcode(block_cut_point - 1) == gobio_opcodes::OPCODE_UEQUAL);
+
+        int block_end
+            = (ends_with_jump || is_last_uequal ? block_cut_point - 1 : block_cut_point);
+
+        if ((ends_with_jump || i == last_address)
+           && nb_used_subvars == 2
            && block_used_subvars[first_symbol_ix]
            && block_used_subvars[first_symbol_ix + 1]
            && !block_side_effects)
         {
-        assert(block_cut_point > prev_block_cut_point);
+        assert(block_end > prev_block_cut_point);
 
         boost::shared_ptr<compiled_expression<T, S, 2> > bif
-            = expr->get_slice(prev_block_cut_point, block_cut_point-1);
+            = expr->get_slice(prev_block_cut_point, block_end);
 
         relocate_jumps<T,S>(
             *bif,
diff --git a/tools/parsers/gobio/rules/relocate_expression.tpl b/tools/parsers/gobio/rules/relocate_expression.tpl
index 4b003fd..8410fcc 100644
--- a/tools/parsers/gobio/rules/relocate_expression.tpl
+++ b/tools/parsers/gobio/rules/relocate_expression.tpl
@@ -629,7 +629,7 @@ settop2push(const compiled_expression<T, S, 2>& expr)
         r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH_TRUE);
         break;
     case gobio_opcodes::OPCODE_SETTOP:
-        r_expr->set_opcode(0, gobio_opcodes::OPCODE_SETTOP);
+        r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH);
         break;
     case gobio_opcodes::OPCODE_SETTOP_EXTRA_SUBVAR:
         r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH_EXTRA_SUBVAR);
-- 
2.43.0


From dda1fb165f2ce7572592a938e971b415435d1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 39/53] fix: alternatives of different length in grammar rules

---
 tools/parsers/gobio/rules/tgbg_combinator.tpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/tgbg_combinator.tpl b/tools/parsers/gobio/rules/tgbg_combinator.tpl
index ecc2a20..352268b 100644
--- a/tools/parsers/gobio/rules/tgbg_combinator.tpl
+++ b/tools/parsers/gobio/rules/tgbg_combinator.tpl
@@ -2055,7 +2055,9 @@ std::vector<typename tgbg_combinator<T, S, M, X, E>::rule_holder>
         {
         typename tgbg_combinator::rule_holder rh((*it));
 
-        relocate_grule_(rh, sub_m, m);
+        // the symbols of the longer alternatives are missing here
+        const int end_ix = (signed int)rh.rhs_symbols.size();
+        relocate_grule_(rh, end_ix, end_ix + ((signed int)m - sub_m));
 
         u.push_back(rh);
         }
-- 
2.43.0


From 8312cb8b02fd766da38d16ee91c290c2b0461277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 40/53] fix: a parse tree node looking like its child is put
 into the lattice

---
 common/put_zsyntree_into_lattice.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/common/put_zsyntree_into_lattice.cpp b/common/put_zsyntree_into_lattice.cpp
index a05cd32..7970ac6 100644
--- a/common/put_zsyntree_into_lattice.cpp
+++ b/common/put_zsyntree_into_lattice.cpp
@@ -98,12 +98,23 @@ Lattice::EdgeDescriptor putZsyntreeIntoLattice(
         }
     }
 
-    Lattice::EdgeDescriptor addedEdge = lattice.addEdge(
-        fromVertex,
-        toVertex,
-        annotationItem,
-        targetTags,
-        builder.build());
+    Lattice::EdgeDescriptor addedEdge;
+
+    try {
+        addedEdge = lattice.addEdge(
+            fromVertex,
+            toVertex,
+            annotationItem,
+            targetTags,
+            builder.build());
+    } catch (const EdgeSelfReferenceException &) {
+        // the node and its child make up the same edge
+        addedEdge = lattice.addEdge(
+            fromVertex,
+            toVertex,
+            annotationItem,
+            targetTags);
+    }
 
     if (newEdge)
         tree->setOrigin(addedEdge);
-- 
2.43.0


From b0021e74d3b69cabc24d0444513f698bbadd223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 41/53] fix: a constituent equal to an annotation hidden from
 the parser is processed

---
 tools/parsers/gobio/chart/chart.hpp |  1 +
 tools/parsers/gobio/chart/chart.tpl | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/tools/parsers/gobio/chart/chart.hpp b/tools/parsers/gobio/chart/chart.hpp
index 2a0130f..6c86c7d 100644
--- a/tools/parsers/gobio/chart/chart.hpp
+++ b/tools/parsers/gobio/chart/chart.hpp
@@ -230,6 +230,7 @@ private:
 
     const LayerTagCollection& getChartOutputTags_() const;
     const LayerTagMask& getChartInputTagMask_() const;
+    bool is_new_to_chart_(edge_descriptor edge);
 
     typedef Lattice::HashFun hash_fun;
     typedef Lattice::VertexPairHashFun vertex_pair_hash_fun;
diff --git a/tools/parsers/gobio/chart/chart.tpl b/tools/parsers/gobio/chart/chart.tpl
index 4d610ac..8494b4a 100644
--- a/tools/parsers/gobio/chart/chart.tpl
+++ b/tools/parsers/gobio/chart/chart.tpl
@@ -77,8 +77,7 @@ std::pair<typename chart<C,S,V,R,I>::edge_descriptor,bool> chart<C,S,V,R,I>::add
             rule.rule_no(),
             rule.tree_choice()
         );
-        int num2 = lattice_.countEdges(u, v);
-        return std::pair<edge_descriptor,bool>(result, num2 - num1 > 0);
+        return std::pair<edge_descriptor,bool>(result, is_new_to_chart_(result));
     } catch (EdgeSelfReferenceException) {
         return std::pair<edge_descriptor,bool>(Lattice::EdgeDescriptor(), false);
     }
@@ -111,8 +110,7 @@ std::pair<typename chart<C,S,V,R,I>::edge_descriptor,bool> chart<C,S,V,R,I>::add
             rule.rule_no(),
             rule.tree_choice()
         );
-        int num2 = lattice_.countEdges(u, v);
-        return std::pair<edge_descriptor,bool>(result, num2 - num1 > 0);
+        return std::pair<edge_descriptor,bool>(result, is_new_to_chart_(result));
     } catch (EdgeSelfReferenceException) {
         return std::pair<edge_descriptor,bool>(Lattice::EdgeDescriptor(), false);
     }
@@ -147,14 +145,28 @@ std::pair<typename chart<C,S,V,R,I>::edge_descriptor,bool> chart<C,S,V,R,I>::add
             rule.rule_no(),
             rule.tree_choice()
         );
-        int num2 = lattice_.countEdges(u, v);
-        return std::pair<edge_descriptor,bool>(result, num2 - num1 > 0);
+        return std::pair<edge_descriptor,bool>(result, is_new_to_chart_(result));
     } catch (EdgeSelfReferenceException) {
         return std::pair<edge_descriptor,bool>(Lattice::EdgeDescriptor(), false);
     }
 }
 
 
+// an edge just added (or joined with an edge already in the lattice) is new
+// unless it was visible for the parser before
+template<typename C, typename S, typename V, typename R, template<typename, typename> class I>
+bool chart<C,S,V,R,I>::is_new_to_chart_(edge_descriptor edge)
+{
+    size_t nbVisible = 0;
+
+    BOOST_FOREACH(const Lattice::Partition& partition, lattice_.getEdgePartitions(edge)) {
+        if (matches(partition.getTagList(), inputTagMask_) && ++nbVisible > 1)
+            return false;
+    }
+
+    return true;
+}
+
 template<typename C, typename S, typename V, typename R, template<typename, typename> class I>
 void chart<C,S,V,R,I>::remove_edge(
     edge_descriptor edge)
-- 
2.43.0


From dc5572629e514a596f3ce0331d0e257a295e307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 42/53] fix: the parser passes over more than one blank

---
 tools/parsers/gobio/chart/chart.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/chart/chart.tpl b/tools/parsers/gobio/chart/chart.tpl
index 8494b4a..5e8f0d6 100644
--- a/tools/parsers/gobio/chart/chart.tpl
+++ b/tools/parsers/gobio/chart/chart.tpl
@@ -314,7 +314,7 @@ typename chart<C,S,V,R,I>::vertex_descriptor chart<C,S,V,R,I>::edge_target(
         while (oei.hasNext()) {
             Lattice::EdgeDescriptor edge = oei.next();
             if (lattice_.isBlank(edge)) {
-                return edge_target(edge);
+                return edge_target(edge, true);
             }
         }
     }
-- 
2.43.0


From d6e0a19c47bb38c83577424f9273b5bdab332b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 43/53] fix: lines of a lexicon that begin with a blank are
 read

A line counted as empty when its first character was a separator (and lines
that are empty did not count as empty).
---
 tools/datastructures/lexica/lexicon_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index e313c46..6507720 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -104,5 +104,5 @@ void LexiconBase::removeComment_(std::string& s) {
 }
 
 bool LexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
-- 
2.43.0


From 676d6e27555b5ecbbada94a0a92c39543935b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 44/53] fix: entries of a lexicon with the same key need not be
 adjacent

The same key given to the index twice made the hash function fail and the
program crash.
---
 tools/datastructures/lexica/lexicon_base.cpp | 39 ++++++++------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index 6507720..2f027ea 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -2,6 +2,8 @@
 #include "lexicon_base.hpp"
 #include "logging.hpp"
 
+#include <map>
+
 #include <boost/filesystem/fstream.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/foreach.hpp>
@@ -15,9 +17,8 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
     boost::filesystem::ifstream plainTextStream(plainTextLexicon);
 
     std::string line;
-    std::string prevKey;
-    std::string stringSoFar;
-    bool firstEntry = true;
+    // lines with the same key need not be adjacent
+    std::map<std::string, std::string> entries;
 
     typedef boost::sub_range<std::vector<std::string> > SubRange; 
     
@@ -42,28 +43,20 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
                 std::string("at least two fields expected in plain text lexicon, was: `")
                 + line + "`");
 
-        if (firstEntry) {
-            prevKey = fields[0];
-            stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                      LEXICON_FIELD_SEPARATOR);
-            firstEntry = false;
-        } else {
-            if (fields[0] == prevKey) {
-                stringSoFar += LEXICON_RECORD_SEPARATOR;
-                stringSoFar += boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                           LEXICON_FIELD_SEPARATOR);
-            }
-            else {
-                storeBuilder.add(prevKey, stringSoFar);
-                prevKey = fields[0];
-                stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                          LEXICON_FIELD_SEPARATOR);
-            }
-        }
+        std::string record = boost::join(SubRange(fields.begin() + 1, fields.end()),
+                                         LEXICON_FIELD_SEPARATOR);
+
+        std::map<std::string, std::string>::iterator found = entries.find(fields[0]);
+        if (found == entries.end())
+            entries[fields[0]] = record;
+        else
+            found->second += LEXICON_RECORD_SEPARATOR + record;
     }
 
-    if (!firstEntry)
-        storeBuilder.add(prevKey, stringSoFar);
+    typedef std::pair<const std::string, std::string> Entry;
+    BOOST_FOREACH(const Entry& entry, entries) {
+        storeBuilder.add(entry.first, entry.second);
+    }
 
     store_.reset(storeBuilder.build());
 }
-- 
2.43.0


From f1f4e59dd5fa37fc12fe27fc2ed75a5010742118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 45/53] fix: a lexicon without entries can be built, saved,
 loaded and asked

The hash function was looked for endlessly for no keys.
---
 tools/datastructures/lexica/perfect_hash_index.cpp | 7 ++++++-
 tools/datastructures/lexica/perfect_hash_index.hpp | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/perfect_hash_index.cpp b/tools/datastructures/lexica/perfect_hash_index.cpp
index 752b9cf..126c7fc 100644
--- a/tools/datastructures/lexica/perfect_hash_index.cpp
+++ b/tools/datastructures/lexica/perfect_hash_index.cpp
@@ -88,7 +88,12 @@ void PerfectHashIndex::save(std::string filename) const {
 }
 
 void PerfectHashIndex::save(std::FILE* mphf) const {
-    cmph_dump(m_hash, mphf);
+    // an empty name of the algorithm is written when there is no hash
+    // function, cmph_load returns null then
+    if (m_hash)
+        cmph_dump(m_hash, mphf);
+    else
+        std::fputc('\0', mphf);
 
     size_t nkeys = m_fprints.size();
     std::fwrite(&nkeys, sizeof(nkeys), 1, mphf);
diff --git a/tools/datastructures/lexica/perfect_hash_index.hpp b/tools/datastructures/lexica/perfect_hash_index.hpp
index dd55928..de33449 100644
--- a/tools/datastructures/lexica/perfect_hash_index.hpp
+++ b/tools/datastructures/lexica/perfect_hash_index.hpp
@@ -23,6 +23,10 @@ private:
     cmph_t* m_hash;
 
     void calcHashFunction() {
+        // there is no hash function for no keys (m_hash stays null)
+        if (m_keys.empty())
+            return;
+
         cmph_io_adapter_t* source = cmph_io_vector_adapter((char**) &m_keys[0], m_keys.size());
 
         cmph_config_t* config = cmph_config_new(source);
@@ -62,6 +66,9 @@ public:
     }
 
     size_t getHash(const char* key) const {
+        if (!m_hash)
+            return getSize();
+
         size_t idx = cmph_search(m_hash, key, (cmph_uint32) strlen(key));
 
         // idx < getSize() is checked because getSize() is
-- 
2.43.0


From 119a065e57d7e14065735141fe52cb0093493a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 46/53] fix: kept texts with bytes above 127 are found

They were compared with characters as unsigned numbers with signed ones.
---
 tools/datastructures/lexica/string_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index 9680e45..7e1dc64 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <functional>
 #include <string>
 #include <iterator>
 #include <cstdio>
@@ -217,7 +218,9 @@ template <typename ValueIteratorT>
 template <typename StringT>
 bool ValueIteratorRange<ValueIteratorT>::operator==(const StringT& o) const {
     if (std::distance(m_begin, m_end) == std::distance(o.begin(), o.end()))
-        return std::equal(m_begin, m_end, o.begin());
+        return std::equal(
+            m_begin, m_end, o.begin(),
+            std::equal_to<typename std::iterator_traits<ValueIteratorT>::value_type>());
     else
         return false;
 }
-- 
2.43.0


From 719d7b250a5682932c80e1dc4f8f1a8e80b35d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 47/53] fix: an annotation mapped onto itself does not stop the
 mapper

It gets the tags of what is mapped; before, the exception thrown for an edge
made of itself ended the run.
---
 tools/lexica/mapper/mapper.cpp | 42 +++++++++++++++++++---------------
 tools/lexica/mapper/mapper.hpp |  6 +++++
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/tools/lexica/mapper/mapper.cpp b/tools/lexica/mapper/mapper.cpp
index 16dda7a..879a249 100644
--- a/tools/lexica/mapper/mapper.cpp
+++ b/tools/lexica/mapper/mapper.cpp
@@ -24,7 +24,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
         outTags_ = LayerTagManager::splitCollectionSpecification(outTagsString);
     }
     else {
-        throw Exception("missing --in-tags or --out-tags");
+        throw new Exception("missing --in-tags or --out-tags");
     }
 
     considerText_ = options.count("consider-text") > 0;
@@ -32,7 +32,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
     considerAttributes_ = options.count("consider-attributes") > 0;
 
     if (!(considerText_ || considerCategory_ || considerAttributes_))
-        throw Exception("you have to specify at least one of the following options: "
+        throw new Exception("you have to specify at least one of the following options: "
                         "--consider-text, --consider-category, --consider-attributes");
 
     cloneText_ = options.count("clone-text") > 0;
@@ -103,7 +103,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
 
     if (options.count("plain-text-lexicon") == 0
        && options.count("binary-lexicon") == 0) {
-        throw Exception("no mapper lexicon file given");
+        throw new Exception("no mapper lexicon file given");
     }
     else {
         if (options.count("plain-text-lexicon") > 0) {
@@ -322,15 +322,7 @@ void Mapper::addEntry_(
 
     LayerTagCollection tags = lattice.getLayerTagManager().createTagCollectionFromList(outTags_);
 
-    Lattice::EdgeSequence::Builder builder(lattice);
-    builder.addEdge(edge);
-
-    lattice.addEdge(
-        lattice.getEdgeSource(edge),
-        lattice.getEdgeTarget(edge),
-        ai,
-        tags,
-        builder.build());
+    addMappedEdge_(lattice, edge, ai, tags);
 }
 
 void Mapper::addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge) {
@@ -371,15 +363,29 @@ void Mapper::addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge) {
 
     LayerTagCollection tags = lattice.getLayerTagManager().createTagCollectionFromList(outTags_);
 
+    addMappedEdge_(lattice, edge, ai, tags);
+}
+
+void Mapper::addMappedEdge_(
+    Lattice& lattice,
+    Lattice::EdgeDescriptor edge,
+    const AnnotationItem& item,
+    const LayerTagCollection& tags) {
+
     Lattice::EdgeSequence::Builder builder(lattice);
     builder.addEdge(edge);
 
-    lattice.addEdge(
-        lattice.getEdgeSource(edge),
-        lattice.getEdgeTarget(edge),
-        ai,
-        tags,
-        builder.build());
+    try {
+        lattice.addEdge(
+            lattice.getEdgeSource(edge),
+            lattice.getEdgeTarget(edge),
+            item,
+            tags,
+            builder.build());
+    } catch (EdgeSelfReferenceException&) {
+        // the edge is mapped onto itself
+        lattice.addPartitionToEdge(edge, tags);
+    }
 }
 
 void Mapper::parseEntry_(const std::string& record,
diff --git a/tools/lexica/mapper/mapper.hpp b/tools/lexica/mapper/mapper.hpp
index ae6da53..f4c87a2 100644
--- a/tools/lexica/mapper/mapper.hpp
+++ b/tools/lexica/mapper/mapper.hpp
@@ -55,6 +55,12 @@ private:
     void addEntry_(Lattice& lattice, Lattice::EdgeDescriptor edge, const std::string& record);
     void addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge);
 
+    void addMappedEdge_(
+        Lattice& lattice,
+        Lattice::EdgeDescriptor edge,
+        const AnnotationItem& item,
+        const LayerTagCollection& tags);
+
     void parseEntry_(const std::string& record,
                      boost::optional<std::string>& text,
                      boost::optional<std::string>& category,
-- 
2.43.0


From 6b59100de615ea5decb1ef777cfddf9c726c785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 48/53] fix: the mapper and the bilingual lexicon throw
 exceptions, not pointers to them

Pointers are not caught by those who report errors.
---
 tools/lexica/bilexicon/bilexicon.cpp |  4 ++--
 tools/lexica/mapper/mapper.cpp       | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/lexica/bilexicon/bilexicon.cpp b/tools/lexica/bilexicon/bilexicon.cpp
index 04d1b12..3111fdc 100644
--- a/tools/lexica/bilexicon/bilexicon.cpp
+++ b/tools/lexica/bilexicon/bilexicon.cpp
@@ -23,7 +23,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
     if (options.count("plain-text-lexicon") > 0) {
         if (options.count("binary-lexicon") > 0
             && options["binary-lexicon"].as<std::string>() != DEFAULT_BINARY_LEXICON_SPEC)
-            throw new Exception(
+            throw Exception(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -41,7 +41,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
 
     if (options.count("save-binary-lexicon") > 0) {
         if (lexiconBase_.isEmpty())
-            throw new Exception("no data to save");
+            throw Exception("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/lexica/mapper/mapper.cpp b/tools/lexica/mapper/mapper.cpp
index 879a249..b099e4a 100644
--- a/tools/lexica/mapper/mapper.cpp
+++ b/tools/lexica/mapper/mapper.cpp
@@ -24,7 +24,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
         outTags_ = LayerTagManager::splitCollectionSpecification(outTagsString);
     }
     else {
-        throw new Exception("missing --in-tags or --out-tags");
+        throw Exception("missing --in-tags or --out-tags");
     }
 
     considerText_ = options.count("consider-text") > 0;
@@ -32,7 +32,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
     considerAttributes_ = options.count("consider-attributes") > 0;
 
     if (!(considerText_ || considerCategory_ || considerAttributes_))
-        throw new Exception("you have to specify at least one of the following options: "
+        throw Exception("you have to specify at least one of the following options: "
                         "--consider-text, --consider-category, --consider-attributes");
 
     cloneText_ = options.count("clone-text") > 0;
@@ -103,12 +103,12 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
 
     if (options.count("plain-text-lexicon") == 0
        && options.count("binary-lexicon") == 0) {
-        throw new Exception("no mapper lexicon file given");
+        throw Exception("no mapper lexicon file given");
     }
     else {
         if (options.count("plain-text-lexicon") > 0) {
             if (options.count("binary-lexicon") > 0)
-                throw new Exception(
+                throw Exception(
                     "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
             boost::filesystem::path plainTextLexiconPath =
@@ -126,7 +126,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
 
         if (options.count("save-binary-lexicon") > 0) {
             if (lexiconBase_.isEmpty())
-                throw new Exception("no data to save");
+                throw Exception("no data to save");
 
             boost::filesystem::path binaryLexiconPath(
                 options["save-binary-lexicon"].as<std::string>());
-- 
2.43.0


From f8a5a03749085e1674ff9d204ba85c545a3becf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 49/53] fix: the dictionary of lamerlemma is searched again

The automaton for what follows the key was built by concatenating to an
automaton that accepts nothing, which now accepts nothing, too.
---
 tools/datastructures/psi_query/fsa_multi_store.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_multi_store.cpp b/tools/datastructures/psi_query/fsa_multi_store.cpp
index 36244a7..ab3263d 100644
--- a/tools/datastructures/psi_query/fsa_multi_store.cpp
+++ b/tools/datastructures/psi_query/fsa_multi_store.cpp
@@ -67,11 +67,11 @@ void FSAMultiStore::save(std::ostream &out)
 
 void FSAMultiStore::buildSearchSuffix()
 {
-    StringFSA separatorFSA(LEXICON_FIELD_SEPARATOR);
-    concatenate(searchSuffixFSA_, separatorFSA);
+    StringFSA suffixFSA(LEXICON_FIELD_SEPARATOR);
     StringFSA anyFSA(ANY);
     kleene_plus(anyFSA);
-    concatenate(searchSuffixFSA_, anyFSA);
+    concatenate(suffixFSA, anyFSA);
+    searchSuffixFSA_.swap(suffixFSA);
 }
 
 }
-- 
2.43.0


From 72128310819c04044827eba9ebbcad219ca04c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 50/53] fix: lamerlemma finds the lemmas of words with long
 endings

---
 .../lamerlemma/utility_functions.cpp            | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/utility_functions.cpp b/tools/lemmatizers/lamerlemma/utility_functions.cpp
index a140c51..ed0af9d 100644
--- a/tools/lemmatizers/lamerlemma/utility_functions.cpp
+++ b/tools/lemmatizers/lamerlemma/utility_functions.cpp
@@ -92,6 +92,9 @@ void parseResult(const std::string& key, const std::string& result, LemmaMap &le
     }
 }
 
+static const char REPLACE_ALL = 64;
+static const size_t MAX_CUT = 127 - 65;
+
 std::string KLEndEncode(std::string asRef, std::string toCode)
 {
     size_t asRefLen = asRef.size();
@@ -115,8 +118,15 @@ std::string KLEndEncode(std::string asRef, std::string toCode)
             break;
     }
 
-    char K = 65 + maxi;
-    char L = 65 + asRefLen - (maxi + maxLength);
+    size_t cutFront = maxi;
+    size_t cutBack = asRefLen - (maxi + maxLength);
+
+    // what cannot be counted with one character is not cut but replaced
+    if (cutFront > MAX_CUT || cutBack > MAX_CUT)
+        return std::string(2, REPLACE_ALL) + toCode;
+
+    char K = 65 + cutFront;
+    char L = 65 + cutBack;
     std::string end = toCode.substr(maxLength);
 
     std::stringstream ss;
@@ -130,6 +140,9 @@ std::string KLEndDecode(std::string asRef, std::string asCode)
     char L = asCode[1];
     std::string end = asCode.substr(2);
 
+    if (K == REPLACE_ALL)
+        return end;
+
     size_t asRefLen = asRef.size();
 
     int cutFront = K - 65;
-- 
2.43.0


From 662ecad3540673011c4ce0a778ec97b2e8b1769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 51/53] fix: lamerlemma throws exceptions, not pointers to them

---
 tools/lemmatizers/lamerlemma/lamerlemma.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/lamerlemma.cpp b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
index caca83f..33d0fb2 100644
--- a/tools/lemmatizers/lamerlemma/lamerlemma.cpp
+++ b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
@@ -15,7 +15,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
     if (options.count("plain-text-lexicon")) {
         if (options.count("binary-lexicon")
             && options["binary-lexicon"].as<std::string>() != DEFAULT_LAMERLEMMA_SPEC)
-            throw new PsiException(
+            throw PsiException(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -33,7 +33,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
 
     if (options.count("save-binary-lexicon")) {
         if (dict_.isEmpty())
-            throw new PsiException("no data to save");
+            throw PsiException("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
-- 
2.43.0


From 9b6d910d557c85ff9ee531546cfe1b98b9b3629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 52/53] fix: psi-writer tells text, parts and derivations so
 that they can be read back

Covered text was counted in escaped characters, parts could be printed after
the text of the whole (abbreviated), parts tagged as symbols were left out,
several derivations starting with bare characters were all left out, tags of
derivations were not escaped, and escapes could be cut by the abbreviation.
---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 211 ++++++++++--------
 formats/psi/psi_writer/psi_lattice_writer.hpp |   9 +-
 2 files changed, 123 insertions(+), 97 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 93fe86d..346959a 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -56,7 +56,7 @@ void PsiLatticeWriter::Worker::doRun() {
     PsiQuoter quoter;
     std::map<Lattice::EdgeDescriptor, int> edgeOrdinalMap;
     int ordinal = 0;
-    std::string latticeTextCovered;
+    size_t textCovered = 0;
 
     setAlignments_(boost::assign::list_of(2)(7)(13)(26)(48)(60));
 
@@ -82,102 +82,135 @@ void PsiLatticeWriter::Worker::doRun() {
         if (lattice_.isEdgeHidden(edge)) {
             continue;
         }
-        printEdge(edge, quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
+        printEdge(edge, quoter, edgeOrdinalMap, ordinal, textCovered);
     }
 
     DEBUG("WRITING");
 }
 
 
-void PsiLatticeWriter::Worker::printEdge(
-    Lattice::EdgeDescriptor edge,
+void PsiLatticeWriter::Worker::printUncoveredText(
+    size_t end,
     PsiQuoter &quoter,
     std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
     int &ordinal,
-    std::string &latticeTextCovered
+    size_t &textCovered
 ) {
-    Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
-    Lattice::VertexDescriptor target = lattice_.getEdgeTarget(edge);
+    size_t i = textCovered;
+    while (i < end) {
+        try {
 
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
-        size_t i = latticeTextCovered.length();
-        while (i < lattice_.getVertexRawCharIndex(source)) {
-            try {
+            std::vector<std::string> outputCells;
+
+            Lattice::EdgeDescriptor rawEdge = lattice_.firstOutEdge(
+                lattice_.getVertexForRawCharIndex(i),
+                lattice_.getSymbolMask()
+            );
+
+            ++ordinal;
+            edgeOrdinalMap[rawEdge] = ordinal;
+            std::stringstream ordinalSs;
+            ordinalSs << std::right << std::setfill('0') << std::setw(2);
+            ordinalSs << ordinal;
+            outputCells.push_back(ordinalSs.str());
+
+            std::stringstream beginningSs;
+            beginningSs << std::right << std::setfill('0') << std::setw(4);
+            beginningSs << i;
+            outputCells.push_back(beginningSs.str());
 
-                std::vector<std::string> outputCells;
+            std::stringstream lengthSs;
+            lengthSs << std::right << std::setfill('0') << std::setw(2);
+            lengthSs << lattice_.getEdgeLength(rawEdge);
+            outputCells.push_back(lengthSs.str());
 
-                Lattice::EdgeDescriptor rawEdge = lattice_.firstOutEdge(
-                    lattice_.getVertexForRawCharIndex(i),
-                    lattice_.getSymbolMask()
-                );
+            std::string edgeText = quoter.escape(lattice_.getEdgeText(rawEdge));
+            outputCells.push_back(edgeText);
 
-                ++ordinal;
-                edgeOrdinalMap[rawEdge] = ordinal;
-                std::stringstream ordinalSs;
-                ordinalSs << std::right << std::setfill('0') << std::setw(2);
-                ordinalSs << ordinal;
-                outputCells.push_back(ordinalSs.str());
+            outputCells.push_back("symbol");
 
-                std::stringstream beginningSs;
-                beginningSs << std::right << std::setfill('0') << std::setw(4);
-                beginningSs << i;
-                outputCells.push_back(beginningSs.str());
+            const AnnotationItem& annotationItem = lattice_.getEdgeAnnotationItem(rawEdge);
+            outputCells.push_back(quoter.escape(annotationItem.getText()));
 
-                std::stringstream lengthSs;
-                lengthSs << std::right << std::setfill('0') << std::setw(2);
-                lengthSs << lattice_.getEdgeLength(rawEdge);
-                outputCells.push_back(lengthSs.str());
+            outputCells.push_back(quoter.escape(annotationItem.getCategory()));
 
-                std::string edgeText = quoter.escape(lattice_.getEdgeText(rawEdge));
-                outputCells.push_back(edgeText);
+            printTableRow_(outputCells);
 
-                outputCells.push_back("symbol");
+            i = lattice_.getEdgeEndIndex(rawEdge);
 
-                const AnnotationItem& annotationItem = lattice_.getEdgeAnnotationItem(rawEdge);
-                outputCells.push_back(quoter.escape(annotationItem.getText()));
+        } catch (NoEdgeException) {
 
-                outputCells.push_back(quoter.escape(annotationItem.getCategory()));
+            // Lattice contains some text not covered by any edge.
 
-                printTableRow_(outputCells);
+            std::vector<std::string> outputCells;
 
-                latticeTextCovered += edgeText;
+            std::string::const_iterator symbolBegin = lattice_.getAllText().begin() + i;
+            std::string::const_iterator symbolEnd = symbolBegin;
+            utf8::unchecked::next(symbolEnd);
+            std::string uncoveredSymbol(symbolBegin, symbolEnd);
 
-                i = lattice_.getEdgeEndIndex(rawEdge);
+            ++ordinal;
+            std::stringstream ordinalSs;
+            ordinalSs << std::right << std::setfill('0') << std::setw(2);
+            ordinalSs << ordinal;
+            outputCells.push_back(ordinalSs.str());
 
-            } catch (NoEdgeException) {
+            std::stringstream beginningSs;
+            beginningSs << std::right << std::setfill('0') << std::setw(4);
+            beginningSs << i;
+            outputCells.push_back(beginningSs.str());
 
-                // Lattice contains some text not covered by any edge.
+            std::stringstream lengthSs;
+            lengthSs << std::right << std::setfill('0') << std::setw(2);
+            lengthSs << uncoveredSymbol.length();
+            outputCells.push_back(lengthSs.str());
 
-                std::vector<std::string> outputCells;
+            outputCells.push_back(quoter.escape(uncoveredSymbol));
 
-                char uncoveredSymbol = lattice_.getAllText()[i];
+            outputCells.push_back("∅");
 
-                ++ordinal;
-                std::stringstream ordinalSs;
-                ordinalSs << std::right << std::setfill('0') << std::setw(2);
-                ordinalSs << ordinal;
-                outputCells.push_back(ordinalSs.str());
+            outputCells.push_back("∅");
 
-                std::stringstream beginningSs;
-                beginningSs << std::right << std::setfill('0') << std::setw(4);
-                beginningSs << i;
-                outputCells.push_back(beginningSs.str());
+            outputCells.push_back("∅");
 
-                outputCells.push_back("01");
+            printTableRow_(outputCells);
 
-                outputCells.push_back(quoter.escape(std::string(1, uncoveredSymbol)));
+            i += uncoveredSymbol.length();
 
-                outputCells.push_back("∅");
+        }
+    }
+    textCovered = i;
+}
 
-                outputCells.push_back("∅");
 
-                outputCells.push_back("∅");
+void PsiLatticeWriter::Worker::printEdge(
+    Lattice::EdgeDescriptor edge,
+    PsiQuoter &quoter,
+    std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
+    int &ordinal,
+    size_t &textCovered
+) {
+    Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
+    Lattice::VertexDescriptor target = lattice_.getEdgeTarget(edge);
+
+    if (!lattice_.isLooseVertex(source)) {
+        printUncoveredText(lattice_.getVertexRawCharIndex(source),
+            quoter, edgeOrdinalMap, ordinal, textCovered);
+    } else if (!lattice_.isLooseVertex(target)) {
+        printUncoveredText(lattice_.getVertexRawCharIndex(target),
+            quoter, edgeOrdinalMap, ordinal, textCovered);
+    }
 
-                printTableRow_(outputCells);
+    std::list<Lattice::Partition> partitions = lattice_.getEdgePartitions(edge);
 
-                latticeTextCovered += uncoveredSymbol;
-                i++;
+    // sub-edges have to be printed before the edge itself:
 
+    BOOST_FOREACH(Lattice::Partition partition, partitions) {
+        Lattice::Partition::Iterator subEdges(lattice_, partition);
+        while (subEdges.hasNext()) {
+            Lattice::EdgeDescriptor subEdge = subEdges.next();
+            if (!edgeOrdinalMap.count(subEdge) && !lattice_.isEdgeHidden(subEdge)) {
+                printEdge(subEdge, quoter, edgeOrdinalMap, ordinal, textCovered);
             }
         }
     }
@@ -219,17 +252,16 @@ void PsiLatticeWriter::Worker::printEdge(
     const AnnotationItem& annotationItem = lattice_.getEdgeAnnotationItem(edge);
     std::string edgeText;
     if (lattice_.isLooseVertex(source) || lattice_.isLooseVertex(target)) {
-        edgeText = quoter.escape(annotationItem.getText());
+        edgeText = annotationItem.getText();
     } else {
-        edgeText = quoter.escape(lattice_.getEdgeText(edge));
+        edgeText = lattice_.getEdgeText(edge);
     }
 
-    std::list<Lattice::Partition> partitions = lattice_.getEdgePartitions(edge);
     bool writeWholeText = false;
     if (
         !lattice_.isLooseVertex(source) &&
         !lattice_.isLooseVertex(target) &&
-        latticeTextCovered.length() < lattice_.getVertexRawCharIndex(target)
+        textCovered < lattice_.getVertexRawCharIndex(target)
     ) {
         writeWholeText = true;
     }
@@ -244,7 +276,7 @@ void PsiLatticeWriter::Worker::printEdge(
     } else if (edgeTextLength > getColumnWidth_(3) && !writeWholeText) {
         std::string::const_iterator bIter = edgeText.begin();
         utf8::unchecked::advance(bIter, getColumnWidth_(3) - 7);
-        edgeTextSs << edgeText.substr(0, bIter - edgeText.begin()) << "...";
+        edgeTextSs << quoter.escape(edgeText.substr(0, bIter - edgeText.begin())) << "...";
 
         std::string::const_iterator eIter = edgeText.end();
         for (int i = 0; i < 3; ++i)
@@ -255,13 +287,9 @@ void PsiLatticeWriter::Worker::printEdge(
         edgeTextPrinted = edgeText;
     }
     if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
-        try {
-            latticeTextCovered +=
-                edgeTextPrinted.substr(latticeTextCovered.length()
-                    - lattice_.getVertexRawCharIndex(source));
-        } catch (std::out_of_range) { }
+        textCovered = std::max(textCovered, (size_t)lattice_.getVertexRawCharIndex(target));
     }
-    edgeTextSs << edgeTextPrinted;
+    edgeTextSs << quoter.escape(edgeTextPrinted);
     outputCells.push_back(edgeTextSs.str());
 
     // tags:
@@ -308,6 +336,14 @@ void PsiLatticeWriter::Worker::printEdge(
         lattice_.getEdgeLayerTags(edge)
             == lattice_.getLayerTagManager().createSingletonTagCollection("symbol")
     );
+    if (
+        partitions.size() == 1 &&
+        !lattice_.isLooseVertex(source) &&
+        !lattice_.isLooseVertex(target) &&
+        !partitions.front().getSequence().empty()
+    ) {
+        isDefaultPartition = true;
+    }
     bool firstPartition = true;
     bool partitionBeginning = false;
     std::stringstream partSs;
@@ -322,19 +358,12 @@ void PsiLatticeWriter::Worker::printEdge(
         Lattice::Partition::Iterator ei(lattice_, partition);
         while (ei.hasNext()) {
             Lattice::EdgeUsage ed = ei.nextUsage();
+            if (!lattice_.isEdgeHidden(ed.getEdge())) {
+                isDefaultPartition = false;
+            }
             if (partitionBeginning) {
-                if (
-                    lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = true;
-                }
                 partitionBeginning = false;
             } else {
-                if (
-                    !lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = false;
-                }
                 linkSs << "-";
             }
             std::map<Lattice::EdgeDescriptor, int>::iterator mi
@@ -347,22 +376,12 @@ void PsiLatticeWriter::Worker::printEdge(
                             lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
                         << '$';
                 }
-            } else if (!lattice_.getLayerTagManager().isThere(
-                    "symbol", lattice_.getEdgeLayerTags(ed.getEdge()))) {
-                printEdge(ed.getEdge(), quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
-                std::map<Lattice::EdgeDescriptor, int>::iterator mi2
-                    = edgeOrdinalMap.find(ed.getEdge());
-                if (mi2 != edgeOrdinalMap.end()) {
-                    linkSs << mi2->second;
-                    if (!NULLP(ed.getRole())) {
-                        linkSs << '$'
-                            << quoter.escape(
-                                lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
-                            << '$';
-                    }
-                }
             }
         }
+        if (!partitionBeginning && linkSs.str().empty()) {
+            // a sole hidden edge
+            linkSs << "0";
+        }
         partSs << linkSs.str();
         std::list<std::string> partitionTagNames
             = lattice_.getLayerTagManager().getTagNames(partition.getTagList());
@@ -374,7 +393,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
                 partitionTagStr += partitionTagName;
             }
-            partSs << "(" << partitionTagStr << ")";
+            partSs << "(" << quoter.escape(partitionTagStr) << ")";
         }
         Lattice::Score partitionScore = partition.getScore();
         if (partitionScore != score) {
diff --git a/formats/psi/psi_writer/psi_lattice_writer.hpp b/formats/psi/psi_writer/psi_lattice_writer.hpp
index 5bcf929..f9c6aa9 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.hpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.hpp
@@ -43,12 +43,19 @@ private:
 
         virtual void doRun();
 
+        void printUncoveredText(
+            size_t end,
+            PsiQuoter &quoter,
+            std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
+            int &ordinal,
+            size_t &textCovered);
+
         void printEdge(
             Lattice::EdgeDescriptor edge,
             PsiQuoter &quoter,
             std::map<Lattice::EdgeDescriptor, int> &edgeOrdinalMap,
             int &ordinal,
-            std::string &latticeTextCovered);
+            size_t &textCovered);
 
         virtual ~Worker();
     private:
-- 
2.43.0


From 220c5da55fced81f25e39e625430656fd940203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 53/53] fix: psi-reader reads back what psi-writer writes

Tags stayed escaped, every derivation but the first started where the previous
one had ended, derivations without parts were given one, -3 was a number, the
symbols , [ < lost their category, attribute values could be neither empty nor
contain =, and the text of an edge with a loose end was taken for text.
---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 46 +++++++++++++++----
 formats/psi/psi_reader/psi_lattice_reader.hpp | 10 ++--
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index caeeac1..445e5fc 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -92,7 +92,7 @@ void PsiLatticeReader::Worker::doRun() {
             if (!item.beginningLoose) {
                 try {
                     if (
-                        (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <
+                        (int)(lattice_.getAllText().length()) <
                             item.beginning
                     ) {
                         // throw FileFormatException(
@@ -103,27 +103,29 @@ void PsiLatticeReader::Worker::doRun() {
                             "Some lattice text cannot be reconstructed: " <<
                             "the placeholder will be put instead ('" <<
                             std::string(1, PLACEHOLDER) << "' at " <<
-                            (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <<
+                            (int)(lattice_.getAllText().length()) <<
                             ")."
                         );
                         lattice_.appendStringWithSymbols(std::string(
                             item.beginning
-                                - lattice_.getVertexRawCharIndex(lattice_.getLastVertex()),
+                                - lattice_.getAllText().length(),
                             PLACEHOLDER
                         ));
                     }
-                    if (
+                    if (item.lengthPoint) {
+                        // The text of an edge with a loose end is not a part of the lattice text.
+                    } else if (
                         lattice_.getLayerTagManager().isThere("symbol", tags) ||
                         lattice_.getLayerTagManager().isThere("∅", tags) ||
                         item.annotationItem.partitions == "[]"
                     ) {
                         lattice_.appendString(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     } else {
                         lattice_.appendStringWithSymbols(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     }
@@ -178,8 +180,14 @@ void PsiLatticeReader::Worker::doRun() {
 
             // Creating annotation item.
 
+            std::string category = item.annotationItem.category;
+            if (category == "'" && tags == lattice_.getSymbolTag()) {
+                // A symbol that has a special meaning in the annotations column.
+                category += item.text;
+            }
+
             AnnotationItem annotationItem(
-                item.annotationItem.category,
+                category,
                 StringFrag(item.annotationText)
             );
 
@@ -243,12 +251,20 @@ void PsiLatticeReader::Worker::doRun() {
                         std::string::const_iterator partBegin = part.begin();
                         std::string::const_iterator partEnd = part.end();
                         if (parse(partBegin, partEnd, partGrammar, partItem)) {
+                            if (part.empty() || part[0] == '(' || part[0] == '<') {
+                                partItem.edgeNumbersWithRoles.clear();
+                            }
+                            currentVertex = from;
                             BOOST_FOREACH(
                                 PsiLREdgeNumberWithRole edgeNumberWithRole,
                                 partItem.edgeNumbersWithRoles
                             ) {
                                 if (edgeNumberWithRole.edgeNumber < 1) {
-                                    if (currentVertex == to) {
+                                    if (
+                                        currentVertex == to ||
+                                        lattice_.isLooseVertex(currentVertex) ||
+                                        currentVertex >= (int)lattice_.getAllText().length()
+                                    ) {
                                         std::stringstream errorSs;
                                         errorSs << "PSI reader: syntax error in line "
                                             << lineno << ": " << part
@@ -256,7 +272,19 @@ void PsiLatticeReader::Worker::doRun() {
                                             << " (too many sub-edges)";
                                         throw FileFormatException(errorSs.str());
                                     }
-                                    currentEdge = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    try {
+                                        currentEdge
+                                            = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    } catch (NoEdgeException) {
+                                        std::string::const_iterator symbolEnd
+                                            = lattice_.getAllText().begin() + currentVertex;
+                                        utf8::unchecked::next(symbolEnd);
+                                        lattice_.addSymbols(
+                                            currentVertex,
+                                            symbolEnd - lattice_.getAllText().begin());
+                                        currentEdge
+                                            = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    }
                                 } else if (edgeOrdinalMap.find(edgeNumberWithRole.edgeNumber)
                                            == edgeOrdinalMap.end()) {
                                     std::stringstream errorSs;
diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1c2a80a..a5d9487 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -84,7 +84,7 @@ struct PsiLRItem {
 
     void unescape(Quoter & quoter) {
         text = quoter.unescape(text);
-        BOOST_FOREACH(std::string tag, tags) {
+        BOOST_FOREACH(std::string & tag, tags) {
             tag = quoter.unescape(tag);
         }
         annotationText = quoter.unescape(annotationText);
@@ -208,7 +208,7 @@ struct PsiLRAVPairGrammar : public qi::grammar<
         start
             %= +(qi::char_ - ',' - '=')
             >> '='
-            >> +(qi::char_ - ',' - '=');
+            >> *(qi::char_ - ',');
 
     }
 
@@ -231,7 +231,7 @@ struct PsiLRPartitionsGrammar : public qi::grammar<
 
         partition
             = qi::eps[qi::_val = ""]
-            >> +(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
+            >> *(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
             >> -(
                 qi::char_('(')[qi::_val += qi::_1]
                 >> +(qi::char_ - ')')[qi::_val += qi::_1]
@@ -296,14 +296,14 @@ struct PsiLRPartitionGrammar : public qi::grammar<
 
         edgeNumber
             = qi::eps[qi::_val = 0]
-            >> -(qi::int_[qi::_val = qi::_1]);
+            >> -(qi::uint_[qi::_val = qi::_1]);
 
         role
             = qi::eps[qi::_val = ""]
             >> -('$' >> +(qi::char_ - '$')[qi::_val += qi::_1] >> '$');
 
         tags
-            %= -('(' >> +(qi::char_ - ')' - ' ' - ',') % ',' >> ')');
+            %= -('(' >> +(qi::char_ - ')' - ',') % ',' >> ')');
 
         score
             %= -('<' >> qi::double_ >> '>');
-- 
2.43.0

