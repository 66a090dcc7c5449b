From 23d6047870a6685df212e25e0fb5d5e7ea4a5094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 01/54] fix: fastPersistence read a missing edge list when no
 two points are within epsilon

---
 Pipes/fastPersistence.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3e5b9fd..2a604f2 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -77,8 +77,13 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 	std::list<unsigned> pivots;										//Store identified pivots
 	unsigned pivotIndex = 0;
 		
+	//A complex may have no edges at all
+	std::vector<std::pair<std::set<unsigned>,double>> graphEdges;
+	if(edges.size() > 1)
+		graphEdges = edges[1];
+	
 	//For each edge set 
-	for(auto edge : edges[1]){		
+	for(auto edge : graphEdges){		
 		bool foundPivot = false;
 		bool br = false;
 		std::vector<std::set<unsigned>> conSetTemp;										//Store the connected set
-- 
2.43.0


From fbd7d8b37df275dcdaacc2235c4d761a5e61d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 02/54] fix: fastPersistence reported one component at epsilon
 however many were left

---
 Pipes/fastPersistence.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 2a604f2..9be00d2 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -148,9 +148,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 		bettis += "0,0," + std::to_string(z) + "\n";
 		
 	}
-	bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
-	bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
-	inData.bettiTable.push_back(des);
+	//Every component left over lives on until maxEpsilon
+	for(unsigned comp = mst.size(); comp < edges[0].size(); comp++){
+		bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
+		bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
+		inData.bettiTable.push_back(des);
+	}
 	
 	
 	
-- 
2.43.0


From bf231c959497c0df543effa5b2db3d2435461a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 03/54] fix: fastPersistence dereferenced the end of the pivot
 list, skipping a row

---
 Pipes/fastPersistence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 9be00d2..a5ed3d7 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -206,7 +206,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					//		-The row is a pivot of the column, closing an interval
 					//		-The row is not a pivot, needing to be XOR with the stored pivot
 					//		-The row does not intersect (0 or cleared from previous dimension)
-					if(*pivotPointer != pivotIndex){
+					if(pivotPointer == pivots.end() || *pivotPointer != pivotIndex){
 						
 						//Check for intersection
 						bool isCoface = std::includes(column_to_reduce.first.begin(), column_to_reduce.first.end(), row_to_check.first.begin(), row_to_check.first.end());
-- 
2.43.0


From 6ec369559a95bdf4481cdc9ef1ef66fb075c22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 04/54] fix: fastPersistence dropped the cycles that survive
 until epsilon

---
 Pipes/fastPersistence.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index a5ed3d7..43f7fe8 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -171,7 +171,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 		//		boundary simplices; we may not track this currently but will eventually
 		
 		
-		for(unsigned d = 1; d < dim && d < edges.size()-1; d++){
+		for(unsigned d = 1; d < dim && d < edges.size(); d++){
 			
 			//Track the current pivots located into an unordered map
 			std::unordered_map<unsigned, std::set<unsigned>> v;
@@ -188,8 +188,13 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 			std::list<unsigned> nextPivots;
 			unsigned columnIndex = 0;
 			
+			//The highest dimension of the complex has no cofaces
+			std::vector<std::pair<std::set<unsigned>,double>> columns;
+			if(d + 1 < edges.size())
+				columns = edges[d+1];
+			
 			//Iterate the columns of the boundary matrix (i.e. the nextEdges)
-			for(auto column_to_reduce : edges[d+1]){
+			for(auto column_to_reduce : columns){
 				pivotIndex = 0;
 				int foundCol = 0;
 				int foundPiv = 0;
@@ -251,6 +256,22 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				
 			}
 			
+			//A row that neither destroys a feature nor has its own destroyed lives on until maxEpsilon
+			pivotIndex = 0;
+			auto pivotPointer = pivots.begin();
+			for(auto row : edges[d]){
+				if(pivotPointer != pivots.end() && *pivotPointer == pivotIndex){
+					pivotPointer++;
+				} else if(v.find(pivotIndex) == v.end() && row.second != maxEpsilon){
+					bettis += std::to_string(d) + "," + std::to_string(row.second) + "," + std::to_string(maxEpsilon) + "\n";
+					
+					bettiBoundaryTableEntry des = { d, row.second, maxEpsilon, { pivotIndex } };
+					inData.bettiTable.push_back(des);
+				}
+				
+				pivotIndex++;
+			}
+			
 			pivots = nextPivots;
 		}
 		
-- 
2.43.0


From 4f25ffdac9ec93dc35a57a546d6537c2aa8c2f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 05/54] fix: fastPersistence paired a column with its oldest
 face instead of its youngest

---
 Pipes/fastPersistence.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 43f7fe8..ff1cd37 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -229,7 +229,9 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				//Reduce the column or store into the unordered map
 								
 				std::set<unsigned int>::iterator pIndex;
-				while((pIndex = cofaceList.begin()) != cofaceList.end()){
+				while(!cofaceList.empty()){
+					//The pivot is the youngest face (the lowest one of the column)
+					pIndex = std::prev(cofaceList.end());
 					if(v.find(*pIndex) == v.end()){
 						v[*pIndex] = cofaceList;
 						nextPivots.push_back(columnIndex);		
-- 
2.43.0


From 96380f9006b7edba388c47ca3e36adb5ca040cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 06/54] fix: simplexTree started from an uninitialised head and
 node count

---
 Complex/simplexTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.hpp b/Complex/simplexTree.hpp
index f181543..d49f6bf 100644
--- a/Complex/simplexTree.hpp
+++ b/Complex/simplexTree.hpp
@@ -8,7 +8,7 @@ class simplexTree : public simplexBase {
   private:
 	bool isSorted = false;
 	unsigned indexCounter;
-	int nodeCount;
+	int nodeCount = 0;
 	std::vector<std::vector<std::pair<std::set<unsigned>, double>>> weightEdgeGraph;
 
 	void insertInductive();
@@ -23,7 +23,7 @@ class simplexTree : public simplexBase {
 		double weight = 0;
 	};
 
-	treeNode* head;
+	treeNode* head = nullptr;
 	std::vector<treeNode*> dimensions;
 
 	simplexTree(std::vector<std::vector<double>>);
-- 
2.43.0


From 5e96476d5cc662327f7e2e45c5ba5588f686ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 07/54] fix: indSimplexTree started from an uninitialised head
 and node count

---
 Complex/indSimplexTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index 633c8a1..eb715df 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -19,8 +19,8 @@ class indSimplexTree : public simplexBase {
 	std::vector<std::vector<indTreeNode*>> dimensions;		
 	
 	unsigned indexCounter;
-	indTreeNode* head;
-	int nodeCount;
+	indTreeNode* head = nullptr;
+	int nodeCount = 0;
   
   public:
 	std::vector<std::vector<graphEntry>> indexedGraph;
-- 
2.43.0


From 004e68dc76eaefe9e3902cee4c8b3d45dd7c86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 08/54] fix: indSimplexTree counted simplices of dimension 3
 and above out of bounds

---
 Complex/indSimplexTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 6312fdf..fb7ab85 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -192,6 +192,8 @@ void indSimplexTree::recurseInsert(indTreeNode* node, unsigned curIndex, int dep
 		std::set<unsigned> newSimp = simp;
 		newSimp.insert(node->index);
 		insNode->simplexSet = newSimp;
+		if(dimCounts.size() <= depth+1)
+			dimCounts.resize(depth+2, 0);
 		dimCounts[depth+1]++;
 		
 		//Get the largest weight of this simplex
-- 
2.43.0


From 4f6ae14a00140c1f4a03445b54bde42369ffdf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 09/54] fix: simplexTree wrote to a node it had just deleted

---
 Complex/simplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 67650d2..ac6cfa2 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -541,9 +541,9 @@ bool simplexTree::deletion(treeNode* removalEntry) {
 
 	//curNode = curNode->parent;
 	deletionCount++;
+	removalEntry->child = nullptr;
 	delete curNode;
 	nodeCount--;
-	removalEntry->child = nullptr;
 	return false;
 }
 
-- 
2.43.0


From f3d830ebc56a9ef724382ddd9ef9a7321bdc9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 10/54] fix: simplexTree clear crashed on an empty tree and
 left counts, numbering and the sorted flag behind

---
 Complex/simplexTree.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index ac6cfa2..b9a11ce 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -563,8 +563,9 @@ std::vector<std::pair<double, std::vector<unsigned>>> simplexTree::getd0Pairs(){
 
 void simplexTree::clear(){
 
-	//Clear the simplexTree structure
-	deletion(head);
+	//Clear the simplexTree structure (which may be empty)
+	if(head != nullptr)
+		deletion(head);
 	head = nullptr;
 
 	//Clear the weighed edge graph
@@ -575,9 +576,11 @@ void simplexTree::clear(){
 	dimensions.clear();
 
 
-	//runningVectorCount = 0;
+	runningVectorCount = 0;
 	runningVectorIndices.clear();
-	//indexCounter = 0;
+	indexCounter = 0;
+	nodeCount = 0;
+	isSorted = false;
 
 }
 
-- 
2.43.0


From c0b63de86050c2c7f37af500d9275a81fb5679a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 11/54] fix: simplexTree returned unsorted edges for points
 inserted after the first read

---
 Complex/simplexTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index b9a11ce..f1df058 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -282,6 +282,7 @@ void simplexTree::insert(std::vector<double>&) {
 	curNode->index = indexCounter;
 	std::set<unsigned> tempSet = {curNode->index};
 	runningVectorIndices.push_back(runningVectorCount);
+	isSorted = false;
 
 	//Check if this is the first node (i.e. head)
 	//	If so, initialize the head node
-- 
2.43.0


From 4f6c915f2064d94c34dea1e0680f641e9b04fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 12/54] fix: indSimplexTree hid the points inserted after the
 first read of its edges

---
 Complex/indSimplexTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index fb7ab85..5cc32c5 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -358,6 +358,7 @@ void indSimplexTree::insert(std::vector<double>&) {
 	//Create our new node to insert
 	indTreeNode* curNode = new indTreeNode;
 	curNode->index = indexCounter;
+	isSorted = false;
 	
 	std::set<unsigned> tempSet = {curNode->index};
 	
-- 
2.43.0


From 88c2dd448709a9856aa728f998cef2f778f81490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 13/54] fix: indSimplexTree reported its simplex count as the
 vertex count

---
 Complex/indSimplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 5cc32c5..a08ea7d 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -568,7 +568,7 @@ bool indSimplexTree::deletion(indTreeNode* removalEntry) {
 
 int indSimplexTree::vertexCount(){
 	//Return the number of vertices in the tree
-	return nodeCount;
+	return dimensions.size() > 0 ? dimensions[0].size() : 0;
 }
 
 int indSimplexTree::simplexCount(){
-- 
2.43.0


From 60ff58b84553f27c8acaf8fbb8a11fcbe68b55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 14/54] fix: fastPersistence left features that merge two
 single points out of the feature table

---
 Pipes/fastPersistence.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index ff1cd37..f0eaaea 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -131,6 +131,8 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 			conSetTemp.push_back(edge.first);
 			pivots.push_back(pivotIndex);
 			mst.push_back(edge.second);
+			bettiBoundaryTableEntry des = { 0, 0, edge.second, edge.first };
+			inData.bettiTable.push_back(des);
 			
 		}
 		
-- 
2.43.0


From 52da472be42ce3c33a294204f89d49abfbb2b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 15/54] fix: fastPersistence put simplex indices where the
 feature table holds points

---
 Pipes/fastPersistence.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index f0eaaea..c7c666c 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -241,7 +241,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 						if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){
 								bettis += std::to_string(d) + "," + std::to_string(edges[d][*pIndex].second) +"," + std::to_string(edges[d+1][columnIndex].second) + "\n";
 								
-							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, cofaceList };
+							//The boundary is made of the points of its simplices
+							std::set<unsigned> boundary;
+							for(auto face : cofaceList)
+								boundary.insert(edges[d][face].first.begin(), edges[d][face].first.end());
+							
+							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, boundary };
 							inData.bettiTable.push_back(des);
 						}
 											
@@ -269,7 +274,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				} else if(v.find(pivotIndex) == v.end() && row.second != maxEpsilon){
 					bettis += std::to_string(d) + "," + std::to_string(row.second) + "," + std::to_string(maxEpsilon) + "\n";
 					
-					bettiBoundaryTableEntry des = { d, row.second, maxEpsilon, { pivotIndex } };
+					bettiBoundaryTableEntry des = { d, row.second, maxEpsilon, row.first };
 					inData.bettiTable.push_back(des);
 				}
 				
-- 
2.43.0


From 31675e81ec55c22bf2812f734a93545e19cf3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 16/54] fix: persistencePairs read past its table and paired
 features with the wrong simplex

---
 Pipes/persistencePairs.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index fe33d53..7098abe 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -205,8 +205,11 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	//Flatten the edges into a single array
 	std::vector<std::set<unsigned>> kSimplices;
 	std::vector<double> kWeights;
+	std::map<std::set<unsigned>, unsigned> kIndices;				//Position of each simplex
+	std::map<unsigned, std::set<unsigned>> reduced;					//Reduced boundaries by their youngest face
 	for(auto a : edges){		
 		for(auto z : a){
+			kIndices[z.first] = kSimplices.size();
 			kSimplices.push_back(z.first);
 			kWeights.push_back(z.second);
 		}
@@ -236,23 +239,25 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			tArray[curIndex].marked = true;
 			
 		} else {
-			int iter = tArray.size();
-			for(; iter >= 0; iter--){
-				if(tArray[iter].marked && tArray[iter].death < 0 && tArray[curIndex].simplex.size() != kSimplices[iter].size() && ut.setIntersect(kSimplices[iter], tArray[curIndex].simplex, false).size() == tArray[curIndex].simplex.size() - 1)
-					break;
-			}
-			if(iter != 0){
-				if(tArray[iter].death < 0 ){
-					tArray[iter].death = kWeights[curIndex];
-					
-					if(tArray[iter].death != tArray[iter].birth)
-						bettis += std::to_string(tArray[curIndex].simplex.size() - 2) + "," + std::to_string(tArray[iter].birth) + "," + std::to_string(kWeights[curIndex]) + "\n";
-				}
+			//Reduce the boundary; its youngest face is the feature this simplex destroys
+			std::set<unsigned> boundary;
+			for(auto face : ut.getSubsets(kSimplices[curIndex]))
+				boundary.insert(kIndices[face]);
+			while(!boundary.empty() && reduced.find(*boundary.rbegin()) != reduced.end())
+				boundary = ut.setXOR(boundary, reduced[*boundary.rbegin()]);
+			
+			if(!boundary.empty()){
+				unsigned iter = *boundary.rbegin();
+				reduced[iter] = boundary;
+				tArray[iter].death = kWeights[curIndex];
+				
+				if(tArray[iter].death != tArray[iter].birth)
+					bettis += std::to_string(tArray[curIndex].simplex.size() - 2) + "," + std::to_string(tArray[iter].birth) + "," + std::to_string(kWeights[curIndex]) + "\n";
 			}
 			
 			if(!kPivots.empty()){
 				kPivots.erase(kPivots.begin());
-				curPivot = *(kPivots.begin());
+				curPivot = kPivots.empty() ? -1 : *(kPivots.begin());
 			}
 		}
 	}
-- 
2.43.0


From 5251002829a6e03eda24dcca5b7381b14f80a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 17/54] fix: persistencePairs left out or misnumbered the
 features that survive until epsilon

---
 Pipes/persistencePairs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 7098abe..423cb49 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -264,9 +264,9 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	
 	
 	for(int t = 0; t < kSimplices.size(); t++){
-		if(tArray[t].marked && tArray[t].death == -1 && tArray[t].simplex.size() < dim){
-			ret[tArray[t].simplex.size()].push_back(std::make_pair(kWeights[t], maxEpsilon));
-			bettis += std::to_string(0) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
+		if(tArray[t].marked && tArray[t].death == -1 && tArray[t].simplex.size() <= dim){
+			ret[tArray[t].simplex.size() - 1].push_back(std::make_pair(kWeights[t], maxEpsilon));
+			bettis += std::to_string(tArray[t].simplex.size() - 1) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
 		}
 	}
 	
-- 
2.43.0


From 11de2dbd7dc84a31d3c911b8eadb0d8125afa441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 18/54] fix: persistencePairs kept the table of its previous
 run

---
 Pipes/persistencePairs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 423cb49..fe22854 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -224,6 +224,7 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	auto startTime = std::chrono::high_resolution_clock::now();
 	
 	
+	tArray.clear();
 	for(int curIndex = 0; curIndex < kSimplices.size(); curIndex++){
 		
 		int curDim = kSimplices[curIndex].size();
-- 
2.43.0


From 480db9762e9469e3f8f45ae6fb4bba46fcaf8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 19/54] fix: boundaryPipe read past the matrix once every row
 was reduced

---
 Pipes/boundaryPipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index c493891..02b66b5 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -58,7 +58,7 @@ std::pair<std::vector<std::vector<unsigned>>,std::pair<int,int>> boundaryPipe::r
 		return std::make_pair(ret,std::make_pair(0,0));
 		
 	//Step through each column and search for a 1 in that column
-	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
+	for(unsigned i = 0; boundaryMatrix.size() > 0 && i < boundaryMatrix[0].size(); i++){
 		//Step through each vector
 		for(unsigned j = 0; j < boundaryMatrix.size(); j++){
 			
-- 
2.43.0


From b68decc658e73878174967b28b4ad5d9569e9faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 20/54] fix: simplexTree read past its dimensions when asked
 for the one above the top

---
 Complex/simplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index f1df058..bac75af 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -471,7 +471,7 @@ std::pair<std::vector<std::set<unsigned>>, std::vector<std::set<unsigned>>> simp
 std::vector<std::vector<unsigned>> simplexTree::getDimEdges(int d,double){
 	std::vector<std::vector<unsigned>> ret;
 
-	if(weightEdgeGraph.size() >= d){
+	if(d >= 0 && weightEdgeGraph.size() > d){
 		for(auto z : weightEdgeGraph[d]){
 			std::vector<unsigned> temp(z.first.begin(), z.first.end());
 			ret.push_back(temp);
-- 
2.43.0


From 39127b274ff90cf87442bac3b1fccbd758d16e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 21/54] fix: simplexArrayList crashed when asked to find the
 empty set

---
 Complex/simplexArrayList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index d941925..d9c69d0 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -139,7 +139,7 @@ std::vector<std::vector<std::pair<std::set<unsigned>, double>>> simplexArrayList
 // weightedGraph[d][v][p] dimension d stores vectors v of point elements p of simplexes formed
 bool simplexArrayList::find(std::vector<unsigned> vector){
 	
-	if(weightedGraph.size() >= vector.size()){
+	if(vector.size() > 0 && weightedGraph.size() >= vector.size()){
 		//Search the weighted graph from the size of the vector
 		for(auto v = 0; v < weightedGraph[vector.size() - 1].size(); v++){
 			//ut.print1DVector(weightedGraph[vector.size() - 1][v]);
-- 
2.43.0


From 336270dbfa22b5a7e40eab239732e86c6ce999f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 22/54] fix: setUnion of a set with itself returned the empty
 set

---
 Utils/utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 6ad28f2..1df2f40 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -375,11 +375,10 @@ std::vector<std::set<unsigned>> utils::getSubsets(std::set<unsigned> set, int di
 
 // Find the union of two vectors
 std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
-	std::vector<unsigned> ret;
 	std::vector<unsigned> retTemp;
 	
 	if(v1 == v2)
-		return ret;
+		return v1;
 	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
-- 
2.43.0


From a8f57eae7e9c7c2b0d992b068657e5b82799f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 23/54] fix: mapPartitionIndexing changed copies of the table
 entries only

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 1df2f40..3f6640f 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -86,7 +86,7 @@ void utils::mapPartitionIndexing(std::vector<unsigned> partitionedLabels, std::v
 	
 	//std::cout << "Part Labels: " << partitionedLabels.size() << std::endl;
 	
-	for(auto bet : bettiTable){
+	for(auto& bet : bettiTable){
 		std::set<unsigned> convBound;
 		
 		for(auto ind : bet.boundaryPoints){
-- 
2.43.0


From fd333489f07aa5f695fc54c0be11297b03acfada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 24/54] fix: readInput dropped rows of a single character and
 failed on tabs and carriage returns

---
 Utils/readInput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index fb7285c..9ac17ea 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -62,10 +62,10 @@ bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
 	// Replace whitespace in the current line
-	line = std::regex_replace(line, std::regex(" "), "");
+	line = std::regex_replace(line, std::regex("\\s"), "");
 		
 	// Check if the line has a length (is not a blank line)
-	if(line.size() > 1){
+	if(line.size() > 0){
 			
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
-- 
2.43.0


From 5217d4c599869b71e935b432ad7c934495a718ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 25/54] fix: readInput read from an uninitialised stream before
 streamInit

---
 Utils/readInput.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/readInput.hpp b/Utils/readInput.hpp
index 2cf9326..3f072c3 100644
--- a/Utils/readInput.hpp
+++ b/Utils/readInput.hpp
@@ -4,7 +4,7 @@
 
 class readInput {
   private:
-	FILE *pFile;
+	FILE *pFile = NULL;
 	char streamBuffer[1000];
 	bool parseDoubleVector(std::string, std::vector<double> &);
   
-- 
2.43.0


From ef3e2a72a5001fe13da026b46af6c0d6ba0fc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 26/54] fix: streamRead stopped at blank lines and split lines
 longer than its buffer

---
 Utils/readInput.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 9ac17ea..5ba2766 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -161,14 +161,21 @@ bool readInput::streamRead(std::vector<double> &row){
 	if(pFile == NULL)
 		return false;
 	
-	//Check for EOF
-	if(fgets(streamBuffer, 1000, pFile) == NULL)
-		return false;
+	std::string line;
 	
-	//Parse our row
-	if(parseDoubleVector(streamBuffer, row))	
-		return true;
-	else
-		return false;
+	//Read up to EOF; a line may be longer than the buffer, and blank lines are skipped as in readCSV
+	while(fgets(streamBuffer, sizeof(streamBuffer), pFile) != NULL){
+		line += streamBuffer;
+		
+		if(!line.empty() && line.back() == '\n'){
+			//Parse our row
+			if(parseDoubleVector(line, row))
+				return true;
+			line.clear();
+		}
+	}
+	
+	//The last line may have no newline
+	return parseDoubleVector(line, row);
 }
 
-- 
2.43.0


From 5758079aa7a96b6dd5c3ac58f987f0f200a8954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 27/54] fix: writeMAT read the first row of empty data

---
 Utils/writeOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 25165ea..c688985 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -97,7 +97,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string filename){
 	std::ofstream file(filename + ".mat");
 	
-	file << std::to_string(data.size()) << "\n" << std::to_string(data[0].size()) << "\n";
+	file << std::to_string(data.size()) << "\n" << std::to_string(data.empty() ? 0 : data[0].size()) << "\n";
 	for(auto row : data){
 		
 		for(auto column : row){
-- 
2.43.0


From cd3ebe32752db49d0a938c38248f1262bece93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 28/54] fix: argParser read past the arguments when the last
 one has no value

---
 Utils/argParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index 0163ba3..3fb6a22 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -81,7 +81,10 @@ std::map<std::string, std::string> argParser::parse(int argc, char** argv){
 	std::map<std::string,std::string> retVal;
 	//Remove and map the initial arguments (may be led with -- or -)
 	for(int i = 1; i < argc; i=i+2){
-		if (std::string(argv[i]).substr(0,2) == "--"){
+		if (i + 1 >= argc && std::string(argv[i]).substr(0,1) == "-"){
+			std::cout << "Missing value for argument: " << argv[i] << std::endl << std::endl;
+			printUsage();
+		} else if (std::string(argv[i]).substr(0,2) == "--"){
 			retVal[std::string(argv[i]).substr(2)] = argv[i+1];
 		} else if (std::string(argv[i]).substr(0,1) == "-"){
 			retVal[std::string(argv[i]).substr(1)] = argv[i+1];
-- 
2.43.0


From 2aa853aa16a28fb7ae17530d186b02746769db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 29/54] fix: complexes wrote debug messages with debugging off

---
 Complex/simplexBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexBase.cpp b/Complex/simplexBase.cpp
index 1171ea6..02823e3 100644
--- a/Complex/simplexBase.cpp
+++ b/Complex/simplexBase.cpp
@@ -27,7 +27,7 @@ void simplexBase::setConfig(std::map<std::string, std::string> configMap){
 
 	auto pipe = configMap.find("debug");
 	if(pipe != configMap.end())
-		debug = std::atoi(configMap["debug"].c_str());
+		debug = configMap["debug"];
 	pipe = configMap.find("outputFile");
 	if(pipe != configMap.end())
 		outputFile = configMap["outputFile"].c_str();
-- 
2.43.0


From dba044a3691b4ba2ee5d3bec555ce801af210c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 30/54] fix: persistence and boundary stages reported to the
 console whatever the output file

---
 Pipes/boundaryPipe.hpp        | 1 -
 Pipes/fastPersistence.hpp     | 1 -
 Pipes/optPersistencePairs.hpp | 1 -
 Pipes/persistencePairs.hpp    | 1 -
 4 files changed, 4 deletions(-)

diff --git a/Pipes/boundaryPipe.hpp b/Pipes/boundaryPipe.hpp
index 0be8b46..2cb5ea8 100644
--- a/Pipes/boundaryPipe.hpp
+++ b/Pipes/boundaryPipe.hpp
@@ -9,7 +9,6 @@ class boundaryPipe : public basePipe {
   private:
 	std::vector<int> ranks;
 	std::vector<int> nRanks;
-	utils ut;
 	float maxEpsilon;
   public:
 	int dim;
diff --git a/Pipes/fastPersistence.hpp b/Pipes/fastPersistence.hpp
index 10cdea6..951d0dd 100644
--- a/Pipes/fastPersistence.hpp
+++ b/Pipes/fastPersistence.hpp
@@ -11,7 +11,6 @@
 class fastPersistence : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
diff --git a/Pipes/optPersistencePairs.hpp b/Pipes/optPersistencePairs.hpp
index 3eb7c33..17b4c54 100644
--- a/Pipes/optPersistencePairs.hpp
+++ b/Pipes/optPersistencePairs.hpp
@@ -11,7 +11,6 @@
 class optPersistencePairs : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
diff --git a/Pipes/persistencePairs.hpp b/Pipes/persistencePairs.hpp
index 6c39af1..3d79ee4 100644
--- a/Pipes/persistencePairs.hpp
+++ b/Pipes/persistencePairs.hpp
@@ -10,7 +10,6 @@
 class persistencePairs : public basePipe {
   private:
   
-	utils ut;
 	double maxEpsilon;
 	std::string twist;
   public:
-- 
2.43.0


From efa3f6d04aa585f28b7a7df068c719530d01bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 31/54] fix: kdTree left out neighbours at exactly the radius
 behind the splitting plane

---
 Preprocessing/kdTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index 46184f8..b021bd4 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) < rad){ //Points in other branch may also be contained in neighborhood
+    if(std::abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From 3dc88e0a53be1c0c652b1f1c4e5ee624b9bee271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 32/54] fix: microCluster radius was NaN when rounding made the
 variance negative

---
 Preprocessing/denStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 05a3bd1..aa6c432 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -64,7 +64,7 @@ double microCluster::getRadius(){
     r2 += avgSquares[i] - center[i]*center[i]; //(CF2/w)-(CF1/w)^2
   }
 
-  return sqrt(r2);
+  return sqrt(std::max(r2, 0.0)); //Rounding can leave a tiny negative variance
 }
 
 double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Radius if new point would be merged in
@@ -77,7 +77,7 @@ double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Ra
     r2 += newAvgSquare - newCenter*newCenter; //Use updated center and average sum of squares
   }
 
-  return sqrt(r2);
+  return sqrt(std::max(r2, 0.0)); //Rounding can leave a tiny negative variance
 }
 
 // basePipe constructor
-- 
2.43.0


From d461957ffb6df1a6da0e74234d274bc6e991e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 33/54] fix: kdTree nearest took the integer absolute value of
 distances

---
 Preprocessing/kdTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index b021bd4..25222e9 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -201,7 +201,7 @@ kdNodePtr kdTree::findNearest(const kdNodePtr &branch, const point &pt, const si
         }
     }
 
-    if(abs(dx) < bestDistL){
+    if(std::abs(dx) < bestDistL){
         further = findNearest(other, pt, nextLv, bestL, bestDistL);
         if(!further->x.empty()){
             double dl = ut.vectors_distance(further->x, pt);
-- 
2.43.0


From 398e32cbdd254db84052f3673db0091016882767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 34/54] fix: k-means never classified the last point

---
 Preprocessing/kMeansPlusPlus.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 1239a0b..8ec2933 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -64,7 +64,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
         int index_next = distribution(gen);
         bool picked = false;
         std::vector<double>  center_next = inData.originalData[index_next];
-            for(unsigned j=0; j<inData.originalData.size()-1; j++) {
+            for(unsigned j=0; j<inData.originalData.size(); j++) {
                 auto dist_next = ut.vectors_distance(inData.originalData[j], center_next);
                 auto centers_dist = ut.vectors_distance(center_initial, center_next);
                 auto probability = (centers_dist*centers_dist)/dist_next;
@@ -112,7 +112,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-		for (unsigned j = 0; j < inData.originalData.size() - 1; j++){
+		for (unsigned j = 0; j < inData.originalData.size(); j++){
 			double minDist = std::numeric_limits<double>::max();
 			unsigned clusterIndex = 0;
 			
-- 
2.43.0


From 1f68947c55cb32e28f77be6d8f629069fb1e9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 35/54] fix: k-means read past the data when there are fewer
 distinct points than clusters

---
 Preprocessing/kMeansPlusPlus.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 8ec2933..a76ee8b 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -80,8 +80,8 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
             }
     }       
     
-    int i = 0;
-    while(tempCentroids.size() < num_clusters){
+    unsigned i = 0;
+    while(tempCentroids.size() < num_clusters && i < inData.originalData.size()){
 		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){
 			tempCentroids.push_back(inData.originalData[i]);
 		}
@@ -106,9 +106,9 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     //Iterate until we reach max iderations or no change in the classification
 	for (int z = 0; z < num_iterations; z++){
 		
-		std::vector<double> summedClusters(num_clusters, 0); 
-		std::vector<std::vector<double>> summedCentroidVectors(num_clusters, std::vector<double>(inData.originalData[0].size(), 0));
-		std::vector<double> counts(num_clusters, 0);
+		std::vector<double> summedClusters(tempCentroids.size(), 0); 
+		std::vector<std::vector<double>> summedCentroidVectors(tempCentroids.size(), std::vector<double>(inData.originalData[0].size(), 0));
+		std::vector<double> counts(tempCentroids.size(), 0);
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-- 
2.43.0


From 25c19bf29e1ac137502af6eee33baaeaaf7a6763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 36/54] fix: k-means divided by zero for a cluster without
 points

---
 Preprocessing/kMeansPlusPlus.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index a76ee8b..9faeadd 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -139,6 +139,12 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		//Otherwise, 
 		//		Shift the centroid geometric centers to new centroids
 		for(int i = 0; i < summedCentroidVectors.size(); i++){
+			//A cluster without points keeps its centroid
+			if(counts[i] == 0){
+				summedCentroidVectors[i] = tempCentroids[i];
+				continue;
+			}
+			
 			for(int d =0; d < summedCentroidVectors[0].size(); d++){
 				summedCentroidVectors[i][d] = summedCentroidVectors[i][d] / counts[i];
 			}
-- 
2.43.0


From 416d2c077faa0fd115a8b192b9db3be372d428d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 37/54] fix: denStream read past inputs of fewer than 1000
 points

---
 Preprocessing/denStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index aa6c432..0466bd9 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -91,7 +91,7 @@ denStream::denStream(){
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket denStream::runPreprocessor(pipePacket inData){
   /////////constants//////////
-  initPoints = 1000; // points to generate p clusters (large data sets, use 1000) 
+  initPoints = std::min(1000, (int)inData.originalData.size()); // points to generate p clusters (large data sets, use 1000) 
   minPoints = 20; //For DBSCAN 
   mu = 10;   //weight of data points in cluster threshold
   beta = 0.2; // outlier threshold
-- 
2.43.0


From ebc65c1252aeab8673eac14704487bd786c56798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 38/54] fix: denStream started from an empty cluster at the
 origin when the first points are all noise

---
 Preprocessing/denStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 0466bd9..ff2fac7 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -110,7 +110,7 @@ pipePacket denStream::runPreprocessor(pipePacket inData){
   timestamp = initPoints/streamSpeed;
   numPerTime = initPoints % streamSpeed;
 
-  if(pClusters == -1) pClusters = 1;
+  if(pClusters == -1) pClusters = 0; //Only noise
   pMicroClusters = std::vector<microCluster>(pClusters, microCluster(timestamp, inData.originalData[0].size(), lambda));
 
   //Take labels of each point and insert into appropriate microCluster
-- 
2.43.0


From 578c4bc0fe772b45e9a1ceb5f18c5b5a187fda28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 39/54] fix: denStream kept the outlier clusters of its
 previous run

---
 Preprocessing/denStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index ff2fac7..881bc33 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -111,6 +111,7 @@ pipePacket denStream::runPreprocessor(pipePacket inData){
   numPerTime = initPoints % streamSpeed;
 
   if(pClusters == -1) pClusters = 0; //Only noise
+  oMicroClusters.clear();
   pMicroClusters = std::vector<microCluster>(pClusters, microCluster(timestamp, inData.originalData[0].size(), lambda));
 
   //Take labels of each point and insert into appropriate microCluster
-- 
2.43.0


From 26bffd096f6e3fa57a8a3887ec9ed2d39d118775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 40/54] fix: reduced mode mapped features of earlier partitions
 again and printed those instead of the merged ones

---
 LHFmain/main.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3989770..0830424 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -117,7 +117,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 		if(partitionedData.second[z].size() > 0){
 			std::cout << "Running Pipeline with : " << partitionedData.second[z].size() << " vectors" << std::endl;
 			wD->originalData = partitionedData.second[z];
-			
+			wD->bettiTable.clear();
 			
 			runPipeline(args, wD);
 			
@@ -137,15 +137,20 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 	if(centroids.size() > 0){
 		std::cout << "Running Pipeline with : " << centroids.size() << " vectors" << std::endl;
 		wD->originalData = centroids;
+		wD->bettiTable.clear();
+		
 		runPipeline(args, wD);
 		
 		wD->complex->clear();
+		
+		for(auto betEntry : wD->bettiTable)
+			mergedBettiTable.push_back(betEntry);
 	} else 
 		std::cout << "skipping" << std::endl;
 	
 	std::cout << std::endl << "_______BETTIS_______" << std::endl;
 	
-	for(auto a : wD->bettiTable){
+	for(auto a : mergedBettiTable){
 		std::cout << a.bettiDim << ",\t" << a.birth << ",\t" << a.death << ",\t";
 		ut.print1DVector(a.boundaryPoints);
 	}
-- 
2.43.0


From 1475141f75a8196398fc6b3707aa9243fe1b7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 41/54] fix: slidingWindow kept deleted points in the distance
 matrix and read past its window

---
 Pipes/slidingWindow.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 20b4a45..0bfc6ba 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -39,6 +39,12 @@ void slidingWindow::deleteNNstats()
 
     defaultVals->distsFromCurrVec.erase( defaultVals->distsFromCurrVec.begin() + defaultVals->indexToBeDeleted );
 
+    // Delete the corresponding row and column from the distance matrix.
+    auto& distMatrix = pPack->complex->distMatrix;
+    distMatrix.erase( distMatrix.begin() + defaultVals->indexToBeDeleted );
+    for(auto& row : distMatrix)
+        row.erase( row.begin() + defaultVals->indexToBeDeleted );
+
     defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] = defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] - 1;
 
     // If there are no more points left in the partition from which the deletion took place:
@@ -209,7 +215,7 @@ void slidingWindow::updateStats()
                 std::vector<double> memberDistsFromVect;
                 std::vector<int> memberIndices;
 
-                for(unsigned int j = 0; j < defaultVals->windowMaxSize; j++)
+                for(unsigned int j = 0; j < pPack->complex->distMatrix.size(); j++)
                 {
                     if ( defaultVals->partitionLabels[j] == defaultVals->labelToBeDeleted )
                     {
@@ -241,7 +247,7 @@ void slidingWindow::updateStats()
         }
 
     }
-    pPack->complex->distMatrix.push_back( defaultVals->distMatLastRow );
+    pPack->complex->distMatrix.push_back( std::vector<double>(defaultVals->windowMaxSize, 0) );
 
     // Update the average NN distance of the partition from which the last point was deleted and of the one to which the new point
     // is being added.
-- 
2.43.0


From 09c175d9dcb1e687dfd3309d1a8507255e3c6ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 42/54] fix: slidingWindow did not renumber the nearest
 neighbors when a point left the window

---
 Pipes/slidingWindow.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 0bfc6ba..04e1885 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -34,6 +34,15 @@ void slidingWindow::deleteNNstats()
 
     defaultVals->nnIndices.erase( defaultVals->nnIndices.begin() + defaultVals->indexToBeDeleted );
 
+    // The remaining points move up; the ones whose nearest neighbor is deleted are marked with -2.
+    for(auto& nn : defaultVals->nnIndices)
+    {
+        if (nn == defaultVals->indexToBeDeleted)
+            nn = -2;
+        else if (nn > defaultVals->indexToBeDeleted)
+            nn--;
+    }
+
     defaultVals->nnDistToBeDeleted = defaultVals->nnDists[defaultVals->indexToBeDeleted];
     defaultVals->nnDists.erase( defaultVals->nnDists.begin() + defaultVals->indexToBeDeleted );
 
@@ -86,7 +95,7 @@ void slidingWindow::updateStats()
         // to be added to. And, the point that was deleted was the nearest neighbor of the i-th point.
         if ( defaultVals->partitionLabels[i] == defaultVals->labelToBeDeleted
                 &&  defaultVals->partitionLabels[i] != defaultVals->targetPartition
-                && defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+                && defaultVals->nnIndices[i] == -2 )
         {
 
             // If only one point remains in the partition from which the last point was deleted:
@@ -205,7 +214,7 @@ void slidingWindow::updateStats()
                 sumNewNNdists = sumNewNNdists + defaultVals->nnDists[i];
             }
 
-            else if ( defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+            else if ( defaultVals->nnIndices[i] == -2 )
             {
                 distsFromCurrVecTP.push_back( defaultVals->distsFromCurrVec[i] );
                 tpIndices.push_back(i);
-- 
2.43.0


From e2731706fb589b049db25f29e1c7516a039f2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 43/54] fix: slidingWindow did not update its statistics once
 the window holds several partitions

---
 Pipes/slidingWindow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 04e1885..86ebdea 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -460,6 +460,9 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
             }
         }
 
+        // Add to the distance matrix and update the NN statistics.
+        updateStats();
+
         return true;
     }
 
-- 
2.43.0


From 6ee4088abd638ac52d070c2594b420140c2557d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 44/54] fix: slidingWindow searched for label 0 or 1 instead of
 a label other than the target

---
 Pipes/slidingWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 86ebdea..c594046 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -452,7 +452,7 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
                 // we'll delete the oldest point from a partition label != targetPartition label.
 
                 // Find the first occurrence of a partition label != targetPartition label.
-                defaultVals->indexToBeDeleted = std::find( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), !defaultVals->targetPartition ) - defaultVals->partitionLabels.begin();
+                defaultVals->indexToBeDeleted = std::find_if( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), [](int label) { return label != defaultVals->targetPartition; } ) - defaultVals->partitionLabels.begin();
                 defaultVals->labelToBeDeleted = defaultVals->partitionLabels[defaultVals->indexToBeDeleted];
 
                 deleteNNstats();
-- 
2.43.0


From 8bb0d7cd0214ad427ed466f23648a6132edf2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 45/54] fix: slidingWindow kept the window of its previous run

---
 Pipes/slidingWindow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index c594046..19565fd 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -519,6 +519,7 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
     utils ut;
     readInput rp;
 	pPack = &inData;
+	*defaultVals = EvalParams{ 200, 0, 0 };	// Earlier runs leave no trace
 	
 
     // For this pipe, we construct a sub-pipeline:
-- 
2.43.0


From 739073a5404deab8866d13a8b5bcebf6eea832a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 46/54] fix: slidingWindow ran the last pipeline on an earlier
 window

---
 Pipes/slidingWindow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 19565fd..11e91eb 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -604,6 +604,8 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
         {
             std::cout << "pointCounter: " << pointCounter << "\tSimplex Count: " << inData.complex->simplexCount() << "\tVertex Count: " << inData.complex->vertexCount() << std::endl;
 
+            if(windowValues.size() == defaultVals->windowMaxSize)
+                inData.originalData = windowValues;
             runSubPipeline(inData);
         }
         ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
-- 
2.43.0


From d6b3fbe92f36610054376d025bbfcd7d6bf5bd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 47/54] fix: slidingWindow left the new point out when
 replacing a deleted nearest neighbor

---
 Pipes/slidingWindow.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 11e91eb..68a2780 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -240,6 +240,10 @@ void slidingWindow::updateStats()
                         }
                     }
                 }
+                // The new point is a candidate, too.
+                memberDistsFromVect.push_back( defaultVals->distsFromCurrVec[i] );
+                memberIndices.push_back( defaultVals->windowMaxSize - 1 );
+
                 auto tempIdx = std::min_element(memberDistsFromVect.begin(), memberDistsFromVect.end()) - memberDistsFromVect.begin();
                 defaultVals->nnIndices[i] = memberIndices[tempIdx];
 
-- 
2.43.0


From 4b7af190cd7b0bfdc774988ef1d11872e2a91388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 48/54] fix: slidingWindow froze when rounding made the average
 neighbor distance negative

---
 Pipes/slidingWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 68a2780..a073a82 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -348,7 +348,7 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
         if (avgNNDistSinglePartition <= f2 && nnDistCurrVec <= 1)
             return false;
 
-        if (avgNNDistSinglePartition == 0 || nnDistCurrVec / avgNNDistSinglePartition > f1)
+        if (avgNNDistSinglePartition <= 0 || nnDistCurrVec / avgNNDistSinglePartition > f1)
         {
             // In this case, the oldest point will be deleted from the window.
             defaultVals->labelToBeDeleted = defaultVals->partitionLabels[0];
-- 
2.43.0


From f3633965423ddd156f696f4821004b9a34093985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 49/54] fix: naiveWindow returned an earlier window when the
 stream ends between two reports

---
 Pipes/naiveWindow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/naiveWindow.cpp b/Pipes/naiveWindow.cpp
index fe8b954..ed9001c 100644
--- a/Pipes/naiveWindow.cpp
+++ b/Pipes/naiveWindow.cpp
@@ -104,6 +104,8 @@ pipePacket naiveWindow::runPipe(pipePacket inData){
 		if((pointCounter - 1) % 100 != 0){
 			std::cout << "pointCounter: " << pointCounter << "\tSimplex Count: " << inData.complex->simplexCount() << "\tVertex Count: " << inData.complex->vertexCount() << std::endl;
 
+			if(windowValues.size() == windowMaxSize)
+				inData.originalData = windowValues;
 			//runSubPipeline(inData);
 		}
 		ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
-- 
2.43.0


From 11bc226ee1b262da946f640cda1b6168c7b57ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 50/54] fix: persistencePairs getRankNull read the first row of
 an empty matrix

---
 Pipes/persistencePairs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index fe22854..99c0911 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -73,6 +73,10 @@ std::set<unsigned> persistencePairs::getRankNull(std::vector<std::vector<unsigne
 	
 	std::set<unsigned> ret;
 	
+	//A matrix without rows has no pivots
+	if(boundaryMatrix.size() == 0)
+		return ret;
+	
 	//Step through each column and search for a one
 	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
 		
-- 
2.43.0


From ebd1c71aaf98b11144955b54fb0cc72593c2d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 51/54] fix: setUnion and setIntersect return equal unsorted
 arguments sorted

---
 Utils/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 3f6640f..bf703c5 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -181,14 +181,14 @@ double utils::vectors_distance(const std::vector<double>& a, const std::vector<d
 std::vector<unsigned> utils::setIntersect(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
 	std::vector<unsigned> ret;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_intersection(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(ret));
 
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
@@ -377,14 +377,14 @@ std::vector<std::set<unsigned>> utils::getSubsets(std::set<unsigned> set, int di
 std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsigned> v2, bool isSorted){
 	std::vector<unsigned> retTemp;
 	
-	if(v1 == v2)
-		return v1;
-	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
 		sort(v2.begin(), v2.end());
 	}
 	
+	if(v1 == v2)
+		return v1;
+	
 	set_union(v1.begin(), v1.end(), v2.begin(), v2.end(), back_inserter(retTemp));
 		
 	/*for(auto iter = v1.begin(); iter!= v1.end(); iter++){
-- 
2.43.0


From f817c09139c09e091934390f252c5cef8620a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 52/54] fix: readMAT lost a number, or failed, at every blank
 line

---
 Utils/readInput.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 5ba2766..cde5091 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -85,6 +85,18 @@ bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 }
 
 
+// nextLine -> read the next line that is not blank, without its whitespace
+static bool nextLine(std::ifstream &file, std::string &line){
+	while(getline(file, line)){
+		line = std::regex_replace(line, std::regex("\\s"), "");
+		
+		if(line.size() > 0)
+			return true;
+	}
+	return false;
+}
+
+
 // readMAT -> read in a mat formatted file from file input
 //		-filename - complete filename and relative path (if needed) for reading
 // 
@@ -110,14 +122,12 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 	std::string line;			//Temporary (current) line
 	
 	// Get the number of vectors
-	if(getline(file,line)){
-		line = std::regex_replace(line,std::regex(" "),"");
+	if(nextLine(file,line)){
 		vectors = std::stoi(line);
 	} else return result;
 	
 	// Get the number of dimensions
-	if(getline(file,line)){
-		line = std::regex_replace(line,std::regex(" "),"");
+	if(nextLine(file,line)){
 		dimensions = std::stoi(line);
 	} else return result;
 	
@@ -126,13 +136,8 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 		std::vector<double> tmp;	//Temporary (current) vector
 		
 		for(int dim = 0; dim < dimensions; dim++){
-			getline(file, line);		//Read the next line from file
-			
-			// Replace whitespace in the current line
-			line = std::regex_replace(line, std::regex(" "), "");
-			
-			// Check if the line has a length (is not a blank line)
-			if(line.size() > 0){
+			//Read the next line from file
+			if(nextLine(file, line)){
 				
 				// Push the value found before the comma, remove from the line
 				tmp.push_back(std::stod(line));
-- 
2.43.0


From a100630d0cbe7b57ec70113b9c54b08c5e0531cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 53/54] fix: streaming k-means compared a projection's position
 with the point's index and read past the facilities

---
 Preprocessing/streamingKmeans.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Preprocessing/streamingKmeans.cpp b/Preprocessing/streamingKmeans.cpp
index d580430..2289b44 100644
--- a/Preprocessing/streamingKmeans.cpp
+++ b/Preprocessing/streamingKmeans.cpp
@@ -347,10 +347,10 @@ std::vector<double> streamingKmeans::approxNearestNeighbor(std::vector<std::vect
 //		 std::cout<<squareDist<< " <-squareDist x\n";
 		return inData.originalData[x];  
 	}
-	else if (loc == x-1){
-		double squareDist =  ut.vectors_distance(inData.originalData[x], facilities[sortedApproxFacils[size-1].second]);
+	else if (loc == (int)facilities.size()-1){
+		double squareDist =  ut.vectors_distance(inData.originalData[x], facilities[sortedApproxFacils[loc].second]);
 //		std::cout<<squareDist<< " <-squareDist x-1\n";
-		return facilities[sortedApproxFacils[size-1].second];
+		return facilities[sortedApproxFacils[loc].second];
 	}
  
 	
@@ -387,7 +387,7 @@ std::vector<double> streamingKmeans::approxHat(std::vector<std::vector<double>>&
 //std::cout<<"got to 1\n";
 		return summedCentroidVectors[xHat];  
 	}
-	else if (loc == xHat-1){
+	else if (loc == size-1){
 		double squareDist =  ut.vectors_distance(summedCentroidVectors[xHat], summedCentroidVectors[sortedApproxFacilsHat[size-1].second]);
 //		std::cout<<squareDist<< " <-squareDist x-1\n";
 //std::cout<<"got to 2\n";
-- 
2.43.0


From 28ca72a4882894f2b015b38976a779a1ef1ea987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:45 +0000
Subject: [PATCH 54/54] fix: streamEvaluator read past the distances of a
 window of fewer than 20 points

---
 Complex/simplexBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexBase.cpp b/Complex/simplexBase.cpp
index 02823e3..d4cb6d5 100644
--- a/Complex/simplexBase.cpp
+++ b/Complex/simplexBase.cpp
@@ -171,7 +171,7 @@ bool simplexBase::streamEvaluator(std::vector<double>& vector, std::vector<std::
 
 	std::sort(reps.begin(), reps.end());
 	std::vector<double> kNN;
-	int k = 20;
+	int k = std::min<int>(20, reps.size());
 
 	for(int i = 0; i < k; i++){
 		kNN.push_back(reps[i]);
-- 
2.43.0

