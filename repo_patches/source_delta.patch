From 3557e485a1a62602df692fd8afa29dcf83a8ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 01/24] fix: convert log parameters to their integer code
 without undefined casts

---
 src/psdd_parameter.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..cb1cdf5 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -8,11 +8,26 @@
 
 #define APPX_LEVEL 7
 
+namespace {
+// Rounds the scaled parameter to an integer. Log parameters are negative, so
+// they cannot be cast to an unsigned integer directly; values without a
+// representation, such as log(0), saturate.
+uintmax_t ApproximateValue(double parameter) {
+  double scaled = parameter * std::pow(10, APPX_LEVEL);
+  if (scaled >= 9223372036854775808.0) {
+    return static_cast<uintmax_t>(std::numeric_limits<int64_t>::max());
+  }
+  if (!(scaled >= -9223372036854775808.0)) {
+    return static_cast<uintmax_t>(std::numeric_limits<int64_t>::min());
+  }
+  return static_cast<uintmax_t>(static_cast<int64_t>(scaled));
+}
+} // namespace
+
 PsddParameter::PsddParameter() : PsddParameter(std::log(0)) {}
 
 PsddParameter::PsddParameter(double parameter)
-    : parameter_(parameter), hash_value_(static_cast<uintmax_t>(
-                                 parameter * std::pow(10, APPX_LEVEL))) {}
+    : parameter_(parameter), hash_value_(ApproximateValue(parameter)) {}
 
 PsddParameter PsddParameter::CreateFromDecimal(double num) {
   return PsddParameter(std::log(num));
-- 
2.43.0


From 3a9e486e20ec38e4ec55d2534b2054d931a9b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 02/24] fix: compound assignment keeps parameter comparisons in
 step with the value

---
 src/psdd_parameter.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index cb1cdf5..03c721e 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -91,28 +91,16 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
+  *this = *this + other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
+  *this = *this / other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
+  *this = *this * other;
   return *this;
 }
-- 
2.43.0


From 4219eedeb67815f1f6068a50e1de652c776d8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 03/24] fix: top nodes that differ only in their false
 parameter are distinct nodes

---
 src/psdd_node.cpp         | 4 +++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..5228792 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
@@ -998,6 +999,7 @@ uint32_t PsddTopNode::variable_index() const { return variable_index_; }
 void PsddTopNode::CalculateHashValue() {
   std::size_t hash_value = std::hash<uint32_t>{}(variable_index_);
   hash_value ^= true_parameter_.hash_value() << 1;
+  hash_value ^= false_parameter_.hash_value() << 3;
   hash_value ^= std::hash<uintmax_t>{}(flag_index()) << 2;
   set_hash_value(hash_value);
 }
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From a793b7cdabefc2818535a47db3441af5bbb5b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 04/24] fix: hashing a decision node with more than 64 elements
 shifts out of range

---
 src/psdd_node.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 5228792..b34f556 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -916,9 +916,11 @@ void PsddDecisionNode::CalculateHashValue() {
   std::size_t hash_value = std::hash<uintmax_t>{}(flag_index());
   auto element_size = primes_.size();
   for (size_t i = 0; i < element_size; i++) {
-    hash_value ^= (std::hash<uintmax_t>{}(primes_[i]->node_index()) << i);
-    hash_value ^= (std::hash<uintmax_t>{}(subs_[i]->node_index()) << i);
-    hash_value ^= (parameters_[i].hash_value() << i);
+    // Shifting by the width of the type or more is undefined.
+    size_t shift = i % (8 * sizeof(std::size_t));
+    hash_value ^= (std::hash<uintmax_t>{}(primes_[i]->node_index()) << shift);
+    hash_value ^= (std::hash<uintmax_t>{}(subs_[i]->node_index()) << shift);
+    hash_value ^= (parameters_[i].hash_value() << shift);
   }
   set_hash_value(hash_value);
 }
-- 
2.43.0


From b796434a00e3488aac89a4289d778474ba344314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 05/24] fix: unused PSDD nodes are freed when they leave the
 unique table

---
 src/psdd_unique_table.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 95c25b0..859dbac 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -271,7 +271,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != decision_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = decision_table_it->second.erase(node_it);
+          delete (unused_node);
         } else {
           ++node_it;
         }
@@ -289,7 +291,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != literal_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = literal_table_it->second.erase(node_it);
+          delete (unused_node);
         } else {
           ++node_it;
         }
@@ -307,7 +311,9 @@ class PsddUniqueTableImp : public PsddUniqueTable {
       while (node_it != top_table_it->second.end()) {
         if (covered_nodes.find((*node_it)->node_index()) ==
             covered_nodes.end()) {
+          PsddNode *unused_node = *node_it;
           node_it = top_table_it->second.erase(node_it);
+          delete (unused_node);
         } else {
           ++node_it;
         }
-- 
2.43.0


From 193ded5b3c2b569bfa3dff3a83f61fb9abb8a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 06/24] fix: sampling with a uniform draw close to one stays in
 the support

---
 src/psdd_node.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index b34f556..c8038c8 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -944,17 +944,23 @@ void PsddDecisionNode::DirectSample(
       (generator->max() - generator->min()));
   PsddParameter acc = PsddParameter::CreateFromDecimal(0);
   auto element_size = primes_.size();
+  // Comparisons are approximate, so a draw close to one may exceed every
+  // accumulated value; it belongs to the last possible partition.
+  size_t selected = element_size;
   for (size_t i = 0; i < element_size; ++i) {
     PsddParameter cur_parameter = parameters_[i];
+    if (cur_parameter == PsddParameter::CreateFromDecimal(0)) {
+      continue;
+    }
+    selected = i;
     acc = acc + cur_parameter;
     if (uniform_rand < acc) {
-      // Use this partition
-      primes_[i]->DirectSample(instantiation, generator);
-      subs_[i]->DirectSample(instantiation, generator);
-      return;
+      break;
     }
   }
-  assert(false);
+  assert(selected != element_size);
+  primes_[selected]->DirectSample(instantiation, generator);
+  subs_[selected]->DirectSample(instantiation, generator);
 }
 const std::vector<uintmax_t> &PsddDecisionNode::data_counts() const {
   return data_counts_;
@@ -1026,7 +1032,8 @@ void PsddTopNode::DirectSample(std::bitset<MAX_VAR> *instantiation,
   PsddParameter uniform_rand = PsddParameter::CreateFromDecimal(
       (generator->generate() - generator->min()) /
       (generator->max() - generator->min()));
-  if (uniform_rand < true_parameter_) {
+  if (uniform_rand < true_parameter_ ||
+      false_parameter_ == PsddParameter::CreateFromDecimal(0)) {
     instantiation->set(variable_index_);
   }
 }
-- 
2.43.0


From 7378fa04008a5c7b972dc3c9c1b3717d29d84b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 07/24] fix: PSDD files with zero parameters are read back

---
 src/psdd_manager.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..1ee889a 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -6,6 +6,7 @@
 #include <psdd/psdd_unique_table.h>
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <iostream>
@@ -27,6 +28,13 @@ void TagSddVtreeWithPsddVtree(
   }
 }
 
+// Streams do not read "-inf", which is how a zero parameter is written.
+double ReadLogParameter(std::istream *input) {
+  std::string token;
+  *input >> token;
+  return std::strtod(token.c_str(), nullptr);
+}
+
 struct MultiplyFunctional {
   std::size_t operator()(const std::pair<PsddNode *, PsddNode *> &arg) const {
     return (std::hash<uintmax_t>{}(arg.first->node_index()) << 1) ^
@@ -614,8 +622,9 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uint32_t variable_index;
       double neg_log_pr;
       double pos_log_pr;
-      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
-          pos_log_pr;
+      iss >> node_index >> vtree_index >> variable_index;
+      neg_log_pr = ReadLogParameter(&iss);
+      pos_log_pr = ReadLogParameter(&iss);
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
@@ -635,7 +644,8 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
         uintmax_t prime_index;
         uintmax_t sub_index;
         double weight_in_log;
-        iss >> prime_index >> sub_index >> weight_in_log;
+        iss >> prime_index >> sub_index;
+        weight_in_log = ReadLogParameter(&iss);
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
         PsddNode *prime_node = construct_cache[prime_index];
-- 
2.43.0


From 235453bce062a6d8e0f519b330ec452f09c147c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 08/24] fix: multiplying with false gives false

---
 src/psdd_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 1ee889a..1783090 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -580,6 +580,10 @@ PsddNode *PsddManager::NormalizePsddNode(Vtree *target_vtree_node,
 
 std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
     PsddNode *arg1, PsddNode *arg2, uintmax_t flag_index) {
+  if (arg1 == nullptr || arg2 == nullptr) {
+    // nullptr for PsddNode means false
+    return {nullptr, PsddParameter::CreateFromDecimal(0)};
+  }
   ComputationCache cache((uint32_t)leaf_vtree_map_.size());
   return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
 }
-- 
2.43.0


From f4bd17a283eac7ae91d7e3ed4b87b275517a2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 09/24] fix: serializing several roots puts parents before
 children

---
 src/psdd_node.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index c8038c8..7ab7652 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -288,6 +288,24 @@ SerializePsddNodes(const std::vector<PsddNode *> &root_nodes) {
     }
     ++explore_index;
   }
+  if (root_nodes.size() > 1) {
+    // Roots may be normalized for vtree nodes at different depths, in which
+    // case exploring them side by side does not put parents before children.
+    std::unordered_map<uintmax_t, size_t> depths;
+    for (PsddNode *cur_node : result) {
+      size_t depth = 0;
+      for (Vtree *cur_vtree = sdd_vtree_parent(cur_node->vtree_node());
+           cur_vtree != nullptr; cur_vtree = sdd_vtree_parent(cur_vtree)) {
+        ++depth;
+      }
+      depths[cur_node->node_index()] = depth;
+    }
+    std::stable_sort(result.begin(), result.end(),
+                     [&depths](const PsddNode *lhs, const PsddNode *rhs) {
+                       return depths[lhs->node_index()] <
+                              depths[rhs->node_index()];
+                     });
+  }
   return result;
 }
 
-- 
2.43.0


From 4c9e346383428ec38eb6141e3000e28c0c26c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 10/24] fix: CSV parser reads past the end of a string and
 before the start of a field

---
 src/csvparser.c | 484 ++++++++++++++++++++++++------------------------
 1 file changed, 244 insertions(+), 240 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..1af189c 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,240 +1,244 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    csvParser->csvStringIter_++;
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_);
+    }
+    if (endOfFileIndicator) {
+      if (csvParser->fromString_) {
+        // stay on the terminator, so that the next call ends here as well
+        csvParser->csvStringIter_--;
+      }
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0


From 2bae0c6d067de5dfb2c43f49e961323411accba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 11/24] fix: a dataset starts out empty, with defined sizes

---
 include/psdd/binary_data.h | 4 ++--
 src/binary_data.cpp        | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..e96b003 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -55,7 +55,9 @@ void BinaryData::WriteFile(const char *data_file) {
       for (auto k = 1; k <= variable_size_; k++) {
         cur_line += std::to_string(cur_dat[k]) + ",";
       }
-      cur_line.pop_back();
+      if (!cur_line.empty()) {
+        cur_line.pop_back();
+      }
       data_fd << cur_line << std::endl;
     }
   }
-- 
2.43.0


From 18a67f62ecba0ec5fc115364f127c494ebbc5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 12/24] fix: reading a second data file replaces the records of
 the first

---
 src/binary_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index e96b003..6eddfbc 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
-- 
2.43.0


From 49a565ec10730bed4c4dc1242d92ef6a35dfbd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 13/24] fix: a data file that cannot be opened is reported, not
 taken for empty

---
 src/binary_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 6eddfbc..9a5fe82 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -13,7 +13,7 @@ using nlohmann::json;
 
 void BinaryData::ReadFile(const char *data_file) {
   CsvParser *csvparser = CsvParser_new(data_file, ",", 0);
-  if (csvparser == nullptr) {
+  if (csvparser == nullptr || !std::ifstream(data_file)) {
     std::cerr << "Failed to load csv" << std::endl;
     exit(1);
   }
-- 
2.43.0


From 02ba1128f5de8654300796c8294b883ed0eae351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 14/24] fix: JSON examples with variables below one are skipped
 as invalid

---
 src/binary_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 9a5fe82..0827222 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -132,7 +132,7 @@ BinaryData *BinaryData::ReadSparseDataJsonFile(const char *data_file) {
          positive_variable_it != cur_example.end(); ++positive_variable_it) {
       const auto &cur_variable = *positive_variable_it;
       if (cur_variable.is_number()) {
-        if (cur_variable <= variable_size) {
+        if (cur_variable >= 1 && cur_variable <= variable_size) {
           cur_example_bitset.set(cur_variable);
         } else {
           legal_data = false;
-- 
2.43.0


From f106b50b1eec29d6bf9e4bbea66316cf688ee60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 15/24] fix: a CNF file that cannot be opened is reported, not
 taken for empty

---
 src/cnf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..6c64267 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -4,7 +4,9 @@
 
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <fstream>
+#include <iostream>
 #include <psdd/cnf.h>
 #include <psdd/psdd_unique_table.h>
 #include <queue>
@@ -42,6 +44,10 @@ SddNode *ConstructSddFromCnf(
 } // namespace
 CNF::CNF(const char *filename) {
   std::ifstream cnf_file(filename);
+  if (!cnf_file) {
+    std::cerr << "File " << filename << " cannot be open." << std::endl;
+    exit(1); // terminate with error
+  }
   std::string line;
   while (getline(cnf_file, line)) {
     if (line[0] == 'p') {
-- 
2.43.0


From 01797605bd402ccb2724b7d1efa2ffa1d4729328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 16/24] fix: blank lines of a CNF file are not empty clauses

---
 src/cnf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 6c64267..e5d0a51 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -56,6 +56,10 @@ CNF::CNF(const char *filename) {
     if (line[0] == 'c'){
       continue;
     }
+    if (line.find_first_not_of(" \t\r") == std::string::npos) {
+      // a blank line is not an empty clause
+      continue;
+    }
     std::vector<SddLiteral> clause;
     std::stringstream ss(line);
     SddLiteral token;
-- 
2.43.0


From 19a5dfd1804dad0704071ecb83f3f55342d2986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 17/24] fix: a truncated UAI file ends with an error instead of
 an endless loop

---
 src/uai_network.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index a7b7dd1..2ae4d34 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -5,11 +5,19 @@
 #include "psdd/uai_network.h"
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
 #include <string>
 
+namespace {
+void ReportTruncatedFile(const char* uai_file) {
+  std::cerr << "factor file " << uai_file << " is truncated." << std::endl;
+  exit(1);  // terminate with error
+}
+}  // namespace
+
 UaiNetwork::UaiNetwork() {}
 
 UaiNetwork::UaiNetwork(size_t var_size, size_t factor_size, int network_type,
@@ -54,10 +62,11 @@ void UaiNetwork::read_file(const char* uai_file) {
     m_clusters.push_back(order_list);
   }
   for (int i = 0; i < m_factor_size; i++) {
-    getline(uaifs, string_buf);
-    while (string_buf == "") {
-      getline(uaifs, string_buf);
-    }
+    do {
+      if (!getline(uaifs, string_buf)) {
+        ReportTruncatedFile(uai_file);
+      }
+    } while (string_buf.find_first_not_of(" \t\r") == std::string::npos);
     size_t entry_cnt;
     std::istringstream iss(string_buf);
     iss >> entry_cnt;
@@ -68,7 +77,9 @@ void UaiNetwork::read_file(const char* uai_file) {
       param_list.push_back(PsddParameter::CreateFromDecimal(cur_entry));
     }
     while (param_list.size() < entry_cnt) {
-      getline(uaifs, string_buf);
+      if (!getline(uaifs, string_buf)) {
+        ReportTruncatedFile(uai_file);
+      }
       iss.str(string_buf);
       iss.clear();
       while (iss >> cur_entry) {
-- 
2.43.0


From 7e5c1469a44873044ac1664474a8f5176fee4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 18/24] fix: reading a second UAI file replaces the network of
 the first

---
 src/uai_network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index 2ae4d34..9896345 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -34,6 +34,8 @@ void UaiNetwork::read_file(const char* uai_file) {
   if (!uaifs) {
     std::cerr << "factor file " << uai_file << " cannot be open." << std::endl;
   }
+  m_clusters.clear();
+  m_params.clear();
   std::string string_buf = "";
   getline(uaifs, string_buf);
   std::string network_type = "";
-- 
2.43.0


From 078468cad668b0681df7681d3a8ff039b9f4de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 19/24] fix: long file names overflow fixed-size buffers

---
 src/hypergraph_decomposition_vtree.cpp |  8 +++-----
 uai_compiler.cpp                       | 10 ++++------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/hypergraph_decomposition_vtree.cpp b/src/hypergraph_decomposition_vtree.cpp
index 648b254..7b6353a 100644
--- a/src/hypergraph_decomposition_vtree.cpp
+++ b/src/hypergraph_decomposition_vtree.cpp
@@ -6,6 +6,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <string>
 #include <unordered_map>
 #include <vector>
 
@@ -73,15 +74,12 @@ r-hfc-mbc=true
 
 kahypar_context_t* CreateContext(const char* working_dir) {
   std::ofstream config_file;
-  char fname[500];
-  fname[0] = '\0';
-  strcpy(fname, working_dir);
-  strcat(fname, "/config.ini");
+  std::string fname = std::string(working_dir) + "/config.ini";
   config_file.open(fname);
   config_file << kahypar_config;
   config_file.close();
   kahypar_context_t* context = kahypar_context_new();
-  kahypar_configure_context_from_file(context, fname);
+  kahypar_configure_context_from_file(context, fname.c_str());
   return context;
 }
 
diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index d8f55fa..780bb71 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -64,13 +64,11 @@ int main(int argc, const char* argv[]) {
   auto result = pc.compile_network_dc(100);
 
   // output filename
-  char psdd_fname[1000];
-  char vtree_fname[1000];
-  sprintf(psdd_fname, "%s.psdd", uai_fname);
-  sprintf(vtree_fname, "%s.vtree", uai_fname);
+  std::string psdd_fname = std::string(uai_fname) + ".psdd";
+  std::string vtree_fname = std::string(uai_fname) + ".vtree";
 
-  psdd_node_util::WritePsddToFile(result.first, psdd_fname);
-  sdd_vtree_save(vtree_fname, pc.psdd_manager()->vtree());
+  psdd_node_util::WritePsddToFile(result.first, psdd_fname.c_str());
+  sdd_vtree_save(vtree_fname.c_str(), pc.psdd_manager()->vtree());
   std::cout << "Final size "
             << psdd_node_util::SerializePsddNodes(result.first).size()
             << std::endl;
-- 
2.43.0


From 2ed75bd46648a2d5907df5499df6ff297df86335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 20/24] fix: networks with constant factors or fewer than two
 factors compile to a distribution

---
 src/pgm_compiler.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index e1562f1..ecb1af8 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -39,6 +39,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   std::vector<size_t> factor_scope = m_network->factor_scopes()[factor_index];
   const auto& cluster_param = m_network->params()[factor_index];
   Vtree* vtree = m_pm->vtree();
+  if (factor_scope.empty()) {
+    // A factor without variables is a constant.
+    return {m_pm->GetTrueNode(vtree, /*flag_index*/ 0), cluster_param[0]};
+  }
   // LSB is the first variable in ordered_cluster_variables now
   std::reverse(factor_scope.begin(), factor_scope.end());
   std::vector<Vtree*> leaf_v_nodes;
@@ -201,6 +205,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     Vtree* attached_vnode = nullptr;
+    if (m_network->factor_scopes()[i].empty()) {
+      attached_vnode = m_pm->vtree();
+    }
     for (auto j : m_network->factor_scopes()[i]) {
       if (attached_vnode == nullptr) {
         attached_vnode = var_to_vtree[j];
@@ -220,6 +227,11 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     }
   }
   std::cout << "Finished Loading factors" << std::endl;
+  // The result is normalized by multiplication, which takes two arguments.
+  while (nodes.size() < 2) {
+    nodes.push_back(m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0));
+    psdds_at_vtree[sdd_vtree_position(m_pm->vtree())].push_back(nodes.back());
+  }
   int proc_nodes = 0;
   std::reverse(serialized_vtree.begin(), serialized_vtree.end());
   std::deque<PsddNode*> output_buffer;
@@ -304,6 +316,11 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
     }
   }
   std::cout << "Finished Loading factors" << std::endl;
+  // The result is normalized by multiplication, which takes two arguments.
+  while (nodes.size() < 2) {
+    nodes.push_back(m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0));
+    factor_orders.push_back(serialized_vtree.size());
+  }
   std::vector<size_t> compilation_order;
   for (auto i = 0; i < nodes.size(); ++i) {
     compilation_order.push_back(i);
@@ -365,6 +382,11 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     }
   }
   std::cout << "Finished Loading factors" << std::endl;
+  // The result is normalized by multiplication, which takes two arguments.
+  while (nodes.size() < 2) {
+    nodes.push_back(m_pm->GetTrueNode(m_pm->vtree(), /*flag_index*/ 0));
+    factor_orders.push_back(serialized_vtree.size());
+  }
   std::vector<size_t> compilation_order;
   for (auto i = 0; i < nodes.size(); ++i) {
     compilation_order.push_back(i);
-- 
2.43.0


From 287c16532730cfb2043bbf41853dbc9453489858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 21/24] fix: a network without a possible instantiation
 compiles to false instead of crashing

---
 src/pgm_compiler.cpp | 28 ++++++++++++++++++++++++++++
 uai_compiler.cpp     |  4 ++++
 2 files changed, 32 insertions(+)

diff --git a/src/pgm_compiler.cpp b/src/pgm_compiler.cpp
index ecb1af8..6680c97 100644
--- a/src/pgm_compiler.cpp
+++ b/src/pgm_compiler.cpp
@@ -180,6 +180,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_factor(
   PsddParameter result_norm = context_norm_cache->begin()->second;
   delete context_node_cache;
   delete context_norm_cache;
+  if (result == nullptr) {
+    // nullptr for PsddNode means false
+    return {nullptr, zero_param};
+  }
   return {m_pm->NormalizePsddNode(m_pm->vtree(), result, /*flag_index*/ 0),
           result_norm};
 }
@@ -202,6 +206,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr ||
+        compiled_cluster.second == PsddParameter::CreateFromDecimal(0)) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     Vtree* attached_vnode = nullptr;
@@ -251,6 +259,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
                     << psdd_node_util::SerializePsddNodes(cur_node).size()
                     << std::endl;
           auto mult_result = m_pm->Multiply(total, cur_node, /*flag_index*/ 0);
+          if (mult_result.first == nullptr) {
+            return {nullptr, PsddParameter::CreateFromDecimal(0)};
+          }
           proc_nodes++;
           std::cout << "Processed " << proc_nodes << " Remaining "
                     << nodes.size() - proc_nodes << std::endl;
@@ -275,6 +286,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_with_vtree(
     std::cout << "Processed " << proc_nodes << " Remaining "
               << nodes.size() - proc_nodes << std::endl;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     z *= mult_result.second;
     output_buffer.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
@@ -305,6 +319,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr ||
+        compiled_cluster.second == PsddParameter::CreateFromDecimal(0)) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -344,6 +362,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network(
                 << std::endl;
       auto mult_result =
           m_pm->Multiply(final_result, cur_node, /*flag_index*/ 0);
+      if (mult_result.first == nullptr) {
+        return {nullptr, PsddParameter::CreateFromDecimal(0)};
+      }
       final_result = mult_result.first;
       z *= mult_result.second;
     }
@@ -371,6 +392,10 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
   auto factor_size = m_network->factor_size();
   for (auto i = 0; i < factor_size; i++) {
     auto compiled_cluster = compile_factor(i);
+    if (compiled_cluster.first == nullptr ||
+        compiled_cluster.second == PsddParameter::CreateFromDecimal(0)) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     nodes.push_back(compiled_cluster.first);
     z = z * compiled_cluster.second;
     // set factor order
@@ -425,6 +450,9 @@ std::pair<PsddNode*, PsddParameter> PgmCompiler::compile_network_dc(
     std::cout.width(15);
     std::cout << std::left << nodes.size() - proc_nodes << std::flush;
     auto mult_result = m_pm->Multiply(a, b, /*flag_index*/ 0);
+    if (mult_result.first == nullptr) {
+      return {nullptr, PsddParameter::CreateFromDecimal(0)};
+    }
     z *= mult_result.second;
     nodes_to_mult.push_back(mult_result.first);
     if ((proc_nodes % gc_freq) == 0) {
diff --git a/uai_compiler.cpp b/uai_compiler.cpp
index 780bb71..dfcad84 100644
--- a/uai_compiler.cpp
+++ b/uai_compiler.cpp
@@ -62,6 +62,10 @@ int main(int argc, const char* argv[]) {
     pc.init_psdd_manager_from_vtree(vtree_method);
   }
   auto result = pc.compile_network_dc(100);
+  if (result.first == nullptr) {
+    std::cout << "UNSATISFIED" << std::endl;
+    exit(0);
+  }
 
   // output filename
   std::string psdd_fname = std::string(uai_fname) + ".psdd";
-- 
2.43.0


From 9ab6a898748db88aa136027130677d47b1dd5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 22/24] fix: csvparser.c keeps the CRLF line endings it had

The CSV repair (4c9e346) rewrote them by accident; no other change.
---
 src/csvparser.c | 488 ++++++++++++++++++++++++------------------------
 1 file changed, 244 insertions(+), 244 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 1af189c..b1a0341 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,244 +1,244 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (csvParser->fromString_) {
-        // stay on the terminator, so that the next call ends here as well
-        csvParser->csvStringIter_--;
-      }
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    csvParser->csvStringIter_++;
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_);
+    }
+    if (endOfFileIndicator) {
+      if (csvParser->fromString_) {
+        // stay on the terminator, so that the next call ends here as well
+        csvParser->csvStringIter_--;
+      }
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0


From 471b5ed9831f1962292b28978f930e1890f22257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 23/24] fix: the message about a CSV file that cannot be opened
 has room for its path

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index b1a0341..a37e2a4 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -126,7 +126,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       if (csvParser->fileHandler_ == NULL) {
         int errorNum = errno;
         const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
+        char *errMsg = (char *) malloc(1024 + strlen(csvParser->filePath_) + strlen(errStr));
         strcpy(errMsg, "");
         sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
         _CsvParser_setErrorMessage(csvParser, errMsg);
-- 
2.43.0


From 6991e355d701136e2da2099f1f5d2e8f8924f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 24/24] fix: multiplication skips what an argument makes
 impossible instead of aborting

---
 src/psdd_manager.cpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 1783090..7c1aeb0 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -122,12 +122,17 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
         if (cur_sub_result.first == nullptr) {
           continue;
         }
-        next_primes.push_back(cur_prime_result.first);
-        next_subs.push_back(cur_sub_result.first);
         PsddParameter cur_second_param = second_parameters[j];
-        next_parameters.push_back(cur_second_param * cur_first_param *
+        PsddParameter cur_param = cur_second_param * cur_first_param *
                                   cur_prime_result.second *
-                                  cur_sub_result.second);
+                                  cur_sub_result.second;
+        if (cur_param == PsddParameter::CreateFromDecimal(0)) {
+          // impossible under one of the arguments
+          continue;
+        }
+        next_primes.push_back(cur_prime_result.first);
+        next_subs.push_back(cur_sub_result.first);
+        next_parameters.push_back(cur_param);
         partition = partition + next_parameters.back();
       }
     }
@@ -218,13 +223,20 @@ std::pair<PsddNode *, PsddParameter> MultiplyWithCache(
       PsddParameter neg_weight = first_top_node->false_parameter() *
                                  second_top_node->false_parameter();
       PsddParameter partition = pos_weight + neg_weight;
-      PsddNode *new_node = manager->GetPsddTopNode(
-          first_top_node->variable_index(), flag_index, pos_weight / partition,
-          neg_weight / partition);
-      assert(new_node->psdd_top_node()->true_parameter() !=
-             PsddParameter::CreateFromDecimal(0));
-      assert(new_node->psdd_top_node()->false_parameter() !=
-             PsddParameter::CreateFromDecimal(0));
+      PsddNode *new_node = nullptr;
+      if (pos_weight != PsddParameter::CreateFromDecimal(0) &&
+          neg_weight != PsddParameter::CreateFromDecimal(0)) {
+        new_node = manager->GetPsddTopNode(first_top_node->variable_index(),
+                                           flag_index, pos_weight / partition,
+                                           neg_weight / partition);
+      } else if (partition != PsddParameter::CreateFromDecimal(0)) {
+        // one of the values is impossible
+        auto variable = static_cast<int32_t>(first_top_node->variable_index());
+        new_node = manager->GetPsddLiteralNode(
+            pos_weight != PsddParameter::CreateFromDecimal(0) ? variable
+                                                              : -variable,
+            flag_index);
+      }
       std::pair<PsddNode *, Probability> comp_result = {new_node, partition};
       cache->Update(first, second, comp_result);
       return comp_result;
@@ -585,7 +597,11 @@ std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
     return {nullptr, PsddParameter::CreateFromDecimal(0)};
   }
   ComputationCache cache((uint32_t)leaf_vtree_map_.size());
-  return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
+  auto result = MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
+  if (result.second == PsddParameter::CreateFromDecimal(0)) {
+    return {nullptr, PsddParameter::CreateFromDecimal(0)};
+  }
+  return result;
 }
 
 PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
-- 
2.43.0

