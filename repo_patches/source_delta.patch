From e7f702ba2da7b82c664918ee5d20b1bc85b931eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:08 +0000
Subject: [PATCH] fix: destroy distances through base pointers (virtual
 destructor)

Deleting a StandardDistance, TranspositionDistance or MergeAndSplitDistance
through a Distance pointer was undefined behaviour and leaked its memo table.
---
 src/liblevenshtein/distance/distance.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/liblevenshtein/distance/distance.h b/src/liblevenshtein/distance/distance.h
index 85d667f..7fad508 100644
--- a/src/liblevenshtein/distance/distance.h
+++ b/src/liblevenshtein/distance/distance.h
@@ -21,6 +21,11 @@ namespace liblevenshtein::distance {
 class Distance {
 public:
 
+  /**
+   * Distances may be owned and destroyed through pointers to this base class.
+   */
+  virtual ~Distance() = default;
+
   /**
    * Measures the edit distance between two terms.
    *
-- 
2.43.0

