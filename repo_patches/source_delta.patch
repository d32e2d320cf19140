From 906240e692c0ddf30ad9e9b621cd730528849628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 1/2] fix: memo_from of an archive stack with nothing pushed
 since its last archive

The conversion started with an empty leaf, which the folds and the cursor do not expect.
---
 src/raz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raz.rs b/src/raz.rs
index 5fc57d3..8a0f998 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -761,6 +761,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut tailstack = tailstack.0.clone();
+		// when nothing was pushed since the last archive, start at the data archived there
+		if tailstack.active_len() == 0 { tailstack.next_archive(); }
 		let name = tailstack.name();
 		let (level, first_tree) = match tailstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
@@ -837,6 +839,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut headstack = headstack.0.clone();
+		// when nothing was pushed since the last archive, start at the data archived there
+		if headstack.active_len() == 0 { headstack.next_archive(); }
 		let name = headstack.name();
 		let (level, first_tree) = match headstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
-- 
2.43.0


From ddee22887a919fd75ce445a8781a8235e8a7ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:27 +0000
Subject: [PATCH 2/2] fix: good_levels rejects trees the cursor builds, accepts
 ones it does not

The check had the sides of the tie convention swapped: join and memo_from put
nodes of equal level to the right.
---
 src/level_tree.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/level_tree.rs b/src/level_tree.rs
index f4547f5..7a8dad2 100644
--- a/src/level_tree.rs
+++ b/src/level_tree.rs
@@ -212,21 +212,21 @@ Tree<E> {
 /// ```
 ///
 /// checks that the levels of the tree follow the convention
-/// of non-increasing to the left branch and decreasing to the
-/// right branch
+/// of decreasing to the left branch and non-increasing to the
+/// right branch, as kept by `tree_cursor` and `raz`
 ///
 /// also prints the levels of the failing trees and branches
 pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
 	let mut good = true;
 	if let Some(ref t) = force(&tree.link).l_branch {
-		if t.level > tree.level {
+		if t.level >= tree.level {
 			println!("Tree with level {:?} has left branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
 		if !good_levels(t) { good = false }
 	}
 	if let Some(ref t) = force(&tree.link).r_branch {
-		if t.level >= tree.level {
+		if t.level > tree.level {
 			println!("Tree with level {:?} has right branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
-- 
2.43.0

