From ede8892cd4a3e73653d8a0a0f18650afac58bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 01/42] fix: match unit prefixes literally when removing
 entries by prefix

SQL LIKE ignores ASCII case and treats % and _ in the prefix as wildcards, so units that do
not start with the given prefix lost their entries too.
---
 src/blacklist.rs        | 7 ++++---
 src/practice_deltas.rs  | 7 ++++---
 src/practice_rewards.rs | 4 ++--
 src/practice_stats.rs   | 7 ++++---
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index e93ab9b..1f9cb6c 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -134,9 +134,10 @@ impl LocalBlacklist {
     fn remove_prefix_from_blacklist_helper(&mut self, prefix: &str) -> Result<()> {
         // Search for all the entries with the given prefix.
         let connection = self.connection.lock();
-        let mut stmt =
-            connection.prepare_cached("SELECT unit_id from blacklist WHERE unit_id LIKE $1;")?;
-        let mut rows = stmt.query(params![format!("{}%", prefix)])?;
+        let mut stmt = connection.prepare_cached(
+            "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
+        let mut rows = stmt.query(params![prefix])?;
 
         // Remove all the entries with the given prefix.
         let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index aa62749..8b85086 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -162,10 +162,11 @@ impl LocalPracticeDeltas {
     /// Helper function to remove all the deltas from units that match the given prefix.
     fn remove_deltas_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 4a028c0..3c94deb 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -252,8 +252,8 @@ impl LocalPracticeRewards {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
         for row in connection
-            .prepare("SELECT unit_uid FROM uids WHERE unit_id LIKE ?1")?
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .prepare("SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1")?
+            .query_map(params![prefix], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
             connection.execute(
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index a05194e..def10f7 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -185,10 +185,11 @@ impl LocalPracticeStats {
     fn remove_scores_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
         let connection = self.connection.lock();
-        let mut uid_stmt =
-            connection.prepare_cached("SELECT unit_uid FROM uids WHERE unit_id LIKE $1;")?;
+        let mut uid_stmt = connection.prepare_cached(
+            "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
+        )?;
         let uids = uid_stmt
-            .query_map(params![format!("{}%", prefix)], |row| row.get(0))?
+            .query_map(params![prefix], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
-- 
2.43.0


From da57fe57f5090af2877700ccc5f2574b1df6758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 02/42] fix: trim scores and deltas to the requested number
 when timestamps repeat

The rows to keep were selected by timestamp, so every row sharing a kept timestamp survived.
---
 src/practice_deltas.rs | 6 +++---
 src/practice_stats.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index 8b85086..d7a0c99 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -148,9 +148,9 @@ impl LocalPracticeDeltas {
 
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_deltas WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_deltas WHERE unit_uid = $1
-                    ORDER BY timestamp DESC LIMIT ?2);",
+                "DELETE FROM practice_deltas WHERE id IN (
+                    SELECT id FROM practice_deltas WHERE unit_uid = $1
+                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_deltas])?;
         }
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index def10f7..581c018 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -169,9 +169,9 @@ impl LocalPracticeStats {
         // Delete the oldest trials for each UID but keep the most recent `num_scores` trials.
         for uid in uids {
             let mut stmt = connection.prepare_cached(
-                "DELETE FROM practice_stats WHERE unit_uid = $1 AND timestamp NOT IN (
-                    SELECT timestamp FROM practice_stats WHERE unit_uid = $1
-                    ORDER BY timestamp DESC LIMIT ?2);",
+                "DELETE FROM practice_stats WHERE id IN (
+                    SELECT id FROM practice_stats WHERE unit_uid = $1
+                    ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_scores])?;
         }
-- 
2.43.0


From d4bbb84ebb33e09d84dc1bb0babe25624e0b1ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 03/42] fix: do not overflow when comparing the timestamps of
 two rewards

---
 src/practice_rewards.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 3c94deb..60cfe8d 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -48,7 +48,7 @@ pub trait PracticeRewards {
 }
 
 /// Number of seconds in a day.
-const SECONDS_IN_DAY: i64 = 86_400;
+const SECONDS_IN_DAY: u64 = 86_400;
 
 /// The maximum difference in weights between two rewards to consider them similar.
 const WEIGHT_EPSILON: f32 = 0.1;
@@ -74,7 +74,7 @@ impl RewardCache {
             .and_then(|rewards| {
                 rewards.iter().find(|r| {
                     r.value == reward.value
-                        && (r.timestamp - reward.timestamp).abs() < SECONDS_IN_DAY
+                        && r.timestamp.abs_diff(reward.timestamp) < SECONDS_IN_DAY
                         && (r.weight - reward.weight).abs() < WEIGHT_EPSILON
                 })
             })
-- 
2.43.0


From 2239dd57986cecbdfc079def16eef0e2cd2c4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:37 +0000
Subject: [PATCH 04/42] fix: forget cached rewards that are not in storage

Rewards deleted by prefix or by trimming, and rewards of a transaction that failed, stayed in
the cache of recent rewards and caused later rewards to be dropped as duplicates.
---
 src/practice_rewards.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index 60cfe8d..ef33399 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -90,6 +90,12 @@ impl RewardCache {
         }
         rewards.push_back(reward);
     }
+
+    /// Forgets the rewards of the matching units. Rewards that are no longer in storage must not
+    /// cause new rewards to be skipped.
+    fn remove_units(&mut self, matches: impl Fn(&Ustr) -> bool) {
+        self.cache.retain(|id, _| !matches(id));
+    }
 }
 
 /// An implementation of [`PracticeRewards`] backed by `SQLite`.
@@ -282,16 +288,23 @@ impl PracticeRewards for LocalPracticeRewards {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.record_unit_rewards_helper(rewards)
-            .map_err(PracticeRewardsError::RecordRewards)
+        let result = self.record_unit_rewards_helper(rewards);
+        if result.is_err() {
+            // The transaction was rolled back, so none of these rewards were stored.
+            self.cache
+                .remove_units(|id| rewards.iter().any(|r| r.unit_id == *id));
+        }
+        result.map_err(PracticeRewardsError::RecordRewards)
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
+        self.cache.remove_units(|_| true);
         self.trim_rewards_helper(num_rewards)
             .map_err(PracticeRewardsError::TrimReward)
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
+        self.cache.remove_units(|id| id.starts_with(prefix));
         self.remove_rewards_with_prefix_helper(prefix)
             .map_err(|e| PracticeRewardsError::RemovePrefix(prefix.to_string(), e))
     }
-- 
2.43.0


From d3681b35c8a18a5914b154ab9a702f3796dea3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:59 +0000
Subject: [PATCH 05/42] fix: make the score caches safe to use from multiple
 threads

Trane is declared Send and Sync but the caches were RefCells, so concurrent calls on a shared
instance raced on the maps or panicked.
---
 src/scheduler/unit_scorer.rs | 44 +++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 329fb57..9d618a5 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -7,7 +7,7 @@
 
 use anyhow::{Result, anyhow};
 use chrono::Utc;
-use std::cell::RefCell;
+use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -34,23 +34,45 @@ pub(super) struct CachedScore {
     num_trials: usize,
 }
 
+/// A map of unit IDs to cached values that can be shared by multiple threads. Guards must not be held
+/// while calling a function that uses the same cache.
+struct ScoreCache<T>(RwLock<UstrMap<T>>);
+
+impl<T> Default for ScoreCache<T> {
+    fn default() -> Self {
+        Self(RwLock::new(UstrMap::default()))
+    }
+}
+
+impl<T> ScoreCache<T> {
+    /// Returns a guard with shared access to the cached values.
+    fn borrow(&self) -> RwLockReadGuard<'_, UstrMap<T>> {
+        self.0.read()
+    }
+
+    /// Returns a guard with exclusive access to the cached values.
+    fn borrow_mut(&self) -> RwLockWriteGuard<'_, UstrMap<T>> {
+        self.0.write()
+    }
+}
+
 /// Contains the logic to score units based on their previous scores and rewards, as well as the
 /// logic to cache those scores for efficiency.
 pub(super) struct UnitScorer {
     /// A mapping of exercise ID to cached score.
-    exercise_cache: RefCell<UstrMap<CachedScore>>,
+    exercise_cache: ScoreCache<CachedScore>,
 
     /// A mapping of lesson ID to cached score.
-    lesson_cache: RefCell<UstrMap<Option<f32>>>,
+    lesson_cache: ScoreCache<Option<f32>>,
 
     /// A mapping of course ID to cached score.
-    course_cache: RefCell<UstrMap<Option<f32>>>,
+    course_cache: ScoreCache<Option<f32>>,
 
     /// A mapping of lesson ID to cached average number of trials.
-    lesson_trials_cache: RefCell<UstrMap<Option<f32>>>,
+    lesson_trials_cache: ScoreCache<Option<f32>>,
 
     /// A mapping of course ID to cached average number of trials.
-    course_trials_cache: RefCell<UstrMap<Option<f32>>>,
+    course_trials_cache: ScoreCache<Option<f32>>,
 
     /// The data used by the scheduler.
     data: SchedulerData,
@@ -72,11 +94,11 @@ impl UnitScorer {
     /// Constructs a new score cache.
     pub(super) fn new(data: SchedulerData, options: SchedulerOptions) -> Self {
         Self {
-            exercise_cache: RefCell::new(UstrMap::default()),
-            lesson_cache: RefCell::new(UstrMap::default()),
-            course_cache: RefCell::new(UstrMap::default()),
-            lesson_trials_cache: RefCell::new(UstrMap::default()),
-            course_trials_cache: RefCell::new(UstrMap::default()),
+            exercise_cache: ScoreCache::default(),
+            lesson_cache: ScoreCache::default(),
+            course_cache: ScoreCache::default(),
+            lesson_trials_cache: ScoreCache::default(),
+            course_trials_cache: ScoreCache::default(),
             data,
             options,
             exercise_scorer: Box::new(PowerLawScorer {}),
-- 
2.43.0


From a9dc84768d6004c5f93c92481eaf4ae72716c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:00 +0000
Subject: [PATCH 06/42] fix: do not lock the frequency map recursively in the
 review list search

The outer read lock was still held when the course and lesson searches locked the map again,
which deadlocks if another thread waits to write to it in between.
---
 src/scheduler.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 0890e73..1b137dd 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -923,7 +923,6 @@ impl DepthFirstScheduler {
         // Retrieve candidates from each entry in the review list.
         let mut candidates = vec![];
         let review_list = self.data.review_list.read().get_review_list_entries()?;
-        let frequency_map = self.data.frequency_map.read();
         for unit_id in review_list {
             match self.data.get_unit_type_strict(unit_id)? {
                 UnitType::Course => {
@@ -952,7 +951,13 @@ impl DepthFirstScheduler {
                             .unwrap_or_default(),
                         urgency: self.unit_scorer.get_exercise_urgency(unit_id)?,
                         velocity: self.unit_scorer.get_exercise_velocity(unit_id)?,
-                        frequency: *frequency_map.get(&unit_id).unwrap_or(&0),
+                        frequency: self
+                            .data
+                            .frequency_map
+                            .read()
+                            .get(&unit_id)
+                            .copied()
+                            .unwrap_or(0),
                         dead_end: false,
                         encompasses_weight: 0.0,
                         encompassed_weight: 0.0,
-- 
2.43.0


From 718e5b17b5316ab50c9432ff82fbbeab9cfd003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 07/42] fix: do not cache scores computed from outdated data

A thread that read the trials of an exercise before another thread recorded a new trial could
store its outdated score after the other thread had already invalidated the cache, and the
outdated score was then used until the next invalidation.
---
 src/scheduler/unit_scorer.rs | 148 +++++++++++++++--------------------
 1 file changed, 63 insertions(+), 85 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 9d618a5..81f1ecf 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -8,6 +8,7 @@
 use anyhow::{Result, anyhow};
 use chrono::Utc;
 use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::atomic::{AtomicU64, Ordering};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -74,6 +75,11 @@ pub(super) struct UnitScorer {
     /// A mapping of course ID to cached average number of trials.
     course_trials_cache: ScoreCache<Option<f32>>,
 
+    /// The number of times that cached values have been invalidated. A value is only cached if there
+    /// were no invalidations since the start of its computation. Otherwise, a value computed from
+    /// outdated data by one thread could be cached after another thread invalidated it.
+    generation: AtomicU64,
+
     /// The data used by the scheduler.
     data: SchedulerData,
 
@@ -99,6 +105,7 @@ impl UnitScorer {
             course_cache: ScoreCache::default(),
             lesson_trials_cache: ScoreCache::default(),
             course_trials_cache: ScoreCache::default(),
+            generation: AtomicU64::new(0),
             data,
             options,
             exercise_scorer: Box::new(PowerLawScorer {}),
@@ -118,9 +125,25 @@ impl UnitScorer {
             .unwrap_or_else(|| Utc::now().timestamp())
     }
 
+    /// Returns the current generation of the cached values.
+    fn generation(&self) -> u64 {
+        self.generation.load(Ordering::SeqCst)
+    }
+
+    /// Caches the given value unless there was an invalidation since the given generation.
+    fn insert_cached<T>(&self, cache: &ScoreCache<T>, unit_id: Ustr, value: T, generation: u64) {
+        let mut cache = cache.borrow_mut();
+        if self.generation() == generation {
+            cache.insert(unit_id, value);
+        }
+    }
+
     /// Removes the cached score for the given unit and all units affected by an update to its
     /// score.
     pub(super) fn invalidate_cached_score(&self, unit_id: Ustr) {
+        // Prevent values that are being computed from being cached.
+        self.generation.fetch_add(1, Ordering::SeqCst);
+
         // Remove the unit itself from all caches.
         self.exercise_cache.borrow_mut().remove(&unit_id);
         self.lesson_cache.borrow_mut().remove(&unit_id);
@@ -178,6 +201,9 @@ impl UnitScorer {
 
     /// Removes the cached score for any unit with the given prefix.
     pub(super) fn invalidate_cached_scores_with_prefix(&self, prefix: &str) {
+        // Prevent values that are being computed from being cached.
+        self.generation.fetch_add(1, Ordering::SeqCst);
+
         // Remove the unit from the exercise, lesson, and course caches. This is safe to do even
         // though the unit is at most in one cache because the caches are disjoint.
         self.exercise_cache
@@ -197,14 +223,11 @@ impl UnitScorer {
             .retain(|unit_id, _| !unit_id.starts_with(prefix));
     }
 
-    /// Returns the score for the given exercise.
-    fn get_exercise_score(&self, exercise_id: Ustr) -> Result<f32> {
+    /// Returns the score for the given exercise, along with the other values computed with it.
+    fn get_exercise_cached_score(&self, exercise_id: Ustr) -> Result<CachedScore> {
         // Return the cached score if it exists.
-        let cached_score = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|c| c.score);
+        let generation = self.generation();
+        let cached_score = self.exercise_cache.borrow().get(&exercise_id).cloned();
         if let Some(score) = cached_score {
             return Ok(score);
         }
@@ -256,87 +279,42 @@ impl UnitScorer {
         } else {
             score.value
         };
-        self.exercise_cache.borrow_mut().insert(
+        let cached_score = CachedScore {
+            score: final_score,
+            urgency: score.urgency,
+            velocity: score.velocity,
+            num_trials: scores.len(),
+        };
+        self.insert_cached(
+            &self.exercise_cache,
             exercise_id,
-            CachedScore {
-                score: final_score,
-                urgency: score.urgency,
-                velocity: score.velocity,
-                num_trials: scores.len(),
-            },
+            cached_score.clone(),
+            generation,
         );
-        Ok(final_score)
+        Ok(cached_score)
+    }
+
+    /// Returns the score for the given exercise.
+    fn get_exercise_score(&self, exercise_id: Ustr) -> Result<f32> {
+        Ok(self.get_exercise_cached_score(exercise_id)?.score)
     }
 
     /// Returns the urgency of scheduling the given exercise, as a value between 0.0 and 1.0.
     pub(super) fn get_exercise_urgency(&self, exercise_id: Ustr) -> Result<f32> {
-        // Return the cached value if it exists.
-        let cached_urgency = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|c| c.urgency);
-        if let Some(urgency) = cached_urgency {
-            return Ok(urgency);
-        }
-
-        // Compute the exercise's score, which populates the cache. Then, retrieve the urgency from
-        // the cache.
-        self.get_exercise_score(exercise_id)?;
-        let cached_urgency = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|s| s.urgency)
-            .unwrap_or_default();
-        Ok(cached_urgency)
+        Ok(self.get_exercise_cached_score(exercise_id)?.urgency)
     }
 
     /// Returns the velocity of learning for the given exercise.
     pub(super) fn get_exercise_velocity(&self, exercise_id: Ustr) -> Result<Option<f32>> {
-        // Return the cached value if it exists.
-        let cached_velocity = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .and_then(|c| c.velocity);
-        if let Some(velocity) = cached_velocity {
-            return Ok(Some(velocity));
-        }
-
-        // Compute the exercise's score, which populates the cache. Then, retrieve the velocity of
-        // learning from the cache.
-        self.get_exercise_score(exercise_id)?;
-        let cached_velocity = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .and_then(|s| s.velocity);
-        Ok(cached_velocity)
+        Ok(self.get_exercise_cached_score(exercise_id)?.velocity)
     }
 
     /// Returns the number of trials that were considered when computing the score for the given
     /// exercise.
     pub(super) fn get_exercise_num_trials(&self, exercise_id: Ustr) -> Result<Option<usize>> {
-        // Return the cached value if it exists.
-        let cached_num_trials = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|c| c.num_trials);
-        if let Some(num_trials) = cached_num_trials {
-            return Ok(Some(num_trials));
-        }
-
-        // Compute the exercise's score, which populates the cache. Then, retrieve the number of
-        // trials from the cache.
-        self.get_exercise_score(exercise_id)?;
-        let cached_num_trials = self
-            .exercise_cache
-            .borrow()
-            .get(&exercise_id)
-            .map(|s| s.num_trials);
-        Ok(cached_num_trials)
+        Ok(Some(
+            self.get_exercise_cached_score(exercise_id)?.num_trials,
+        ))
     }
 
     /// Returns whether all the exercises in the unit have valid scores.
@@ -412,6 +390,7 @@ impl UnitScorer {
     /// Returns the average score of all the exercises in the given lesson.
     fn get_lesson_score(&self, lesson_id: Ustr) -> Result<Option<f32>> {
         // Return the cached score if it exists.
+        let generation = self.generation();
         let cached_score = self.lesson_cache.borrow().get(&lesson_id).copied();
         if let Some(score) = cached_score {
             return Ok(score);
@@ -421,7 +400,7 @@ impl UnitScorer {
         let blacklist = self.data.blacklist.read();
         let blacklisted = blacklist.blacklisted(lesson_id);
         if blacklisted.unwrap_or(false) {
-            self.lesson_cache.borrow_mut().insert(lesson_id, None);
+            self.insert_cached(&self.lesson_cache, lesson_id, None, generation);
             return Ok(None);
         }
 
@@ -430,7 +409,7 @@ impl UnitScorer {
         if let Some(superseding_ids) = superseding_ids
             && self.is_superseded(lesson_id, &superseding_ids)
         {
-            self.lesson_cache.borrow_mut().insert(lesson_id, None);
+            self.insert_cached(&self.lesson_cache, lesson_id, None, generation);
             return Ok(None);
         }
 
@@ -469,7 +448,7 @@ impl UnitScorer {
 
         // Update the cache with a valid score.
         if let Ok(score) = score {
-            self.lesson_cache.borrow_mut().insert(lesson_id, score);
+            self.insert_cached(&self.lesson_cache, lesson_id, score, generation);
         }
         score
     }
@@ -477,6 +456,7 @@ impl UnitScorer {
     /// Returns the average score of all the lesson scores in the given course.
     fn get_course_score(&self, course_id: Ustr) -> Result<Option<f32>> {
         // Return the cached score if it exists.
+        let generation = self.generation();
         let cached_score = self.course_cache.borrow().get(&course_id).copied();
         if let Some(score) = cached_score {
             return Ok(score);
@@ -485,7 +465,7 @@ impl UnitScorer {
         // Check if the unit is blacklisted. A blacklisted course has no valid score.
         let blacklisted = self.data.blacklist.read().blacklisted(course_id);
         if blacklisted.unwrap_or(false) {
-            self.course_cache.borrow_mut().insert(course_id, None);
+            self.insert_cached(&self.course_cache, course_id, None, generation);
             return Ok(None);
         }
 
@@ -494,7 +474,7 @@ impl UnitScorer {
         if let Some(superseding_ids) = superseding_ids
             && self.is_superseded(course_id, &superseding_ids)
         {
-            self.course_cache.borrow_mut().insert(course_id, None);
+            self.insert_cached(&self.course_cache, course_id, None, generation);
             return Ok(None);
         }
 
@@ -538,7 +518,7 @@ impl UnitScorer {
 
         // Update the cache with a valid score.
         if let Ok(score) = score {
-            self.course_cache.borrow_mut().insert(course_id, score);
+            self.insert_cached(&self.course_cache, course_id, score, generation);
         }
         score
     }
@@ -564,6 +544,7 @@ impl UnitScorer {
     /// Returns the average number of trials across all the exercises in the given lesson.
     pub(super) fn get_lesson_num_trials(&self, lesson_id: Ustr) -> Option<f32> {
         // Return the cached value if it exists.
+        let generation = self.generation();
         if let Some(cached) = self.lesson_trials_cache.borrow().get(&lesson_id) {
             return *cached;
         }
@@ -595,15 +576,14 @@ impl UnitScorer {
             Some(total_num_trials as f32 / valid_exercise_trials.len() as f32)
         };
 
-        self.lesson_trials_cache
-            .borrow_mut()
-            .insert(lesson_id, result);
+        self.insert_cached(&self.lesson_trials_cache, lesson_id, result, generation);
         result
     }
 
     /// Returns the average number of trials across all the lessons in the given course.
     pub(super) fn get_course_num_trials(&self, course_id: Ustr) -> Option<f32> {
         // Return the cached value if it exists.
+        let generation = self.generation();
         if let Some(cached) = self.course_trials_cache.borrow().get(&course_id) {
             return *cached;
         }
@@ -642,9 +622,7 @@ impl UnitScorer {
             Some(total_num_trials / valid_lesson_trials.len() as f32)
         };
 
-        self.course_trials_cache
-            .borrow_mut()
-            .insert(course_id, result);
+        self.insert_cached(&self.course_trials_cache, course_id, result, generation);
         result
     }
 
-- 
2.43.0


From e5fd94f37f57f393849d584ea3bc24c59be4917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:21 +0000
Subject: [PATCH 08/42] fix: invalidate the scores of units superseded by an
 updated unit

Whether a unit is superseded, and thus its score and that of its course, depends on the scores
of the superseding units. The cached values were kept when only the latter changed.
---
 src/scheduler/unit_scorer.rs | 85 +++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 81f1ecf..e0f3789 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -144,58 +144,53 @@ impl UnitScorer {
         // Prevent values that are being computed from being cached.
         self.generation.fetch_add(1, Ordering::SeqCst);
 
-        // Remove the unit itself from all caches.
-        self.exercise_cache.borrow_mut().remove(&unit_id);
-        self.lesson_cache.borrow_mut().remove(&unit_id);
-        self.course_cache.borrow_mut().remove(&unit_id);
-        self.lesson_trials_cache.borrow_mut().remove(&unit_id);
-        self.course_trials_cache.borrow_mut().remove(&unit_id);
-
-        // Invalidate the caches depending on the type of the unit.
+        // The scores of all exercises inside the unit depend on its rewards, so they are affected by
+        // the update as well.
         let graph = self.data.unit_graph.read();
-        let mut exercise_cache = self.exercise_cache.borrow_mut();
+        let mut affected = vec![unit_id];
         match graph.get_unit_type(unit_id) {
-            // If the unit is an exercise, invalidate the cached score of its lesson and course. If
-            // the unit is a lesson, invalidate the cached score of its course.
-            Some(UnitType::Exercise) => {
-                if let Some(lesson_id) = graph.get_exercise_lesson(unit_id) {
-                    self.lesson_cache.borrow_mut().remove(&lesson_id);
-                    self.lesson_trials_cache.borrow_mut().remove(&lesson_id);
-                    if let Some(course_id) = graph.get_lesson_course(lesson_id) {
-                        self.course_cache.borrow_mut().remove(&course_id);
-                        self.course_trials_cache.borrow_mut().remove(&course_id);
-                    }
-                }
-            }
-            // For lessons, invalidate the scores of all exercises in the lesson.
             Some(UnitType::Lesson) => {
-                if let Some(course_id) = graph.get_lesson_course(unit_id) {
-                    self.course_cache.borrow_mut().remove(&course_id);
-                    self.course_trials_cache.borrow_mut().remove(&course_id);
-                }
-                if let Some(exercise_ids) = graph.get_lesson_exercises(unit_id) {
-                    for exercise_id in exercise_ids.iter() {
-                        exercise_cache.remove(exercise_id);
-                    }
-                }
+                affected.extend(
+                    graph
+                        .get_lesson_exercises(unit_id)
+                        .unwrap_or_default()
+                        .iter(),
+                );
             }
-            // For courses, invalidate the scores of all lessons and exercises in the course.
             Some(UnitType::Course) => {
-                if let Some(lesson_ids) = graph.get_course_lessons(unit_id) {
-                    let mut lesson_cache = self.lesson_cache.borrow_mut();
-                    let mut lesson_trials_cache = self.lesson_trials_cache.borrow_mut();
-                    for lesson_id in lesson_ids.iter() {
-                        lesson_cache.remove(lesson_id);
-                        lesson_trials_cache.remove(lesson_id);
-                        if let Some(exercise_ids) = graph.get_lesson_exercises(*lesson_id) {
-                            for exercise_id in exercise_ids.iter() {
-                                exercise_cache.remove(exercise_id);
-                            }
-                        }
-                    }
+                for lesson_id in graph
+                    .get_course_lessons(unit_id)
+                    .unwrap_or_default()
+                    .iter()
+                    .copied()
+                {
+                    affected.push(lesson_id);
+                    affected.extend(
+                        graph
+                            .get_lesson_exercises(lesson_id)
+                            .unwrap_or_default()
+                            .iter(),
+                    );
                 }
             }
-            None => {}
+            Some(UnitType::Exercise) | None => {}
+        }
+
+        // Invalidate the affected units along with the lessons and courses that contain them and
+        // the units that they supersede, whose scores depend on whether they are superseded.
+        let mut visited = UstrSet::default();
+        while let Some(id) = affected.pop() {
+            if !visited.insert(id) {
+                continue;
+            }
+            self.exercise_cache.borrow_mut().remove(&id);
+            self.lesson_cache.borrow_mut().remove(&id);
+            self.course_cache.borrow_mut().remove(&id);
+            self.lesson_trials_cache.borrow_mut().remove(&id);
+            self.course_trials_cache.borrow_mut().remove(&id);
+            affected.extend(graph.get_exercise_lesson(id));
+            affected.extend(graph.get_lesson_course(id));
+            affected.extend(graph.get_supersedes(id).unwrap_or_default().iter());
         }
     }
 
-- 
2.43.0


From 28829fae2e5c8e298c71f7ad82240da94f8856c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:23 +0000
Subject: [PATCH 09/42] fix: invalidate the scores of units affected by
 removing a prefix from the blacklist

The lessons and courses containing the removed units do not necessarily share the prefix, and
kept the score they had without those units.
---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4a02d77..695b978 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -381,7 +381,13 @@ impl Blacklist for Trane {
     }
 
     fn remove_prefix_from_blacklist(&mut self, prefix: &str) -> Result<(), BlacklistError> {
-        // Make sure to invalidate any cached scores of units with the given prefix.
+        // Make sure to invalidate any cached scores of units with the given prefix, as well as those
+        // of the units affected by their removal.
+        for unit_id in self.get_blacklist_entries()? {
+            if unit_id.starts_with(prefix) {
+                self.scheduler.invalidate_cached_score(unit_id);
+            }
+        }
         self.scheduler.invalidate_cached_scores_with_prefix(prefix);
         self.blacklist.write().remove_prefix_from_blacklist(prefix)
     }
-- 
2.43.0


From 6f7ce87144c2acd1ab1bde6d17307989dd1c4d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:25 +0000
Subject: [PATCH 10/42] fix: invalidate cached scores when the practice data is
 edited directly

Recording, trimming, or removing trials, deltas, and rewards through a Trane instance left the
scores cached by its scheduler unchanged.
---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 695b978..28de9a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -514,14 +514,20 @@ impl PracticeRewards for Trane {
         &mut self,
         rewards: &[UnitReward],
     ) -> Result<Vec<Ustr>, PracticeRewardsError> {
-        self.practice_rewards.write().record_unit_rewards(rewards)
+        let updated_ids = self.practice_rewards.write().record_unit_rewards(rewards)?;
+        for unit_id in &updated_ids {
+            self.scheduler.invalidate_cached_score(*unit_id);
+        }
+        Ok(updated_ids)
     }
 
     fn trim_rewards(&mut self, num_rewards: u32) -> Result<(), PracticeRewardsError> {
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_rewards.write().trim_rewards(num_rewards)
     }
 
     fn remove_rewards_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeRewardsError> {
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_rewards
             .write()
             .remove_rewards_with_prefix(prefix)
@@ -544,14 +550,19 @@ impl PracticeDeltas for Trane {
         &mut self,
         deltas: &[ExerciseDelta],
     ) -> Result<(), PracticeDeltasError> {
+        for delta in deltas {
+            self.scheduler.invalidate_cached_score(delta.exercise_id);
+        }
         self.practice_deltas.write().record_exercise_deltas(deltas)
     }
 
     fn trim_deltas(&mut self, num_deltas: u32) -> Result<(), PracticeDeltasError> {
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_deltas.write().trim_deltas(num_deltas)
     }
 
     fn remove_deltas_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeDeltasError> {
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_deltas
             .write()
             .remove_deltas_with_prefix(prefix)
@@ -574,14 +585,19 @@ impl PracticeStats for Trane {
         &mut self,
         trials: &[ExerciseTrial],
     ) -> Result<(), PracticeStatsError> {
+        for trial in trials {
+            self.scheduler.invalidate_cached_score(trial.exercise_id);
+        }
         self.practice_stats.write().record_exercise_scores(trials)
     }
 
     fn trim_scores(&mut self, num_scores: u32) -> Result<(), PracticeStatsError> {
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_stats.write().trim_scores(num_scores)
     }
 
     fn remove_scores_with_prefix(&mut self, prefix: &str) -> Result<(), PracticeStatsError> {
+        self.scheduler.invalidate_cached_scores_with_prefix("");
         self.practice_stats
             .write()
             .remove_scores_with_prefix(prefix)
-- 
2.43.0


From 08d372f72c8a46993b4e8a962b2fb6ff0412af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:12 +0000
Subject: [PATCH 11/42] fix: apply updated scheduler options to every component
 of the scheduler

---
 src/scheduler.rs              | 11 +++++++++--
 src/scheduler/relearn_pile.rs |  5 +++++
 src/scheduler/unit_scorer.rs  |  8 ++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 1b137dd..caf8e93 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1186,11 +1186,18 @@ impl ExerciseScheduler for DepthFirstScheduler {
     }
 
     fn set_scheduler_options(&mut self, options: SchedulerOptions) {
-        self.data.options = options;
+        // Each component keeps its own copy of the options. Update them all, so that the new
+        // options are applied to every phase of the scheduling.
+        self.data.options = options.clone();
+        self.unit_scorer.set_options(options.clone());
+        self.reward_propagator.data = self.data.clone();
+        self.review_knocker = ReviewKnocker::new(self.data.clone());
+        self.filter = CandidateFilter::new(self.data.clone());
+        self.relearn_pile.set_options(options);
     }
 
     fn reset_scheduler_options(&mut self) {
-        self.data.options = SchedulerOptions::default();
+        self.set_scheduler_options(SchedulerOptions::default());
     }
 
     fn override_current_timestamp(&mut self, timestamp: Option<i64>) {
diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index ea95227..29e01a1 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -29,6 +29,11 @@ impl RelearnPile {
         }
     }
 
+    /// Sets the scheduler options.
+    pub fn set_options(&mut self, options: SchedulerOptions) {
+        self.options = options;
+    }
+
     /// Updates the relearning pile based on the score of an exercise.
     pub fn update(&self, exercise_id: Ustr, score: &MasteryScore) {
         let mut relearning_pile = self.pile.write();
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index e0f3789..9559b5d 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -114,6 +114,14 @@ impl UnitScorer {
         }
     }
 
+    /// Sets the options used to schedule exercises. All the cached values are removed because they
+    /// were computed using the previous options.
+    pub(super) fn set_options(&mut self, options: SchedulerOptions) {
+        self.data.options = options.clone();
+        self.options = options;
+        self.invalidate_cached_scores_with_prefix("");
+    }
+
     /// Sets the timestamp override used to compute scores.
     pub(super) fn set_override_timestamp(&mut self, timestamp: Option<i64>) {
         self.override_timestamp = timestamp;
-- 
2.43.0


From c9838c543cde80623cb9489b8097110f2e2472a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:13 +0000
Subject: [PATCH 12/42] fix: use the configured number of deltas to score an
 exercise

---
 src/scheduler/unit_scorer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index 9559b5d..db9598d 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -254,7 +254,7 @@ impl UnitScorer {
             .data
             .practice_deltas
             .read()
-            .get_deltas(exercise_id, self.options.num_trials)
+            .get_deltas(exercise_id, self.options.num_deltas)
             .unwrap_or_default();
         let score = self
             .exercise_scorer
-- 
2.43.0


From 5957f1277aacfddef29c009c6484280c5ffa1fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:38 +0000
Subject: [PATCH 13/42] fix: forward the call to set that the encompassing
 graph equals the dependency graph

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 28de9a4..77bf507 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -682,7 +682,7 @@ impl UnitGraph for Trane {
     }
 
     fn set_encompasing_equals_dependency(&mut self) {
-        self.unit_graph.write().encompasing_equals_dependency();
+        self.unit_graph.write().set_encompasing_equals_dependency();
     }
 
     fn encompasing_equals_dependency(&self) -> bool {
-- 
2.43.0


From 2832bfc6a1fc0e6e8ce80f4a962667f9e0bf8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:24 +0000
Subject: [PATCH 14/42] fix: skip blacklisted and missing units when practicing
 the review list

---
 src/scheduler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index caf8e93..278b0a1 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -924,7 +924,11 @@ impl DepthFirstScheduler {
         let mut candidates = vec![];
         let review_list = self.data.review_list.read().get_review_list_entries()?;
         for unit_id in review_list {
-            match self.data.get_unit_type_strict(unit_id)? {
+            // Skip the units that are no longer in the library.
+            let Some(unit_type) = self.data.get_unit_type(unit_id) else {
+                continue;
+            };
+            match unit_type {
                 UnitType::Course => {
                     // If the unit is a course, use the course scheduler to retrieve candidates.
                     let course_ids = vec![unit_id];
@@ -935,6 +939,11 @@ impl DepthFirstScheduler {
                     candidates.extend(self.get_candidates_from_lesson(unit_id)?);
                 }
                 UnitType::Exercise => {
+                    // Skip the exercise if it or its lesson or course are blacklisted.
+                    if self.data.inside_blacklisted(unit_id)? {
+                        continue;
+                    }
+
                     // Retrieve the exercise's lesson and course IDs.
                     let lesson_id = self.data.get_lesson_id(unit_id).unwrap_or_default();
                     let course_id = self.data.get_course_id(lesson_id).unwrap_or_default();
-- 
2.43.0


From b89f6cb2ec354c531603c54bd55c9ba3864b078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:26 +0000
Subject: [PATCH 15/42] fix: remove duplicate candidates found via overlapping
 units

---
 src/scheduler.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 278b0a1..4236feb 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1043,6 +1043,13 @@ impl DepthFirstScheduler {
             },
         };
 
+        // Remove duplicates. The same exercise can be found multiple times if the filter contains
+        // repeated or overlapping units.
+        let mut seen = UstrSet::default();
+        let candidates = candidates
+            .into_iter()
+            .filter(|candidate| seen.insert(candidate.exercise_id))
+            .collect();
         Ok(candidates)
     }
 
-- 
2.43.0


From f26e77c0a3c7e7f674e5b15b9d66eb1181c6bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:27 +0000
Subject: [PATCH 16/42] fix: drop missing exercises from the relearn pile

---
 src/scheduler/relearn_pile.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index 29e01a1..3c28996 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -63,11 +63,12 @@ impl RelearnPile {
             .collect()
     }
 
-    /// Cleans up blacklisted exercises from the pile before selecting exercises.
+    /// Cleans up blacklisted and missing exercises from the pile before selecting exercises.
     pub fn select_exercises(&self, data: &SchedulerData) -> Vec<Candidate> {
-        self.pile
-            .write()
-            .retain(|id| !data.inside_blacklisted(*id).unwrap_or(false));
+        self.pile.write().retain(|id| {
+            data.get_exercise_manifest(*id).is_ok()
+                && !data.inside_blacklisted(*id).unwrap_or(false)
+        });
         self.select_exercises_helper()
     }
 }
-- 
2.43.0


From b4eec7b8c19e5228155a801faa8a16f7027ebb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:04 +0000
Subject: [PATCH 17/42] fix: keep courses reachable when only some of their
 starting lessons have dependencies

---
 src/graph.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 562b053..190c4dd 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -611,10 +611,11 @@ impl UnitGraph for InMemoryUnitGraph {
                 .collect();
 
             // Before updating the map, the dependency sinks need to be updated as well. The course
-            // is no longer a dependency sink if any of its starting lessons have dependencies to
-            // other valid units in the graph.
+            // is no longer a dependency sink if all of its starting lessons have dependencies to
+            // other valid units in the graph. Otherwise, the search needs to start from the course
+            // to reach the starting lessons without dependencies.
             if self.dependency_sinks.contains(course_id) {
-                let has_starting_dependencies = starting_lessons.iter().any(|lesson_id| {
+                let has_starting_dependencies = starting_lessons.iter().all(|lesson_id| {
                     self.get_dependencies(*lesson_id)
                         .is_some_and(|dependencies| {
                             !dependencies.is_empty()
-- 
2.43.0


From b4780574c629993846c4ee7d884d74003c9e5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:08 +0000
Subject: [PATCH 18/42] fix: require the dependencies of the course before
 visiting its starting lessons

---
 src/scheduler.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 4236feb..9e10dba 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -594,13 +594,34 @@ impl DepthFirstScheduler {
         unit_id: Ustr,
         metadata_filter: Option<&KeyValueFilter>,
     ) -> bool {
-        self.data
-            .unit_graph
-            .read()
+        let graph = self.data.unit_graph.read();
+        let mut dependencies: UstrSet = graph
             .get_dependencies(unit_id)
             .unwrap_or_default()
             .iter()
             .copied()
+            .collect();
+
+        // Starting lessons are effectively dependent on the dependencies of their course, so add
+        // them as well.
+        if let Some(course_id) = graph.get_lesson_course(unit_id)
+            && graph
+                .get_starting_lessons(course_id)
+                .unwrap_or_default()
+                .contains(&unit_id)
+        {
+            dependencies.extend(
+                graph
+                    .get_dependencies(course_id)
+                    .unwrap_or_default()
+                    .iter()
+                    .copied(),
+            );
+        }
+        drop(graph);
+
+        dependencies
+            .into_iter()
             .all(|dependency_id| self.satisfied_dependency(dependency_id, metadata_filter))
     }
 
-- 
2.43.0


From 345ec217264f835cff84172ef3a7fdedc3fce0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 19/42] fix: reach lessons that depend on missing units from
 their course

---
 src/scheduler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 9e10dba..1d93d08 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -238,9 +238,11 @@ impl DepthFirstScheduler {
 
         // Some courses added to the original list in the previous steps might have other
         // dependencies, some of which exist in the course library. This means they cannot be
-        // considered a starting course, so remove them from the final output.
+        // considered a starting course, so remove them from the final output. The same applies to
+        // lessons that only depend on missing units, which are reached from their course.
         starting_courses
             .into_iter()
+            .filter(|course_id| graph.get_lesson_course(*course_id).is_none())
             .filter(|course_id| {
                 graph
                     .get_dependencies(*course_id)
-- 
2.43.0


From 7844ab116bac0db9359821607e85f6d471c2b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 20/42] fix: do not overflow when finding the current part of a
 study session

---
 src/data/filter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/data/filter.rs b/src/data/filter.rs
index 89019c4..e4d2035 100644
--- a/src/data/filter.rs
+++ b/src/data/filter.rs
@@ -357,13 +357,12 @@ impl StudySessionData {
         if minutes_since_start < 0 {
             return self.definition.parts[0].clone();
         }
-        let minutes_since_start = minutes_since_start as u32;
 
         // Find the first part that has not been completed yet. If all parts have been completed,
         // return the last part.
-        let mut session_length = 0;
+        let mut session_length: i64 = 0;
         for part in &self.definition.parts {
-            session_length += part.duration();
+            session_length += i64::from(part.duration());
             if minutes_since_start < session_length {
                 return part.clone();
             }
-- 
2.43.0


From 3f9377ab7b147e3d52e35513565ec4d297d5feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:41 +0000
Subject: [PATCH 21/42] fix: ignore the paths in the preferences when the
 library root is relative

---
 src/course_library.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/course_library.rs b/src/course_library.rs
index 323b676..001bee9 100644
--- a/src/course_library.rs
+++ b/src/course_library.rs
@@ -467,9 +467,10 @@ impl LocalCourseLibrary {
             }
 
             // Ignore any directory that matches the list of paths to ignore.
+            let absolute_path = path::absolute(entry.path())?;
             if ignored_paths
                 .iter()
-                .any(|ignored_path| entry.path().starts_with(ignored_path))
+                .any(|ignored_path| absolute_path.starts_with(ignored_path))
             {
                 continue;
             }
-- 
2.43.0


From 981d2316faa0b30feb82eadbcafdd22cce990fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 22/42] fix: do not panic when a course contains a directory
 whose name is not UTF-8

---
 src/data/course_generator/knowledge_base.rs | 6 +++++-
 src/data/course_generator/literacy.rs       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 3fcbc86..237fd81 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -655,7 +655,11 @@ impl GenerateManifests for KnowledgeBaseConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .unwrap_or_default();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX) {
                 lessons.insert(
                     short_id.into(),
diff --git a/src/data/course_generator/literacy.rs b/src/data/course_generator/literacy.rs
index bce10c6..ef6ecbe 100644
--- a/src/data/course_generator/literacy.rs
+++ b/src/data/course_generator/literacy.rs
@@ -723,7 +723,11 @@ impl GenerateManifests for LiteracyConfig {
             // Check if the directory name is in the format `<SHORT_LESSON_ID>.lesson`. If so, read
             // the knowledge base lesson and its exercises.
             let path = entry.path();
-            let dir_name = path.file_name().unwrap_or_default().to_str().unwrap();
+            let dir_name = path
+                .file_name()
+                .unwrap_or_default()
+                .to_str()
+                .unwrap_or_default();
             if let Some(short_id) = dir_name.strip_suffix(LESSON_SUFFIX)
                 && !short_id.is_empty()
             {
-- 
2.43.0


From 30ce3fefb8650b0196b8119b720194df4c7f7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 23/42] fix: traverse the dependents of starting courses that
 are skipped by the search

---
 src/scheduler.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 1d93d08..8782a67 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -289,21 +289,17 @@ impl DepthFirstScheduler {
                 .get_course_valid_starting_lessons(course_id, metadata_filter)
                 .unwrap_or_default();
 
-            if lesson_ids.is_empty() {
-                // For units with no lessons, insert the unit itself as a starting unit so that its
-                // dependents are traversed.
-                initial_stack.push(StackItem {
-                    unit_id: course_id,
-                    depth: 0,
-                });
-            } else {
-                // Insert all the starting lessons in the stack.
-                initial_stack.extend(
-                    lesson_ids
-                        .into_iter()
-                        .map(|unit_id| StackItem { unit_id, depth: 0 }),
-                );
-            }
+            // Insert the unit itself as a starting unit so that its dependents are traversed if it
+            // has no lessons or is skipped by the search, followed by all its starting lessons.
+            initial_stack.push(StackItem {
+                unit_id: course_id,
+                depth: 0,
+            });
+            initial_stack.extend(
+                lesson_ids
+                    .into_iter()
+                    .map(|unit_id| StackItem { unit_id, depth: 0 }),
+            );
         }
 
         // Shuffle the lessons to follow a different ordering each time a new batch is requested.
-- 
2.43.0


From c04671a625f8e7f3d579121d3642533e6ea21a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 24/42] fix: do not block the dependents of lessons whose
 course has been superseded

---
 src/scheduler.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 8782a67..49f0deb 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -551,12 +551,15 @@ impl DepthFirstScheduler {
             return true;
         }
 
-        // The dependency is considered as satisfied if it's been superseded by another unit.
-        let superseding = self.unit_scorer.get_superseding_recursive(dependency_id);
-        if let Some(superseding) = superseding
-            && self.unit_scorer.is_superseded(dependency_id, &superseding)
-        {
-            return true;
+        // The dependency is considered as satisfied if it or, in the case of a lesson, its course
+        // has been superseded by another unit.
+        for unit_id in [dependency_id, course_id] {
+            let superseding = self.unit_scorer.get_superseding_recursive(unit_id);
+            if let Some(superseding) = superseding
+                && self.unit_scorer.is_superseded(unit_id, &superseding)
+            {
+                return true;
+            }
         }
 
         // Finally, check if the unit passes the threshold to consider the dependency as satisfied.
-- 
2.43.0


From be1f5152a5df6711dbfb62282e9ed3a956f20e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 25/42] fix: resolve relative library roots against the working
 directory

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 77bf507..e784fde 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -306,7 +306,8 @@ impl Trane {
     /// directory. The working directory will be used to resolve relative paths.
     #[cfg_attr(coverage, coverage(off))]
     pub fn new_local(working_dir: &Path, library_root: &Path) -> Result<Trane> {
-        // Initialize the config directory.
+        // Resolve the library root and initialize the config directory.
+        let library_root = &working_dir.join(library_root);
         Self::init_config_directory(library_root)?;
 
         // Build all the preferences manager and course library.
@@ -317,7 +318,7 @@ impl Trane {
         }));
         let user_preferences = preferences_manager.read().get_user_preferences()?;
         let course_library = Arc::new(RwLock::new(LocalCourseLibrary::new(
-            &working_dir.join(library_root),
+            library_root,
             user_preferences.clone(),
         )?));
 
-- 
2.43.0


From 85c138c9d6676ccdb07fdd26cefdfac9ce14418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:53 +0000
Subject: [PATCH 26/42] fix: return an error when the path to the library root
 is not valid UTF-8

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e784fde..a3136a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -199,6 +199,11 @@ impl Trane {
             "library root {} is not a directory",
             library_root.display(),
         );
+        ensure!(
+            library_root.to_str().is_some(),
+            "library root {} is not valid UTF-8",
+            library_root.display(),
+        );
 
         // Create the config folder inside the library root if it does not exist already.
         let trane_path = library_root.join(TRANE_CONFIG_DIR_PATH);
-- 
2.43.0


From fcd22b42e32e17a2297f9c19aab61e9d9c7d2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:24 +0000
Subject: [PATCH 27/42] fix: write the user preferences atomically

---
 src/lib.rs                 | 12 +++---------
 src/preferences_manager.rs |  4 ++--
 src/utils.rs               | 10 ++++++++++
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a3136a8..77c1842 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,12 +74,7 @@ pub mod utils;
 use anyhow::{Context, Result, bail, ensure};
 use error::*;
 use parking_lot::RwLock;
-use std::{
-    fs::{File, create_dir},
-    io::Write,
-    path::Path,
-    sync::Arc,
-};
+use std::{fs::create_dir, path::Path, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -100,6 +95,7 @@ use crate::{
     review_list::{LocalReviewList, ReviewList},
     scheduler::{DepthFirstScheduler, ExerciseScheduler, data::SchedulerData},
     study_session_manager::{LocalStudySessionManager, StudySessionManager},
+    utils::write_atomically,
 };
 
 /// The path to the folder inside each course library containing the user data.
@@ -229,11 +225,9 @@ impl Trane {
         // Create the user preferences file if it does not exist already.
         let user_prefs_path = trane_path.join(USER_PREFERENCES_PATH);
         if !user_prefs_path.exists() {
-            let mut file = File::create(user_prefs_path.clone())
-                .context("failed to create user_preferences.json file")?;
             let default_prefs = UserPreferences::default();
             let prefs_json = serde_json::to_string_pretty(&default_prefs)? + "\n";
-            file.write_all(prefs_json.as_bytes())
+            write_atomically(&user_prefs_path, &prefs_json)
                 .context("failed to write to user_preferences.json file")?;
         } else if !user_prefs_path.is_file() {
             bail!("user preferences file must be a regular file");
diff --git a/src/preferences_manager.rs b/src/preferences_manager.rs
index d1ad431..8bf8677 100644
--- a/src/preferences_manager.rs
+++ b/src/preferences_manager.rs
@@ -3,7 +3,7 @@
 use anyhow::{Context, Result};
 use std::{fs, path::PathBuf};
 
-use crate::{PreferencesManagerError, data::UserPreferences};
+use crate::{PreferencesManagerError, data::UserPreferences, utils::write_atomically};
 
 /// A trait for managing user preferences.
 pub trait PreferencesManager {
@@ -37,7 +37,7 @@ impl LocalPreferencesManager {
     fn set_user_preferences_helper(&self, preferences: &UserPreferences) -> Result<()> {
         let pretty_json =
             serde_json::to_string_pretty(preferences).context("invalid user preferences")?;
-        fs::write(&self.path, pretty_json).context("failed to write user preferences")
+        write_atomically(&self.path, &pretty_json).context("failed to write user preferences")
     }
 }
 
diff --git a/src/utils.rs b/src/utils.rs
index cfec402..bf7c3d4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,6 +1,7 @@
 //! Contains common utilities used in multiple modules.
 
 use rusqlite::Connection;
+use std::{fs, io, path::Path};
 
 /// Returns the weighted average of the scores.
 #[must_use]
@@ -26,6 +27,15 @@ pub fn new_connection(db_path: &str) -> Result<Connection, rusqlite::Error> {
     Ok(connection)
 }
 
+/// Writes the contents to a temporary file and moves it to the given path, so that a partially
+/// written file is never visible at the path if the process is interrupted.
+pub fn write_atomically(path: &Path, contents: &str) -> io::Result<()> {
+    let mut temp_path = path.as_os_str().to_owned();
+    temp_path.push(".tmp");
+    fs::write(&temp_path, contents)?;
+    fs::rename(&temp_path, path)
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 86fc06789313f2a4e8f3dd6c66b407dff64214cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 28/42] fix: convert the paths of knowledge base lesson assets
 to full paths

---
 src/data/course_generator/knowledge_base.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/course_generator/knowledge_base.rs b/src/data/course_generator/knowledge_base.rs
index 237fd81..4cc493b 100644
--- a/src/data/course_generator/knowledge_base.rs
+++ b/src/data/course_generator/knowledge_base.rs
@@ -13,7 +13,7 @@ use ustr::{Ustr, UstrMap};
 
 use crate::data::{
     BasicAsset, CourseManifest, ExerciseAsset, ExerciseManifest, ExerciseType, GenerateManifests,
-    GeneratedCourse, LessonManifest, UserPreferences,
+    GeneratedCourse, LessonManifest, NormalizePaths, UserPreferences,
 };
 
 /// The suffix used to recognize a directory as a knowledge base lesson.
@@ -676,7 +676,9 @@ impl GenerateManifests for KnowledgeBaseConfig {
         let manifests: Vec<(LessonManifest, Vec<ExerciseManifest>)> = lessons
             .into_iter()
             .map(|(_, (lesson, exercises))| {
-                let lesson_manifest = LessonManifest::from(lesson.clone());
+                let lesson_root = course_root.join(format!("{}{LESSON_SUFFIX}", lesson.short_id));
+                let lesson_manifest =
+                    LessonManifest::from(lesson.clone()).normalize_paths(&lesson_root)?;
                 let exercise_manifests = exercises
                     .into_iter()
                     .map(|e| {
-- 
2.43.0


From 1e40fb1fba281ec28008381fda96b0b0bfbbc2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:26 +0000
Subject: [PATCH 29/42] fix: do not overflow when computing the age of a trial
 with an extreme timestamp

---
 src/reward_scorer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reward_scorer.rs b/src/reward_scorer.rs
index 8706220..b205336 100644
--- a/src/reward_scorer.rs
+++ b/src/reward_scorer.rs
@@ -125,7 +125,8 @@ impl RewardScorer for WeightedRewardScorer {
         // that are not being performed well.
         let recent_trials = previous_trials.iter().take(3);
         let last_trial = previous_trials.first().unwrap();
-        let num_days = (Utc::now().timestamp() - last_trial.timestamp) as f32 / (86_400.0);
+        let num_days =
+            (Utc::now().timestamp().saturating_sub(last_trial.timestamp)) as f32 / (86_400.0);
         let average_score = recent_trials.map(|trial| trial.score).sum::<f32>() / 3.0;
         if reward > 0.0 && average_score < 3.0 && num_days < 7.0 {
             return false;
-- 
2.43.0


From cebd7571c7efcae106433171fc28a76c5489bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 30/42] fix: refuse to build courses whose manifests name
 missing files

---
 src/course_builder.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/course_builder.rs b/src/course_builder.rs
index 2c1cd94..97b1855 100644
--- a/src/course_builder.rs
+++ b/src/course_builder.rs
@@ -95,10 +95,11 @@ impl ExerciseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest.verify_paths(exercise_directory).context(format!(
+        let paths_exist = manifest.verify_paths(exercise_directory).context(format!(
             "failed to verify files for exercise {}",
             manifest.id
         ))?;
+        ensure!(paths_exist, "missing files for exercise {}", manifest.id);
         Ok(())
     }
 }
@@ -151,9 +152,10 @@ impl LessonBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        manifest
+        let paths_exist = manifest
             .verify_paths(lesson_directory)
             .context(format!("failed to verify files for lesson {}", manifest.id))?;
+        ensure!(paths_exist, "missing files for lesson {}", manifest.id);
         Ok(())
     }
 }
@@ -201,12 +203,18 @@ impl CourseBuilder {
         }
 
         // Verify that all paths mentioned in the manifest are valid.
-        self.course_manifest
+        let paths_exist = self
+            .course_manifest
             .verify_paths(&course_directory)
             .context(format!(
                 "failed to verify files for course {}",
                 self.course_manifest.id
             ))?;
+        ensure!(
+            paths_exist,
+            "missing files for course {}",
+            self.course_manifest.id
+        );
         Ok(())
     }
 }
-- 
2.43.0


From aa46ac3d6322fceccf4651fe9563d26a4da71aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 31/42] fix: do not overflow with a very large batch size

---
 src/scheduler.rs              | 8 ++++++--
 src/scheduler/filter.rs       | 2 +-
 src/scheduler/relearn_pile.rs | 1 +
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index 49f0deb..c7ae890 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -754,8 +754,12 @@ impl DepthFirstScheduler {
         allowed_courses: &[Ustr],
     ) -> Result<Vec<Candidate>> {
         // Initialize the list of candidates.
-        let max_candidates = self.data.options.batch_size * MAX_CANDIDATE_FACTOR;
-        let mut all_candidates: Vec<Candidate> = Vec::with_capacity(max_candidates);
+        let max_candidates = self
+            .data
+            .options
+            .batch_size
+            .saturating_mul(MAX_CANDIDATE_FACTOR);
+        let mut all_candidates: Vec<Candidate> = Vec::new();
         let mut lessons_in_progress = UstrSet::default();
 
         // The dependency relationships between a course and its lessons are not explicitly encoded
diff --git a/src/scheduler/filter.rs b/src/scheduler/filter.rs
index 2d1d378..1aa4551 100644
--- a/src/scheduler/filter.rs
+++ b/src/scheduler/filter.rs
@@ -206,7 +206,7 @@ impl CandidateFilter {
         // If there are fewer candidates than three times the batch size, using the full batch size
         // would result in suboptimal filtering. Reduce the batch size to one third of the number
         // of candidates. Otherwise, keep the batch size as is.
-        if num_candidates < batch_size * 3 {
+        if num_candidates < batch_size.saturating_mul(3) {
             return (num_candidates / 3).max(MIN_DYNAMIC_BATCH_SIZE);
         }
         batch_size
diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index 3c28996..ff803ba 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -50,6 +50,7 @@ impl RelearnPile {
         // Select a random subset of exercises from the relearn pile.
         let num_to_add = (self.options.batch_size as f32 * self.options.relearn_fraction) as usize;
         let pile = self.pile.read();
+        let num_to_add = num_to_add.min(pile.len());
         let relearn_exercises: Vec<_> = pile.iter().sample(&mut rand::rng(), num_to_add);
 
         // Convert them to candidates and add them to the batch. Fill the other fields with default
-- 
2.43.0


From 67e4b03e3f11e71dfdb69f47795116a0f14da760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 32/42] fix: trim and remove practice records and blacklist
 entries in one transaction

---
 src/blacklist.rs        | 36 +++++++++++++++++++++++-------------
 src/practice_deltas.rs  | 19 ++++++++++++-------
 src/practice_rewards.rs | 16 ++++++++++------
 src/practice_stats.rs   | 19 ++++++++++++-------
 4 files changed, 57 insertions(+), 33 deletions(-)

diff --git a/src/blacklist.rs b/src/blacklist.rs
index 1f9cb6c..e694717 100644
--- a/src/blacklist.rs
+++ b/src/blacklist.rs
@@ -133,21 +133,31 @@ impl LocalBlacklist {
     /// Helper function to remove all the entries with the given prefix from the blacklist.
     fn remove_prefix_from_blacklist_helper(&mut self, prefix: &str) -> Result<()> {
         // Search for all the entries with the given prefix.
-        let connection = self.connection.lock();
-        let mut stmt = connection.prepare_cached(
-            "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
-        )?;
-        let mut rows = stmt.query(params![prefix])?;
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut removed = Vec::new();
+        {
+            let mut stmt = tx.prepare_cached(
+                "SELECT unit_id from blacklist WHERE substr(unit_id, 1, length($1)) = $1;",
+            )?;
+            let mut rows = stmt.query(params![prefix])?;
+            while let Some(row) = rows.next()? {
+                let unit_id: String = row.get(0)?;
+                removed.push(Ustr::from(&unit_id));
+            }
 
-        // Remove all the entries with the given prefix.
-        let mut stmt = connection.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
-        let mut cache = self.cache.write();
-        while let Some(row) = rows.next()? {
-            let unit_id: String = row.get(0)?;
-            stmt.execute(params![unit_id])?;
+            // Remove all the entries with the given prefix.
+            let mut stmt = tx.prepare_cached("DELETE FROM blacklist WHERE unit_id = $1")?;
+            for unit_id in &removed {
+                stmt.execute(params![unit_id.as_str()])?;
+            }
+        }
+        tx.commit()?;
 
-            // Update the cache.
-            cache.insert(unit_id.into(), false);
+        // Update the cache.
+        let mut cache = self.cache.write();
+        for unit_id in removed {
+            cache.insert(unit_id, false);
         }
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted entries.
diff --git a/src/practice_deltas.rs b/src/practice_deltas.rs
index d7a0c99..c637f8f 100644
--- a/src/practice_deltas.rs
+++ b/src/practice_deltas.rs
@@ -139,21 +139,24 @@ impl LocalPracticeDeltas {
 
     /// Helper function to trim the number of deltas for each exercise.
     fn trim_deltas_helper(&mut self, num_deltas: u32) -> Result<()> {
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached("SELECT unit_uid from uids")?;
         let uids = uid_stmt
             .query_map([], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice deltas DB"))
             .collect::<Result<Vec<i64>, _>>()?;
 
         for uid in uids {
-            let mut stmt = connection.prepare_cached(
+            let mut stmt = tx.prepare_cached(
                 "DELETE FROM practice_deltas WHERE id IN (
                     SELECT id FROM practice_deltas WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_deltas])?;
         }
+        drop(uid_stmt);
+        tx.commit()?;
 
         connection.execute_batch("VACUUM;")?;
         Ok(())
@@ -161,8 +164,9 @@ impl LocalPracticeDeltas {
 
     /// Helper function to remove all the deltas from units that match the given prefix.
     fn remove_deltas_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached(
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached(
             "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
         )?;
         let uids = uid_stmt
@@ -171,10 +175,11 @@ impl LocalPracticeDeltas {
             .collect::<Result<Vec<i64>, _>>()?;
 
         for uid in uids {
-            let mut stmt =
-                connection.prepare_cached("DELETE FROM practice_deltas WHERE unit_uid = $1;")?;
+            let mut stmt = tx.prepare_cached("DELETE FROM practice_deltas WHERE unit_uid = $1;")?;
             let _ = stmt.execute(params![uid])?;
         }
+        drop(uid_stmt);
+        tx.commit()?;
 
         connection.execute_batch("VACUUM;")?;
         Ok(())
diff --git a/src/practice_rewards.rs b/src/practice_rewards.rs
index ef33399..90526e5 100644
--- a/src/practice_rewards.rs
+++ b/src/practice_rewards.rs
@@ -236,13 +236,14 @@ impl LocalPracticeRewards {
     /// Helper function to trim the number of rewards for each unit to the given number. If the
     /// number of rewards is less than the given number, the method deletes no rewards.
     fn trim_rewards_helper(&mut self, num_rewards: u32) -> Result<()> {
-        let connection = self.connection.lock();
-        for row in connection
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        for row in tx
             .prepare("SELECT unit_uid FROM uids")?
             .query_map([], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
-            connection.execute(
+            tx.execute(
                 "DELETE FROM practice_rewards WHERE id IN (
                     SELECT id FROM practice_rewards WHERE unit_uid = ?1
                     ORDER BY timestamp DESC LIMIT -1 OFFSET ?2
@@ -250,23 +251,26 @@ impl LocalPracticeRewards {
                 params![unit_uid, num_rewards],
             )?;
         }
+        tx.commit()?;
         Ok(())
     }
 
     /// Helper function to remove all the rewards from units that match the given prefix.
     fn remove_rewards_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
-        let connection = self.connection.lock();
-        for row in connection
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        for row in tx
             .prepare("SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length(?1)) = ?1")?
             .query_map(params![prefix], |row| row.get(0))?
         {
             let unit_uid: i64 = row?;
-            connection.execute(
+            tx.execute(
                 "DELETE FROM practice_rewards WHERE unit_uid = ?1;",
                 params![unit_uid],
             )?;
         }
+        tx.commit()?;
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
diff --git a/src/practice_stats.rs b/src/practice_stats.rs
index 581c018..1625f13 100644
--- a/src/practice_stats.rs
+++ b/src/practice_stats.rs
@@ -159,8 +159,9 @@ impl LocalPracticeStats {
     /// Helper function to trim the number of scores for each exercise.
     fn trim_scores_helper(&mut self, num_scores: u32) -> Result<()> {
         // Get all the UIDs from the database.
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached("SELECT unit_uid from uids")?;
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached("SELECT unit_uid from uids")?;
         let uids = uid_stmt
             .query_map([], |row| row.get(0))?
             .map(|r| r.context("failed to retrieve UIDs from practice stats DB"))
@@ -168,13 +169,15 @@ impl LocalPracticeStats {
 
         // Delete the oldest trials for each UID but keep the most recent `num_scores` trials.
         for uid in uids {
-            let mut stmt = connection.prepare_cached(
+            let mut stmt = tx.prepare_cached(
                 "DELETE FROM practice_stats WHERE id IN (
                     SELECT id FROM practice_stats WHERE unit_uid = $1
                     ORDER BY timestamp DESC LIMIT -1 OFFSET ?2);",
             )?;
             let _ = stmt.execute(params![uid, num_scores])?;
         }
+        drop(uid_stmt);
+        tx.commit()?;
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
@@ -184,8 +187,9 @@ impl LocalPracticeStats {
     /// Helper function to remove all the scores from units that match the given prefix.
     fn remove_scores_with_prefix_helper(&mut self, prefix: &str) -> Result<()> {
         // Get all the UIDs for the units that match the prefix.
-        let connection = self.connection.lock();
-        let mut uid_stmt = connection.prepare_cached(
+        let mut connection = self.connection.lock();
+        let tx = connection.transaction()?;
+        let mut uid_stmt = tx.prepare_cached(
             "SELECT unit_uid FROM uids WHERE substr(unit_id, 1, length($1)) = $1;",
         )?;
         let uids = uid_stmt
@@ -195,10 +199,11 @@ impl LocalPracticeStats {
 
         // Delete all the trials for those units.
         for uid in uids {
-            let mut stmt =
-                connection.prepare_cached("DELETE FROM practice_stats WHERE unit_uid = $1;")?;
+            let mut stmt = tx.prepare_cached("DELETE FROM practice_stats WHERE unit_uid = $1;")?;
             let _ = stmt.execute(params![uid])?;
         }
+        drop(uid_stmt);
+        tx.commit()?;
 
         // Call the `VACUUM` command to reclaim the space freed by the deleted trials.
         connection.execute_batch("VACUUM;")?;
-- 
2.43.0


From 7445fb1a25a6a06f21440dd284557dcf0fb00e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:50 +0000
Subject: [PATCH 33/42] fix: forget the cached score as soon as a delta is
 recorded

---
 src/scheduler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index c7ae890..e3ce19b 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -1170,6 +1170,9 @@ impl ExerciseScheduler for DepthFirstScheduler {
                     timestamp,
                 }])
                 .map_err(|e| ExerciseSchedulerError::ScoreExercise(e.into()))?;
+
+            // The delta affects the score even if recording the trial fails.
+            self.unit_scorer.invalidate_cached_score(exercise_id);
         }
 
         // Write the score to the practice stats database, invalidate the cache, and update the
-- 
2.43.0


From 290cb43e5e8ca844b8084940868846fd8455ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 34/42] fix: never select an invalid exercise added to the
 relearn pile by another thread

The pile was cleaned up and sampled under separate locks, so an exercise of a
blacklisted unit scored in between by another thread could be selected.
---
 src/scheduler/relearn_pile.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/scheduler/relearn_pile.rs b/src/scheduler/relearn_pile.rs
index ff803ba..d4c5a2a 100644
--- a/src/scheduler/relearn_pile.rs
+++ b/src/scheduler/relearn_pile.rs
@@ -66,11 +66,15 @@ impl RelearnPile {
 
     /// Cleans up blacklisted and missing exercises from the pile before selecting exercises.
     pub fn select_exercises(&self, data: &SchedulerData) -> Vec<Candidate> {
-        self.pile.write().retain(|id| {
-            data.get_exercise_manifest(*id).is_ok()
-                && !data.inside_blacklisted(*id).unwrap_or(false)
-        });
-        self.select_exercises_helper()
+        let is_valid = |id: Ustr| {
+            data.get_exercise_manifest(id).is_ok() && !data.inside_blacklisted(id).unwrap_or(false)
+        };
+        self.pile.write().retain(|id| is_valid(*id));
+
+        // Another thread might have added an invalid exercise to the pile after the clean up.
+        let mut selected = self.select_exercises_helper();
+        selected.retain(|candidate| is_valid(candidate.exercise_id));
+        selected
     }
 }
 
-- 
2.43.0


From 9bbbfc5952833e4682f1a3494635d24c59148f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 35/42] fix: do not score practice data that cannot be read as
 missing

---
 src/scheduler.rs             | 19 ++++++++++---------
 src/scheduler/unit_scorer.rs | 27 ++++++++++++++++-----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/scheduler.rs b/src/scheduler.rs
index e3ce19b..9b69ba0 100644
--- a/src/scheduler.rs
+++ b/src/scheduler.rs
@@ -562,11 +562,13 @@ impl DepthFirstScheduler {
             }
         }
 
-        // Finally, check if the unit passes the threshold to consider the dependency as satisfied.
-        let score = self
-            .unit_scorer
-            .get_unit_score(dependency_id)
-            .unwrap_or_default();
+        // Finally, check if the unit passes the threshold to consider the dependency as satisfied. A
+        // dependency whose practice data cannot be read is not satisfied.
+        let score = match self.unit_scorer.get_unit_score(dependency_id) {
+            Ok(score) => score,
+            Err(_) if self.data.unit_exists(dependency_id).unwrap_or(false) => return false,
+            Err(_) => None,
+        };
         let avg_num_trials = self.unit_scorer.get_avg_trials(dependency_id);
         Self::passes_threshold(&self.data.options.passing_score, score, avg_num_trials)
     }
@@ -1151,13 +1153,12 @@ impl ExerciseScheduler for DepthFirstScheduler {
         // trials as those have no previous data for comparison.
         let existing_score = self
             .unit_scorer
-            .get_unit_score(exercise_id)
-            .unwrap_or_default()
-            .unwrap_or_default();
+            .get_exercise_score(exercise_id)
+            .map_err(ExerciseSchedulerError::ScoreExercise)?;
         let num_trials = self
             .unit_scorer
             .get_exercise_num_trials(exercise_id)
-            .unwrap_or_default()
+            .map_err(ExerciseSchedulerError::ScoreExercise)?
             .unwrap_or_default();
         if num_trials > 0 {
             let delta = score.float_score() - existing_score;
diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index db9598d..c37f7e3 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -5,7 +5,7 @@
 //! performance of exercise scheduling.
 //>@lp-example-2
 
-use anyhow::{Result, anyhow};
+use anyhow::{Error, Result, anyhow};
 use chrono::Utc;
 use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use std::sync::atomic::{AtomicU64, Ordering};
@@ -146,6 +146,13 @@ impl UnitScorer {
         }
     }
 
+    /// Handles a failure to read the practice data. None of the values that are being computed from
+    /// it can be cached because they would be wrong once the data can be read again.
+    fn unreadable(&self, error: impl Into<Error>) -> Error {
+        self.generation.fetch_add(1, Ordering::SeqCst);
+        error.into()
+    }
+
     /// Removes the cached score for the given unit and all units affected by an update to its
     /// score.
     pub(super) fn invalidate_cached_score(&self, unit_id: Ustr) {
@@ -249,13 +256,13 @@ impl UnitScorer {
             .practice_stats
             .read()
             .get_scores(exercise_id, self.options.num_trials)
-            .unwrap_or_default();
+            .map_err(|e| self.unreadable(e))?;
         let deltas = self
             .data
             .practice_deltas
             .read()
             .get_deltas(exercise_id, self.options.num_deltas)
-            .unwrap_or_default();
+            .map_err(|e| self.unreadable(e))?;
         let score = self
             .exercise_scorer
             .score(exercise_type, &scores, &deltas, self.now())?;
@@ -266,11 +273,11 @@ impl UnitScorer {
         let lesson_id = graph.get_exercise_lesson(exercise_id).unwrap_or_default();
         let lesson_rewards = rewards
             .get_rewards(lesson_id, self.options.num_rewards)
-            .unwrap_or_default();
+            .map_err(|e| self.unreadable(e))?;
         let course_id = graph.get_lesson_course(lesson_id).unwrap_or_default();
         let course_rewards = rewards
             .get_rewards(course_id, self.options.num_rewards)
-            .unwrap_or_default();
+            .map_err(|e| self.unreadable(e))?;
         let reward = self
             .reward_scorer
             .score_rewards(&course_rewards, &lesson_rewards)
@@ -298,7 +305,7 @@ impl UnitScorer {
     }
 
     /// Returns the score for the given exercise.
-    fn get_exercise_score(&self, exercise_id: Ustr) -> Result<f32> {
+    pub(super) fn get_exercise_score(&self, exercise_id: Ustr) -> Result<f32> {
         Ok(self.get_exercise_cached_score(exercise_id)?.score)
     }
 
@@ -352,9 +359,10 @@ impl UnitScorer {
         }
 
         // All the superseding units must have a score equal or greater than the superseding score.
+        // A score that cannot be read does not count as such.
         let scores = superseding_ids
             .iter()
-            .filter_map(|id| self.get_unit_score(*id).unwrap_or_default())
+            .filter_map(|id| self.get_unit_score(*id).unwrap_or(Some(0.0)))
             .collect::<Vec<_>>();
         scores
             .iter()
@@ -496,10 +504,7 @@ impl UnitScorer {
                     .map(|lesson_id| self.get_lesson_score(lesson_id))
                     .filter(|score| {
                         // Filter out any lesson whose score is not valid.
-                        if score.as_ref().unwrap_or(&None).is_none() {
-                            return false;
-                        }
-                        true
+                        !matches!(score, Ok(None))
                     })
                     .collect::<Result<Vec<_>>>()?;
 
-- 
2.43.0


From 3a22ab0f72491a3ccf5b1d1297b9e45bb48e1e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:06 +0000
Subject: [PATCH 36/42] fix: forget the cached scores when the time used to
 compute them is overridden

---
 src/scheduler/unit_scorer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index c37f7e3..c4a0ed9 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -122,9 +122,11 @@ impl UnitScorer {
         self.invalidate_cached_scores_with_prefix("");
     }
 
-    /// Sets the timestamp override used to compute scores.
+    /// Sets the timestamp override used to compute scores. All the cached values are removed because
+    /// they were computed for another time.
     pub(super) fn set_override_timestamp(&mut self, timestamp: Option<i64>) {
         self.override_timestamp = timestamp;
+        self.invalidate_cached_scores_with_prefix("");
     }
 
     /// Returns the current timestamp, using the override if set.
-- 
2.43.0


From 1e9cd0e22c625e245a380a544c4be6d882367212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:47 +0000
Subject: [PATCH 37/42] fix: prefer among exercises whose scores fall steeply

---
 src/scheduler/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler/filter.rs b/src/scheduler/filter.rs
index 1aa4551..6e4a635 100644
--- a/src/scheduler/filter.rs
+++ b/src/scheduler/filter.rs
@@ -114,7 +114,7 @@ impl CandidateFilter {
         }
 
         if let Some(velocity) = c.velocity {
-            log_cost += VELOCITY_COST_COEFFICIENT * -velocity.ln_1p();
+            log_cost -= VELOCITY_COST_COEFFICIENT * velocity.signum() * velocity.abs().ln_1p();
             if velocity.abs() < STAGNANT_VELOCITY_THRESHOLD {
                 if c.exercise_score >= MASTERED_SCORE_THRESHOLD {
                     log_cost += STAGNANT_MASTERED_COST_PENALTY;
-- 
2.43.0


From 0c4d8b86b8334c60d6f1b11d2b3273b30f62d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:47 +0000
Subject: [PATCH 38/42] fix: find dependencies at a depth without following
 every path

---
 src/scheduler/data.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/data.rs b/src/scheduler/data.rs
index 6943a0e..61224bd 100644
--- a/src/scheduler/data.rs
+++ b/src/scheduler/data.rs
@@ -3,7 +3,7 @@
 use anyhow::{Ok, Result, anyhow};
 use chrono::{DateTime, Utc};
 use parking_lot::RwLock;
-use std::sync::Arc;
+use std::{collections::HashSet, sync::Arc};
 use ustr::{Ustr, UstrMap, UstrSet};
 
 use crate::{
@@ -177,8 +177,14 @@ impl SchedulerData {
         // Search for the dependencies at the given depth.
         let mut dependencies = vec![];
         let mut stack = vec![(unit_id, 0)];
+        let mut visited = HashSet::new();
         let graph = self.unit_graph.read();
         while let Some((candidate_id, candidate_depth)) = stack.pop() {
+            // The same unit can be reached at the same depth through many different paths.
+            if !visited.insert((candidate_id, candidate_depth)) {
+                continue;
+            }
+
             if candidate_depth == depth {
                 // Reached the end of the search.
                 dependencies.push(candidate_id);
-- 
2.43.0


From 08a67e2d2e528d99edf15a25587d7f94702c87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:47 +0000
Subject: [PATCH 39/42] fix: find superseding units without following every
 path

---
 src/scheduler/unit_scorer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scheduler/unit_scorer.rs b/src/scheduler/unit_scorer.rs
index c4a0ed9..dfac29f 100644
--- a/src/scheduler/unit_scorer.rs
+++ b/src/scheduler/unit_scorer.rs
@@ -372,16 +372,20 @@ impl UnitScorer {
     }
 
     /// Recursively check if each superseding unit has itself been superseded by another unit and
-    /// replace them from the original set with those units.
-    fn replace_superseding(&self, superseding_ids: &UstrSet) -> UstrSet {
+    /// replace them from the original set with those units. Units already in the visited set are
+    /// ignored because their replacements are already part of the result.
+    fn replace_superseding(&self, superseding_ids: &UstrSet, visited: &mut UstrSet) -> UstrSet {
         let mut result = UstrSet::default();
         for id in superseding_ids.iter().copied() {
+            if !visited.insert(id) {
+                continue;
+            }
             let superseding = self.data.get_superseding(id);
             if let Some(superseding) = superseding {
                 // The unit has some superseding units of its own. If the unit has been superseded
                 // by them, recursively call this function. Otherwise, add the unit to the result.
                 if self.is_superseded(id, &superseding) {
-                    result.extend(self.replace_superseding(&superseding));
+                    result.extend(self.replace_superseding(&superseding, visited));
                 } else {
                     result.insert(id);
                 }
@@ -397,7 +401,7 @@ impl UnitScorer {
     /// superseded.
     pub(super) fn get_superseding_recursive(&self, unit_id: Ustr) -> Option<UstrSet> {
         let superseding_ids = self.data.get_superseding(unit_id);
-        superseding_ids.map(|ids| self.replace_superseding(&ids))
+        superseding_ids.map(|ids| self.replace_superseding(&ids, &mut UstrSet::default()))
     }
 
     /// Returns the average score of all the exercises in the given lesson.
-- 
2.43.0


From ac3131dd4458c50bfbeee81388aa3a7ad2ce56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:29 +0000
Subject: [PATCH 40/42] fix: include courses without lessons in the exported
 graph

---
 src/graph.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 190c4dd..6b43048 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -693,8 +693,16 @@ impl UnitGraph for InMemoryUnitGraph {
     fn generate_dot_graph(&self, courses_only: bool) -> String {
         // Initialize the output with the first line of the file.
         let mut output = String::from("digraph dependent_graph {\n");
-        let mut courses = self.course_lesson_map.keys().copied().collect::<Vec<_>>();
+        // Include the courses without any lessons.
+        let mut courses = self
+            .type_map
+            .iter()
+            .filter(|(_, unit_type)| **unit_type == UnitType::Course)
+            .map(|(course_id, _)| *course_id)
+            .chain(self.course_lesson_map.keys().copied())
+            .collect::<Vec<_>>();
         courses.sort();
+        courses.dedup();
 
         // Add each course to the DOT graph.
         for course_id in courses {
-- 
2.43.0


From 4f84d0e522d23a6159b12665c10cbd0eb3717285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:29 +0000
Subject: [PATCH 41/42] fix: escape identifiers in the exported graph

---
 src/graph.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 6b43048..5f3e409 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -691,6 +691,9 @@ impl UnitGraph for InMemoryUnitGraph {
     }
 
     fn generate_dot_graph(&self, courses_only: bool) -> String {
+        // Quotes and backslashes in an ID must be escaped.
+        let dot_id = |id: Ustr| format!("\"{}\"", id.replace('\\', "\\\\").replace('"', "\\\""));
+
         // Initialize the output with the first line of the file.
         let mut output = String::from("digraph dependent_graph {\n");
         // Include the courses without any lessons.
@@ -707,7 +710,11 @@ impl UnitGraph for InMemoryUnitGraph {
         // Add each course to the DOT graph.
         for course_id in courses {
             // Add an entry for the course node and set the color to red.
-            let _ = writeln!(output, "    \"{course_id}\" [color=red, style=filled]");
+            let _ = writeln!(
+                output,
+                "    {} [color=red, style=filled]",
+                dot_id(course_id)
+            );
 
             // Write the entry in the graph for all the of the dependents of this course. Filter out
             // lessons if only courses should be added.
@@ -745,7 +752,7 @@ impl UnitGraph for InMemoryUnitGraph {
             // Write an entry for each of the course's dependents.
             dependents.sort();
             for dependent in dependents {
-                let _ = writeln!(output, "    \"{course_id}\" -> \"{dependent}\"");
+                let _ = writeln!(output, "    {} -> {}", dot_id(course_id), dot_id(dependent));
             }
 
             // Repeat the same process for each lesson in this course, unless only the courses
@@ -762,7 +769,11 @@ impl UnitGraph for InMemoryUnitGraph {
             lessons.sort();
             for lesson_id in lessons {
                 // Add an entry for the lesson node and set the color to blue.
-                let _ = writeln!(output, "    \"{lesson_id}\" [color=blue, style=filled]");
+                let _ = writeln!(
+                    output,
+                    "    {} [color=blue, style=filled]",
+                    dot_id(lesson_id)
+                );
 
                 // Add an entry in the graph for all of this lesson's dependents.
                 let mut dependents = self
@@ -773,7 +784,7 @@ impl UnitGraph for InMemoryUnitGraph {
                     .collect::<Vec<_>>();
                 dependents.sort();
                 for dependent in dependents {
-                    let _ = writeln!(output, "    \"{lesson_id}\" -> \"{dependent}\"");
+                    let _ = writeln!(output, "    {} -> {}", dot_id(lesson_id), dot_id(dependent));
                 }
             }
         }
-- 
2.43.0


From 7c39d398fb66bddf68ec05a50894905155517290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:29 +0000
Subject: [PATCH 42/42] fix: accept percentages whose sum is rounded

---
 src/data.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 5b00a66..d3264ac 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -978,15 +978,15 @@ impl SchedulerOptions {
         }
         self.passing_score.verify()?;
 
-        // The sum of the percentages of the mastery windows must be 1.0.
-        if !Self::float_equals(
-            self.mastered_window_opts.percentage
-                + self.easy_window_opts.percentage
-                + self.current_window_opts.percentage
-                + self.target_window_opts.percentage
-                + self.new_window_opts.percentage,
-            1.0,
-        ) {
+        // The sum of the percentages of the mastery windows must be 1.0. Allow for the rounding
+        // errors that accumulate when adding them.
+        let percentage_sum = self.mastered_window_opts.percentage
+            + self.easy_window_opts.percentage
+            + self.current_window_opts.percentage
+            + self.target_window_opts.percentage
+            + self.new_window_opts.percentage;
+        let sums_to_one = (percentage_sum - 1.0).abs() < 1e-5;
+        if !sums_to_one {
             bail!(
                 "invalid scheduler options: the sum of the percentages of the mastery windows \
                 must be 1.0"
-- 
2.43.0

