From 39a028daa8e2265361ab06e287864635f2adf2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 01/33] fix: encode strings before hashing them with xxhash

Current xxhash releases only accept bytes, so hashing a MixtureKey or seeding
from a list raised a TypeError. Older releases hashed the UTF-8 encoding, which
is what is passed explicitly now, i.e., the hash values do not change.
---
 mixtera/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..c8f258c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -106,7 +106,7 @@ def hash_list(string_list: list[str]) -> int:
     concatenated_string = "\0".join(string_list)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
@@ -142,7 +142,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     concatenated_string = "\0".join(concatenated_items)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
-- 
2.43.0


From 0729977c3e26cdd7874934c2e2e02fba97c29e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 02/33] fix: allow hashing dictionaries with numeric property
 values

MixtureKey accepts strings, ints and floats as property values, but hashing a
key with a numeric value raised a TypeError. This also stops hash_dict from
reordering the value lists of the key it hashes.
---
 mixtera/utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index c8f258c..21c1ee5 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -125,9 +125,8 @@ def hash_dict(d: dict[str, list[str]]) -> int:
 
     # Process each key in sorted order for deterministic hashing
     for key in sorted(d.keys()):
-        # Get and sort the list of strings associated with the key
-        value_list = d[key]
-        value_list.sort()
+        # Get the sorted list of strings associated with the key (values may also be numbers)
+        value_list = sorted(map(str, d[key]))
 
         # Concatenate the sorted list of strings with a separator
         concatenated_values = "\0".join(value_list)
-- 
2.43.0


From 0262667af76bf1d867b5226d929d012183dc3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 03/33] fix: do not cycle forever over exhausted keys with an
 arbitrary mixture

When skipping exhausted keys, the generator always advanced by two keys. With an
even number of keys it never reached the remaining non-empty ones, and the
request for the next chunk did not terminate. Now every key is considered once
skipping two keys at a time has been through all of them; the order of chunks
does not change in the cases that terminated before.
---
 mixtera/core/query/query_result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..277163c 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,16 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                num_skips = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
                         # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        # However, if we always skip two keys, we may never reach a key that still has data,
+                        # hence we consider each key once we have been through all keys without success.
+                        num_skips += 1
+                        if num_skips <= len(chunker_index_keys):
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
-- 
2.43.0


From 42e0e0dd0cf1e4ce0b556b93a8e6831342f4dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 04/33] fix: use the mixture sent after a chunk could not be
 generated

When not enough data was left, the generator yielded None and dropped the
mixture (and target index) of the next request. Hence, an updated mixture was
never used after a request that could not be satisfied.
---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 277163c..2b142a0 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -500,7 +500,7 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-- 
2.43.0


From 30e58bb52d36860fcea1b443236509517b399aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 05/33] fix: do not count refused requests as chunks that need
 to be replayed

---
 mixtera/core/query/query_result.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 2b142a0..d3e5b90 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -587,9 +587,11 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
-            if result is None:
+            if result is not None:
+                # Only count chunks that were handed out, since this is the number of chunks we need to replay.
+                self._num_returns_gen += 1
+            else:
                 # In case we reach end of chunks (for now),
                 # next time (e.g. due to updated mixture) we try again to fetch the same ID.
                 with self._index.get_lock():
-- 
2.43.0


From 0aa141470ff35abcb731f16eef6c4ec61c49b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 06/33] fix: replay refused requests and keep a mixture that
 was not used yet

When a mixture could not be satisfied, several mixtures are logged for the same
chunk index, but only the first one was replayed. Furthermore, a refused request
consumes data and mixture ids. Last, the checkpoint did not contain the current
mixture and the key ids, such that a job restored from the cached query used the
ones of the job that created the cache.
---
 mixtera/core/query/chunk_distributor.py | 35 +++++++---
 mixtera/core/query/query_result.py      | 88 ++++++++++++++-----------
 2 files changed, 73 insertions(+), 50 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..84882f8 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -406,7 +406,19 @@ class ChunkDistributor:
             logger.debug("Updated alg:")
             logger.debug(str(mixture_log[-1][1]._mixing_alg))
 
-        returns_gen = self._query_result._num_returns_gen
+        query_result_state = {
+            "num_returns_gen": self._query_result._num_returns_gen,
+            "mixture_log": mixture_log,
+            # The current mixture might not have been used for a chunk (i.e., logged) yet. Also, the cached QueryResult
+            # that we restore from might have been created for another mixture, which implies different key ids.
+            **deepcopy(
+                {
+                    "mixture": getattr(self._query_result, "_mixture", None),
+                    "key_id_map": getattr(self._query_result, "_key_id_map", None),
+                    "refused_requests": getattr(self._query_result, "_refused_requests", None),
+                }
+            ),
+        }
 
         logger.debug("Spinning up the persisting process.")
 
@@ -419,8 +431,7 @@ class ChunkDistributor:
                 checkpoint_id,
                 chkpnt_dir,
                 state_to_save,
-                mixture_log,
-                returns_gen,
+                query_result_state,
                 worker_sample_ids,
                 directory_to_copy,
             ),
@@ -433,8 +444,7 @@ class ChunkDistributor:
         checkpoint_id: str,
         chkpnt_dir: Path,
         state_to_save: dict[str, Any],
-        mixture_log: list[tuple[int, Any]],
-        num_returns_gen: int,
+        query_result_state: dict[str, Any],
         worker_sample_ids: dict[tuple[int, int], int],
         directory_to_copy: Path | None,
     ) -> None:
@@ -448,7 +458,7 @@ class ChunkDistributor:
             checkpoint_id (str): Identifier for the checkpoint.
             chkpnt_dir (Path): Directory where the checkpoint will be saved.
             state_to_save (dict[str, Any]): The state dictionary to save.
-            query_result_copy (QueryResult): The QueryResult to save.
+            query_result_state (dict[str, Any]): The part of the QueryResult state required to replay it.
             worker_sample_ids (dict[tuple[int, int], int]): Mapping of worker sample indices per worker.
 
         Raises:
@@ -500,11 +510,10 @@ class ChunkDistributor:
             with open(checkpoint_path / "chunk_distributor_state.pkl", "wb") as f:
                 dill.dump(state_to_save, f, protocol=dill.HIGHEST_PROTOCOL)
 
-            logger.info(f"Checkpointing the mixture log and num returns with num returns = {num_returns_gen}")
+            num_returns_gen = query_result_state["num_returns_gen"]
+            logger.info(f"Checkpointing the QueryResult state with num returns = {num_returns_gen}")
             with open(checkpoint_path / "query_result_state.pkl", "wb") as f:
-                dill.dump(
-                    {"num_returns_gen": num_returns_gen, "mixture_log": mixture_log}, f, protocol=dill.HIGHEST_PROTOCOL
-                )
+                dill.dump(query_result_state, f, protocol=dill.HIGHEST_PROTOCOL)
 
             logger.debug("Wrote checkpoint.")
         except Exception as e:
@@ -600,6 +609,12 @@ class ChunkDistributor:
         logger.debug("Loading QueryResult.")
         query_result = QueryResult.from_cache(query_dir, replay=False)
         query_result._mixture_log = query_result_state["mixture_log"]
+        if "mixture" in query_result_state:
+            query_result._mixture = query_result_state["mixture"]
+            query_result._key_id_map = query_result_state["key_id_map"]
+            query_result._refused_requests = query_result_state["refused_requests"]
+        elif query_result._mixture_log:  # Checkpoint has been written before we stored the mixture
+            query_result._mixture = deepcopy(query_result._mixture_log[-1][1])
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index d3e5b90..d41a876 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -86,6 +86,8 @@ class QueryResult:
         logger.debug("QueryResult instantiated.")
 
         self._mixture_log: list[tuple[int, Mixture]] = []
+        # Index into the mixture log -> number of requests that could not be satisfied with that mixture
+        self._refused_requests: dict[int, int] = {}
         self._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
@@ -587,7 +589,13 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            result = self._generator.send((self._mixture, chunk_target_index))
+            generator_finished = False
+            try:
+                result = self._generator.send((self._mixture, chunk_target_index))
+            except StopIteration:
+                result = None
+                generator_finished = True
+
             if result is not None:
                 # Only count chunks that were handed out, since this is the number of chunks we need to replay.
                 self._num_returns_gen += 1
@@ -597,7 +605,11 @@ class QueryResult:
                 with self._index.get_lock():
                     self._index.get_obj().value -= 1
 
-                if self.stop_on_none:
+                if not self._is_replay:
+                    log_idx = len(self._mixture_log) - 1
+                    self._refused_requests[log_idx] = self._refused_requests.get(log_idx, 0) + 1
+
+                if self.stop_on_none or generator_finished:
                     raise StopIteration
 
             return result
@@ -696,49 +708,42 @@ class QueryResult:
         logger.debug("Write mixture logs.")
 
     def replay(self, num_chunks_replay: int) -> None:
-        if num_chunks_replay < 1:
+        mixture_log = self._mixture_log
+        if num_chunks_replay < 1 and not mixture_log:
             return
 
         logger.debug(f"Starting to replay {num_chunks_replay} chunks.")
-        mixture_log = self._mixture_log
         self._is_replay = True
 
-        mixture_log_index = 0
-        num_mixture_changes = len(mixture_log)
-
-        # Since there's always an entry at chunk index 0, set the initial mixture
-        initial_mixture = deepcopy(mixture_log[0][1])
-        assert initial_mixture is not None
-
-        self.update_mixture(initial_mixture)
-
-        mixture_log_index += 1
-
-        # Initialize next mixture change, if any
-        if mixture_log_index < num_mixture_changes:
-            next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
-            next_mixture = deepcopy(mixture_log[mixture_log_index][1])
-        else:
-            next_mixture_change_chunk_index = None
-            next_mixture = None
-
-        # Replay the chunks
-        for i in range(num_chunks_replay):
-            # Update mixture if the current chunk index matches a mixture change point
-            if next_mixture_change_chunk_index is not None and i == next_mixture_change_chunk_index:
-                assert next_mixture is not None
-                self.update_mixture(next_mixture)
-                mixture_log_index += 1
-                if mixture_log_index < num_mixture_changes:
-                    next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
-                    next_mixture = deepcopy(mixture_log[mixture_log_index][1])
-                else:
-                    next_mixture_change_chunk_index = None
+        # The mixture might have been updated after the last chunk was requested.
+        current_mixture = self._mixture
 
-            try:
-                _ = next(self)
-            except StopIteration as e:
-                raise RuntimeError(f"Generator exhausted during replay at chunk index {i} - should not happen!") from e
+        for log_idx, (chunk_idx, logged_mixture) in enumerate(mixture_log):
+            is_last = log_idx + 1 == len(mixture_log)
+            next_chunk_idx = num_chunks_replay if is_last else mixture_log[log_idx + 1][0]
+
+            self.update_mixture(deepcopy(logged_mixture))
+
+            for chunk_to_replay in range(chunk_idx, next_chunk_idx):
+                try:
+                    _ = next(self)
+                except StopIteration as e:
+                    raise RuntimeError(
+                        f"Generator exhausted during replay at chunk index {chunk_to_replay} - should not happen!"
+                    ) from e
+
+            # After a request could not be satisfied, it never can be again with the same mixture.
+            # Such requests consume data and mixture IDs, hence we need to repeat them.
+            for _ in range(self._refused_requests.get(log_idx, 0)):
+                try:
+                    refused_chunk = next(self)
+                except StopIteration:
+                    continue
+
+                if refused_chunk is not None:
+                    raise RuntimeError(f"Obtained chunk {next_chunk_idx} during replay, which was not generated before!")
+
+        self.update_mixture(current_mixture)
 
         logger.debug("Finished chunk replay.")
         assert self._num_returns_gen == num_chunks_replay
@@ -773,6 +778,9 @@ class QueryResult:
         # Set the state
         query_result.__dict__.update(state)
 
+        if "_refused_requests" not in state:  # Cached before we kept track of this
+            query_result._refused_requests = {}
+
         # Set the dilled attributes
         for attrib, value in dilled.items():
             setattr(query_result, attrib, value)
@@ -797,7 +805,7 @@ class QueryResult:
         if query_result._query_log_dir is not None:
             query_result._query_log_dir.mkdir(exist_ok=True)
 
-        if num_chunks_replay > 0 and replay:
+        if replay:
             query_result.replay(num_chunks_replay)
 
         return query_result
-- 
2.43.0


From d40f31ba95f57f29a76b4ec5f5394be6109a0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 07/33] fix: log a mixture for replay if only its chunk size or
 strictness changed

---
 mixtera/core/query/query_result.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index d41a876..955e9a0 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -309,6 +309,7 @@ class QueryResult:
                 return
 
         previous_mixture = None
+        previous_config: tuple[bool, int] | None = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
         # e.g., due to dynamic mixture changes.
@@ -323,6 +324,11 @@ class QueryResult:
             mixture = deepcopy(base_mixture.mixture_in_rows())
             is_strict = base_mixture.strict
 
+            # Even if the proportions stay the same, chunks are generated differently, i.e., we need to log the mixture.
+            config = (is_strict, base_mixture.chunk_size)
+            config_changed = previous_config is not None and previous_config != config
+            previous_config = config
+
             chunk_success = False
             if mixture:
                 if previous_mixture != mixture:
@@ -347,6 +353,10 @@ class QueryResult:
 
                     self._persist_mixture_log()
                     self._update_key_id_map()
+                elif config_changed:
+                    if not self._is_replay:
+                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
+                    self._persist_mixture_log()
 
                 chunk: ChunkerIndex = create_chunker_index()
                 remaining_sizes: dict[MixtureKey, int] = {  # pylint: disable=unnecessary-comprehension
@@ -511,6 +521,10 @@ class QueryResult:
                     if not self._is_replay:
                         self._mixture_log.append((current_chunk_index, base_mixture))
                     self._persist_mixture_log()
+                elif config_changed:
+                    if not self._is_replay:
+                        self._mixture_log.append((current_chunk_index, base_mixture))
+                    self._persist_mixture_log()
 
                 chunk = None
                 num_skips = 0
-- 
2.43.0


From d659200efcfd9eda7440046988deadf87e3f2bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 08/33] fix: do not add empty ranges for zero-sized mixture
 keys to a chunk

---
 mixtera/core/query/query_result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 955e9a0..8c96e58 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -371,6 +371,8 @@ class QueryResult:
                     # Sort to guarantee same handling for semantically same mixtures
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
+                        if remaining_sizes[mixture_key] == 0:
+                            continue  # Otherwise, we would add empty ranges for this key to the chunk
 
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
-- 
2.43.0


From 0f330ba58873efbb1970d79ea6a2c28ccab7b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 09/33] fix: do not divide by zero if only zero-sized keys are
 left in best-effort mode

---
 mixtera/core/query/query_result.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 8c96e58..8c72ec7 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -462,7 +462,10 @@ class QueryResult:
 
                                     total_mixture_size_remaining = sum(mixture[key] for key in target_keys)
 
-                                    ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    if total_mixture_size_remaining > 0:
+                                        ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    else:  # Only zero-sized keys left
+                                        ratios = [1 / len(target_keys) for _ in target_keys]
 
                                     samples_to_distribute = distribute_by_ratio(num_missing_samples, ratios)
 
-- 
2.43.0


From 93f69e9f7a5514bf52d19c2d349e7c76fcbe3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 10/33] fix: round hierarchical mixtures by the largest
 remainder

Rounding down and giving everything that is missing to the first leaf also took
samples from leaves whose share is integral but not represented exactly, e.g.,
int(100 * 0.57) = 56.
---
 .../core/query/mixture/hierarchical_static_mixture.py  | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..7f6de53 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -3,6 +3,7 @@ from typing import TYPE_CHECKING, List
 
 from mixtera.core.query.mixture.mixture import Mixture
 from mixtera.core.query.mixture.mixture_key import MixtureKey
+from mixtera.core.query.mixture.static_mixture import StaticMixture
 
 if TYPE_CHECKING:
     from mixtera.core.datacollection.index import ChunkerIndex
@@ -48,13 +49,8 @@ class HierarchicalStaticMixture(Mixture):
             assert val >= 0, "Mixture values must be non-negative."
             assert isinstance(key, MixtureKey), "Mixture keys must be of type MixtureKey."
 
-        mixture = {key: int(chunk_size * val) for key, val in formatted_user_mixture.items()}
-
-        # Ensure approximation errors do not affect final chunk size
-        if (diff := chunk_size - sum(mixture.values())) > 0:
-            mixture[list(mixture.keys())[0]] += diff
-
-        return mixture
+        # Ensures that approximation errors neither affect the final chunk size nor shift samples between keys
+        return StaticMixture.parse_user_mixture(chunk_size, formatted_user_mixture)
 
     def convert_to_mixture_key_format(self, mixture: MixtureNode) -> dict[MixtureKey, float]:
         mixture_keys = {}
-- 
2.43.0


From 974123b962045dd7a501c1bf44cbad95cb44fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 11/33] fix: apply an adjusted chunk size to the sample counts
 of a mixture

---
 mixtera/core/query/mixture/dynamic_mixture.py             | 1 +
 mixtera/core/query/mixture/hierarchical_static_mixture.py | 4 ++++
 mixtera/core/query/mixture/mixture.py                     | 6 ++++++
 mixtera/core/query/mixture/mixture_schedule.py            | 1 +
 mixtera/core/query/mixture/static_mixture.py              | 4 ++++
 5 files changed, 16 insertions(+)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..039049f 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -34,6 +34,7 @@ class DynamicMixture(Mixture):
                 + f"initial_mixture chunk size is {initial_mixture.chunk_size}. Adjusting."
             )
             initial_mixture.chunk_size = chunk_size
+            initial_mixture.on_chunk_size_changed()
 
         self._current_mixture = initial_mixture
         self._mixing_alg = mixing_alg
diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 7f6de53..33f9ffb 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -37,6 +37,7 @@ class HierarchicalStaticMixture(Mixture):
             Component(values=["medicine"], weight=0.5)])
         """
         super().__init__(chunk_size, strict=strict)
+        self._user_mixture = mixture
         self._mixture = self.parse_mixture_node(chunk_size, mixture)
 
     def __str__(self) -> str:
@@ -67,5 +68,8 @@ class HierarchicalStaticMixture(Mixture):
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._mixture
 
+    def on_chunk_size_changed(self) -> None:
+        self._mixture = self.parse_mixture_node(self.chunk_size, self._user_mixture)
+
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         del chunker_index
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..b0fda21 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -57,6 +57,12 @@ class Mixture(ABC):
         """
         raise NotImplementedError("Method must be implemented in subclass!")
 
+    def on_chunk_size_changed(self) -> None:
+        """
+        Function that is called after the chunk size has been changed,
+        e.g., because the mixture is used within another mixture.
+        """
+
     def process_client_feedback(self, feedback: ClientFeedback) -> None:
         """
         Updates the mixture according to the received feedback.
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..efea636 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -39,6 +39,7 @@ class MixtureSchedule(Mixture):
                     f"{idx}({entry.mixture.chunk_size}) does not match the schedule chunk size. Adjusting it."
                 )
                 entry.mixture.chunk_size = self.chunk_size
+                entry.mixture.on_chunk_size_changed()
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..981c9bd 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -35,6 +35,7 @@ class StaticMixture(Mixture):
         # Renormalize to reduce deviance from 1.0 further
         mixture = {key: val / total_weight for key, val in mixture.items()}
 
+        self._user_mixture = mixture
         self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
 
     @staticmethod
@@ -76,5 +77,8 @@ class StaticMixture(Mixture):
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._mixture
 
+    def on_chunk_size_changed(self) -> None:
+        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._user_mixture)
+
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         del chunker_index
-- 
2.43.0


From 5f1dd14cd2d630836ba8680403e5420d6f0dde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 12/33] fix: inform all entries of a mixture schedule about the
 chunker index

---
 mixtera/core/query/mixture/mixture_schedule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index efea636..f7a0e1a 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -55,12 +55,14 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform all mixtures of the schedule about the overall chunker index, since the index
+        is not reported again when the schedule moves on to the next mixture.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
 
     @property
     def current_mixture(self) -> Mixture:
-- 
2.43.0


From d0f27559f8c384f895c0a74387e12156612ef771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 13/33] fix: accept new checkpoints after a checkpoint has been
 rejected

---
 mixtera/core/query/chunk_distributor.py | 31 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 84882f8..130ff5e 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -88,6 +88,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._query_result_persisted = False  # Whether a previous checkpoint has persisted the QueryResult
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -276,18 +277,20 @@ class ChunkDistributor:
             self._nodes_reported.add(key)
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
-                # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
-
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
-
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+                try:
+                    # All nodes have reported; proceed to validation and checkpointing
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                finally:
+                    # Reset for next checkpoint (also if this one has been rejected, since otherwise all later reports
+                    # are rejected), afterwards release the lock, allowing potentially for the next request.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
         return checkpoint_id
 
@@ -375,7 +378,7 @@ class ChunkDistributor:
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
         directory_to_copy = None
-        if self._checkpoint_id_counter.value == 1:
+        if not self._query_result_persisted:
             logger.debug("This is the first checkpoint.")
             if self._cached_query is not None:
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
@@ -383,6 +386,7 @@ class ChunkDistributor:
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
+            self._query_result_persisted = True
             logger.debug("Handled pickling of QueryResult.")
 
         if hasattr(self._query_result, "_mixture") and self._query_result._mixture is not None:
@@ -641,6 +645,7 @@ class ChunkDistributor:
         chunk_distributor._worker_statuses = {}
         chunk_distributor._nodes_reported = set()
         chunk_distributor._checkpoint_id_counter.value = state["_checkpoint_id_counter"]
+        chunk_distributor._query_result_persisted = True
 
         # Update the _checkpoint_id_counter.value to avoid overwriting existing checkpoints
         checkpoint_dirs = chkpnt_dir.parent.glob("chkpnt_*")
-- 
2.43.0


From 1060e79fa592edc18c49be43a02cd53909444a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 14/33] fix: keep the original number of workers when restoring
 a checkpoint

---
 mixtera/core/query/chunk_distributor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 130ff5e..06ed7fa 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -370,6 +370,7 @@ class ChunkDistributor:
             "next_chunk": deepcopy(self._next_chunk),
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
+            "_og_num_workers": self._og_num_workers,
             "_nodes_per_group": self._nodes_per_group,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
@@ -629,7 +630,7 @@ class ChunkDistributor:
         chunk_distributor = cls(
             dp_groups=state["_dp_groups"],
             nodes_per_group=state["_nodes_per_group"],
-            num_workers=state["_num_workers"],
+            num_workers=state.get("_og_num_workers", state["_num_workers"]),
             query_result=query_result,
             job_id=job_id,
         )
-- 
2.43.0


From d888114b762d87b1edf67c5792b21b5102062edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 15/33] fix: create the directory to persist an uncached query
 result in

---
 mixtera/core/query/chunk_distributor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 06ed7fa..b356fdf 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -386,6 +386,7 @@ class ChunkDistributor:
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
+                (chkpnt_dir / "queryresult").mkdir(parents=True, exist_ok=True)
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
             self._query_result_persisted = True
             logger.debug("Handled pickling of QueryResult.")
-- 
2.43.0


From 948b91be69d1a4f9cd6e26ff7ae47d34d4a40c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 16/33] fix: allow checkpoints before all workers have resumed
 from a checkpoint

---
 mixtera/core/query/chunk_distributor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b356fdf..716ae71 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -495,7 +495,11 @@ class ChunkDistributor:
                         next_chunk = (
                             state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]
                         )
-                        if next_chunk >= 0:
+                        if next_chunk >= 0 and next_chunk not in state_to_save["chunk_cache"][dp_group]:
+                            # We continued from a checkpoint and the worker did not request its current chunk again yet.
+                            # Hence, it still has to start with that chunk at the previously checkpointed sample.
+                            logger.debug(f"dp={dp_group}, node={node}, w={worker_id} did not resume yet.")
+                        elif next_chunk >= 0:
                             state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk
                             state_to_save["chunk_usage"][dp_group][next_chunk] = 0
                             chunk = state_to_save["chunk_cache"][dp_group][next_chunk]
-- 
2.43.0


From 35ef31d6ff6cf667865ffb2264896b2b88c42b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 17/33] fix: yield samples of keys whose share of a window is
 zero in best-effort mode

---
 mixtera/core/query/result_chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..afad947 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -438,6 +438,10 @@ class ResultChunk:
                         # Finish current window with best effort, but don't do another one (IF best effort = False)
                         outer_stop = True
                 if nothing_yielded_window:
+                    if items_yielded == 0:
+                        # The window is too small for the share of each key that still has data, i.e., no key is ever
+                        # going to be exhausted. Hence, we ignore their share to yield the remaining samples.
+                        element_counts = [(key, self._window_size) for key, _ in element_counts]
                     break
 
     def _iterate_overall_mixture(
-- 
2.43.0


From 2c5d1769bfb08626442a8a8bbd1de2920e684182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 18/33] fix: do not mistake a sample for the end of a reader's
 stream

---
 mixtera/core/query/result_chunk.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index afad947..a4e40c0 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -34,7 +34,13 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+
+
+class EndOfStream:
+    """Signals the end of the stream of a reader. This is not a string since any string might be a sample."""
+
+
+END_OF_STREAM_OBJECT = EndOfStream()
 
 original_start = mp.Process.start
 
@@ -376,7 +382,7 @@ class ResultChunk:
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-                if instance == END_OF_STREAM_OBJECT:
+                if isinstance(instance, EndOfStream):
                     proc.join()
                     processes_to_remove.append((queue, proc))
                     continue
-- 
2.43.0


From 65c4729bdecfc2a7e6d8ac79ea571c39c7277823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 19/33] fix: do not silently drop samples of a reader process
 that died

---
 mixtera/core/query/result_chunk.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index a4e40c0..897a16e 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -377,8 +377,7 @@ class ResultChunk:
                 except Empty as exc:
                     if not proc.is_alive():
                         proc.join()
-                        processes_to_remove.append((queue, proc))
-                        continue
+                        raise RuntimeError("Reader process died before reaching the end of its stream.") from exc
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-- 
2.43.0


From 4b2661e2b4a3205d06df084066486d82486b26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:10 +0000
Subject: [PATCH 20/33] fix: compute the share of a window exactly

---
 mixtera/core/query/result_chunk.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 897a16e..5bb1d39 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -484,9 +484,8 @@ class ResultChunk:
         assert isinstance(self._mixture, dict), "Mixture must be defined for windowed reading, this should not happen."
 
         # Determine the per-property combination batch counts
-        initial_counts = [
-            (key, int(self._window_size * (value / self._chunk_size))) for key, value in self._mixture.items()
-        ]
+        # We use integer arithmetic since the rounding error of floats might lead to a count that is one too small
+        initial_counts = [(key, self._window_size * value // self._chunk_size) for key, value in self._mixture.items()]
         total_counts = sum(count for _, count in initial_counts)
         remainder = self._window_size - total_counts
 
-- 
2.43.0


From 0412d03cc54392e8d3c47302805533b858bb7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 21/33] fix: report errors of prefetching the first item
 instead of ending the iteration

---
 mixtera/utils/prefetch_iterator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..06d6fdc 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -10,14 +10,15 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.error: BaseException | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
+        except BaseException as e:  # pylint: disable=broad-exception-caught
+            self.error = e  # Includes the StopIteration of an empty iterator. Raised in __next__.
         finally:
             self.prefetch_event.set()
 
@@ -25,9 +26,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
-            if self.first_item is not None:
-                return self.first_item
+            if self.error is not None:
+                raise self.error
 
-            raise StopIteration()
+            return self.first_item  # type: ignore[return-value]
 
         return next(self.iterator)
-- 
2.43.0


From 7579eae9bb9aacdd44710daa1fd6711ffeda34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 22/33] fix: report errors of the tokenization thread instead
 of waiting forever

---
 mixtera/utils/tokenizing_iterator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..eab8c1d 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -128,15 +128,26 @@ class ThreadedTokenizingIterator:
         self.chunk_index = 0
         self.eos = False
         self.yielded_samples = 0
+        self.error: BaseException | None = None
 
         self.lock = threading.Lock()
         self.condition = threading.Condition(self.lock)
-        self.background_thread = threading.Thread(target=self.prefetch_loop)
+        self.background_thread = threading.Thread(target=self._prefetch)
         self.background_thread.start()
 
     def __iter__(self) -> "ThreadedTokenizingIterator":
         return self
 
+    def _prefetch(self) -> None:
+        try:
+            self.prefetch_loop()
+        except BaseException as e:  # pylint: disable=broad-exception-caught
+            # Wake up the consumer, which raises the error instead of waiting for data forever
+            with self.lock:
+                self.error = e
+                self.eos = True
+                self.condition.notify_all()
+
     def prefetch_loop(self) -> None:
         while not self.eos:
             texts = []
@@ -186,6 +197,9 @@ class ThreadedTokenizingIterator:
                     self.yielded_samples += 1
                     return chunk
 
+                if self.error is not None:
+                    raise self.error
+
                 if self.eos:
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
-- 
2.43.0


From 470ae65e3fbabf1506cde029e49673b343cb2b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 23/33] fix: report connections closed between the header and
 the body of a message

---
 mixtera/network/network_utils.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 869a749..6eede49 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -48,6 +48,24 @@ async def read_bytes(num_bytes: int, reader: asyncio.StreamReader, timeout: floa
     return buffer
 
 
+async def read_body(num_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0) -> bytearray:
+    """
+    Asynchronously read the `num_bytes` that follow a size header.
+    Args:
+        num_bytes (int): The exact number of bytes to read.
+        reader (asyncio.StreamReader): The stream reader from which to read.
+        timeout (float): The number of seconds to wait before timing out.
+    Returns:
+        bytearray: The read bytes.
+    Raises:
+        ConnectionError: If the connection is closed after the header.
+        asyncio.TimeoutError: If the timeout is exceeded before `num_bytes` could be read.
+    """
+    if (data := await read_bytes(num_bytes, reader, timeout=timeout)) is None:
+        raise ConnectionError(f"Connection closed while we still have {num_bytes} bytes to read.")
+    return data
+
+
 async def write_bytes_obj(
     data: bytes | None, size_bytes: int, writer: asyncio.StreamWriter, drain: bool = True
 ) -> None:
@@ -106,7 +124,7 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
     if (obj_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
         if obj_size == 0:
             return None
-        return await read_bytes(obj_size, reader, timeout=timeout)
+        return await read_body(obj_size, reader, timeout=timeout)
     return None
 
 
@@ -156,8 +174,7 @@ async def read_utf8_string(size_bytes: int, reader: asyncio.StreamReader, timeou
         asyncio.TimeoutError: If the timeout is exceeded before `num_bytes` could be read.
     """
     if (string_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
-        if (string_data := await read_bytes(string_size, reader, timeout=timeout)) is not None:
-            return string_data.decode("utf-8")
+        return (await read_body(string_size, reader, timeout=timeout)).decode("utf-8")
     return None
 
 
@@ -208,8 +225,7 @@ async def read_pickeled_object(size_bytes: int, reader: asyncio.StreamReader) ->
         asyncio.TimeoutError: If the timeout is exceeded before `num_bytes` could be read.
     """
     if (obj_size := await read_int(size_bytes, reader)) is not None:
-        if (obj_data := await read_bytes(obj_size, reader)) is not None:
-            return dill.loads(obj_data)
+        return dill.loads(await read_body(obj_size, reader))
     return None
 
 
-- 
2.43.0


From 694b08256bd4d76f768f943f6394b46f7d90ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 24/33] fix: tell clients if their feedback could not be
 processed

---
 mixtera/network/server/server.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..0b87358 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -430,9 +430,7 @@ class MixteraServer:
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
-
-        success = True
+        success = self._local_stub.process_feedback(job_id, feedback)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From ce83adf7d358fa6ec7a2283f559b5302b728b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 25/33] fix: do not report the status of a previous
 registration of a job

---
 mixtera/network/server/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 0b87358..436a00d 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -86,6 +86,7 @@ class MixteraServer:
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        self._query_registration.pop(query.job_id, None)  # Otherwise, we report the status of a previous registration.
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-- 
2.43.0


From 15c08dcedb99607fc74ef1c52d8e796dcd85f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 26/33] fix: do not yield an empty line after the last line of
 a file read from the server

---
 mixtera/network/connection/server_connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 27d1435..5d129b8 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -85,7 +85,11 @@ class ServerConnection:
         if (lines := run_async_until_complete(self._fetch_file(file_path))) is None:
             return
 
-        yield from lines.split("\n")
+        split_lines = lines.split("\n")
+        if split_lines[-1] == "":
+            split_lines.pop()  # The newline at the end of a file does not start another line.
+
+        yield from split_lines
 
     @asynccontextmanager
     async def _connect_to_server(
-- 
2.43.0


From 39568ad3c2f47f8ebbf3f4ef6b9260aecf9ef5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 27/33] fix: fetch query results via an API that current DuckDB
 versions provide

---
 mixtera/core/query/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..cba466b 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -108,7 +108,7 @@ class Query:
 
         # First, we need to get the column names from the base query
         columns_query = f"SELECT * FROM ({base_query}) LIMIT 0"
-        columns = conn.execute(columns_query, parameters).fetch_arrow_table().column_names
+        columns = conn.sql(columns_query, params=parameters).columns
 
         # Determine group columns (all columns except 'sample_id')
         group_cols = ["dataset_id", "file_id"] + sorted(
@@ -152,7 +152,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
+            conn.sql(full_query, params=parameters).to_arrow_table(),
             mixture,
             query_log_dir=query_log_dir,
         )
-- 
2.43.0


From 7d3b9518d16a40ab283723c2f86b5417b043d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 28/33] fix: a select without conditions selects everything in
 chains, too

---
 mixtera/core/query/operators/select.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mixtera/core/query/operators/select.py b/mixtera/core/query/operators/select.py
index 77ede55..6eb67c0 100644
--- a/mixtera/core/query/operators/select.py
+++ b/mixtera/core/query/operators/select.py
@@ -107,6 +107,10 @@ class Select(Operator):
                         params.append(value)
             return clauses, params
 
+        # An operator without conditions selects everything, and so does its union with any other operator
+        if self._selects_everything():
+            return "", []
+
         or_clauses = []
         all_params = []
 
@@ -134,6 +138,11 @@ class Select(Operator):
 
         return where_clause, all_params
 
+    def _selects_everything(self) -> bool:
+        return not self.conditions or any(
+            child._selects_everything() for child in self.children if isinstance(child, Select)
+        )
+
     def __str__(self) -> str:
         return f"select<>({self.conditions})"
 
-- 
2.43.0


From 268ea12bc7c11608c17ee1d6fda8796218169e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 29/33] fix: a crash while a query is being cached does not
 break later lookups

---
 mixtera/core/query/query_cache.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..529b8f0 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -44,14 +44,16 @@ class QueryCache:
         db_ver = self._mdc.get_db_version()
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
-        meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
-            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
-
         # Call the to_cache method on query.results to serialize it
         query.results.to_cache(query_dir)
 
+        # Save the metadata. It marks the entry as complete, so it comes last, and appears at once.
+        meta_path = query_dir / "meta.pkl"
+        tmp_path = query_dir / "meta.pkl.tmp"
+        with tmp_path.open("wb") as f:
+            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(tmp_path, meta_path)
+
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From 72ccbcdd1666524a0574fdafe421766ca475fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:53 +0000
Subject: [PATCH 30/33] fix: inform a mixture without new keys about the ids of
 its keys

---
 mixtera/core/query/query_result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 8c72ec7..5e0c422 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -276,6 +276,8 @@ class QueryResult:
             self._mixture = mixture
             self._mixture.process_index(self._chunker_index)
             self._update_key_id_map()
+            # If there are no new keys, the new mixture has not been informed about the ids yet.
+            self._mixture.process_id_map(self._key_id_map)
 
     def _chunk_generator(self) -> Generator[ResultChunk, tuple[Mixture, int], None]:
         """
-- 
2.43.0


From 3929289376c11ea339d875733434959aa376b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 31/33] fix: treat domains that appear between two fits of the
 scaling laws as having too little data

---
 mixtera/core/algo/ado/ado.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..a0bd9b9 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -617,6 +617,11 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
                 self.pi_bar_t_minus_1 = np.concatenate(
                     [self.pi_bar_t_minus_1, np.zeros(size_diff, dtype=self.pi_bar_t_minus_1.dtype)]
                 )
+            if self.scaling_law_params is not None:
+                # As if there was too little data to fit a scaling law, until they are fitted the next time.
+                self.scaling_law_params = np.concatenate(
+                    [self.scaling_law_params, np.full((size_diff, 3), -1, dtype=self.scaling_law_params.dtype)]
+                )
 
         # Keep track of per-step counts and losses
         # Adjust the lengths if necessary
-- 
2.43.0


From 603e852897ec73226d5f5e1ff1f470487bb41e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 32/33] fix: samples without a class label are refused instead
 of getting the label 'None'

---
 mixtera/core/datacollection/index/parser/parser_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/parser_collection.py b/mixtera/core/datacollection/index/parser/parser_collection.py
index def585b..a5993ac 100644
--- a/mixtera/core/datacollection/index/parser/parser_collection.py
+++ b/mixtera/core/datacollection/index/parser/parser_collection.py
@@ -75,11 +75,11 @@ class ImagenetWebDatasetMetadataParser(MetadataParser):
         ]
 
     def parse(self, line_number: int, payload: Any, **kwargs: Optional[dict[Any, Any]]) -> None:
-        class_label = str(payload.get(".cls"))
+        class_label = payload.get(".cls")
         if class_label is None:
             raise RuntimeError("Property 'class_label' is not nullable and is missing.")
 
-        self.add_metadata(sample_id=line_number, class_label=class_label)
+        self.add_metadata(sample_id=line_number, class_label=str(class_label))
 
 
 class FineWebMetadataParser(MetadataParser):
-- 
2.43.0


From 05ca5d2a89ec363bacfab49154d8b09169675476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:07 +0000
Subject: [PATCH 33/33] fix: report a checkpoint as written only after the
 query result it needs is written

---
 mixtera/core/query/chunk_distributor.py | 28 +++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 716ae71..95a2b68 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -89,6 +89,7 @@ class ChunkDistributor:
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
         self._query_result_persisted = False  # Whether a previous checkpoint has persisted the QueryResult
+        self._query_result_process: Any = None  # The process that persists the QueryResult (if it is copied)
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -443,6 +444,8 @@ class ChunkDistributor:
             ),
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
+        if directory_to_copy is not None:
+            self._query_result_process = p
         p.start()
 
     @staticmethod
@@ -477,9 +480,9 @@ class ChunkDistributor:
                 shutil.copytree(directory_to_copy, chkpnt_dir / "queryresult")
                 logger.debug("Directory copied..")
 
-            assert (
-                chkpnt_dir / "queryresult"
-            ).exists(), f"QueryResult directory {(chkpnt_dir / 'queryresult')} should exist now!"
+                assert (
+                    chkpnt_dir / "queryresult"
+                ).exists(), f"QueryResult directory {(chkpnt_dir / 'queryresult')} should exist now!"
 
             checkpoint_path = chkpnt_dir / checkpoint_id
             checkpoint_path.mkdir(parents=True, exist_ok=False)
@@ -560,16 +563,19 @@ class ChunkDistributor:
             # The in-memory copy has been made as the process has started
             return True
 
-        process = checkpoint_info["process"]
+        # No checkpoint can be restored without the QueryResult, which the process of an earlier one might still persist
+        for process in (self._query_result_process, checkpoint_info["process"]):
+            if process is None:
+                continue
 
-        # Check if the process is alive
-        if process.is_alive():
-            return False  # Still in progress
+            # Check if the process is alive
+            if process.is_alive():
+                return False  # Still in progress
 
-        # Process has finished
-        process.join()
-        if process.exitcode != 0:
-            raise RuntimeError(f"Checkpoint {checkpoint_id} failed with exit code {process.exitcode}.")
+            # Process has finished
+            process.join()
+            if process.exitcode != 0:
+                raise RuntimeError(f"Checkpoint {checkpoint_id} failed with exit code {process.exitcode}.")
         return True
 
     @classmethod
-- 
2.43.0

