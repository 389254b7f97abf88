From 1e4ce251a9472e929925836f2ca9f97c4babc048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 01/46] fix: index() no longer shares or mutates the caller's
 vocabulary

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 2ca7691..08e2e8e 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -468,6 +468,9 @@ class BM25:
                     "Internal error: Found an invalid corpus object, indicating `_inferred_corpus_object` is not working correctly."
                 )
 
+            # copy the vocabulary: it belongs to the caller (or to a tokenizer), who
+            # may keep updating it, and we may add the empty token to it below
+            vocab_dict = dict(vocab_dict)
             unique_token_ids = list(vocab_dict.values())
             scores = self.build_index_from_ids(
                 unique_token_ids=unique_token_ids,
-- 
2.43.0


From 4c37c96835c05ed8a96e117875f3df8e32b32703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 02/46] fix: indexing a corpus without any token fails in max()

---
 bm25s/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 08e2e8e..b73b6e0 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -485,7 +485,7 @@ class BM25:
                 pass
             
             if "" not in vocab_dict:
-                vocab_dict[""] = max(vocab_dict.values()) + 1
+                vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From a39f93420e296e8b26506a34ed8a7b5fc1011af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 03/46] fix: vocabulary tokens without documents break or
 distort idf (division by zero, constant score)

---
 bm25s/scoring.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bm25s/scoring.py b/bm25s/scoring.py
index 4b567e7..39fa51f 100644
--- a/bm25s/scoring.py
+++ b/bm25s/scoring.py
@@ -53,7 +53,9 @@ def _build_idf_array(
     idf_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
-        idf_array[token_id] = compute_idf_fn(df, N=n_docs)
+        # a token of the vocabulary that is in no document does not score
+        if df > 0:
+            idf_array[token_id] = compute_idf_fn(df, N=n_docs)
 
     return idf_array
 
@@ -87,6 +89,10 @@ def _build_nonoccurrence_array(
     nonoccurrence_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        # a token of the vocabulary that is in no document does not score
+        if df == 0:
+            continue
+
         idf = compute_idf_fn(df, N=n_docs)
         tfc = calculate_tfc_fn(
             tf_array=0, l_d=l_d, l_avg=l_avg, k1=k1, b=b, delta=delta
-- 
2.43.0


From 836d1fd6e3bbfb038685d90ccf1c316094303c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 04/46] fix: a failed index() call overwrites the
 non-occurrence scores of the previous index

---
 bm25s/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index b73b6e0..7296478 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -313,7 +313,7 @@ class BM25:
 
         # preliminary: if the method is one of BM25L or BM25+, we need to calculate the non-occurrence array
         if self.method in self.methods_requiring_nonoccurrence:
-            self.nonoccurrence_array = _build_nonoccurrence_array(
+            nonoccurrence_array = _build_nonoccurrence_array(
                 doc_frequencies=doc_frequencies,
                 n_docs=n_docs,
                 compute_idf_fn=_select_idf_scorer(self.idf_method),
@@ -326,7 +326,7 @@ class BM25:
                 dtype=self.dtype,
             )
         else:
-            self.nonoccurrence_array = None
+            nonoccurrence_array = None
 
         # Step 2: Calculate the idf for each token using the document frequencies
         idf_array = _build_idf_array(
@@ -350,7 +350,7 @@ class BM25:
             dtype=self.dtype,
             int_dtype=self.int_dtype,
             method=self.method,
-            nonoccurrence_array=self.nonoccurrence_array,
+            nonoccurrence_array=nonoccurrence_array,
         )
 
         # Now, we build the sparse matrix
@@ -369,6 +369,8 @@ class BM25:
             "indptr": indptr,
             "num_docs": n_docs,
         }
+        # only now that nothing can fail anymore, replace the previous array
+        self.nonoccurrence_array = nonoccurrence_array
         return scores
 
     def build_index_from_tokens(
-- 
2.43.0


From 0c9966794d9a604ae9a6ea97200b63b2abbf6f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 05/46] fix: the empty token created by index() has no column,
 so querying it fails

---
 bm25s/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7296478..e135582 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -488,6 +488,16 @@ class BM25:
             
             if "" not in vocab_dict:
                 vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
+                # the empty token is in no document: give it an empty column
+                n_missing = vocab_dict[""] + 2 - len(scores["indptr"])
+                if n_missing > 0:
+                    scores["indptr"] = np.pad(
+                        scores["indptr"], (0, n_missing), mode="edge"
+                    )
+                    if self.nonoccurrence_array is not None:
+                        self.nonoccurrence_array = np.pad(
+                            self.nonoccurrence_array, (0, n_missing)
+                        )
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From 866b44762eec6511d2663f9b9d8c4e05c54bd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 06/46] fix: indexing lists of token IDs renumbers the IDs when
 they have gaps

---
 bm25s/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index e135582..21a46ba 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -386,6 +386,10 @@ class BM25:
             leave_progress=leave_progress,
             desc="BM25S Create Vocab",
         )
+        if len(unique_tokens) > 0 and all(isinstance(t, int) for t in unique_tokens):
+            # the tokens are already token IDs, which queries refer to: keep them
+            unique_tokens = range(max(unique_tokens) + 1)
+
         vocab_dict = {token: i for i, token in enumerate(unique_tokens)}
         unique_token_ids = [vocab_dict[token] for token in unique_tokens]
 
-- 
2.43.0


From 39a1fa37c25bcdabbd7d7eccdcda27a311cb6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 07/46] fix: a vocabulary with integer tokens cannot be saved
 when orjson is installed

---
 bm25s/utils/json_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 683bf88..26a868e 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -13,9 +13,9 @@ def dumps_with_builtin(d: dict, **kwargs) -> str:
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
         # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
     # Ignore other kwargs not supported by orjson
-    return orjson.dumps(d).decode("utf-8")
+    return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
 
 if ORJSON_AVAILABLE:
     def dumps(d: dict, **kwargs) -> str:
-- 
2.43.0


From 3e48fadb558aff543bea0f3e44a118071b05b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 08/46] fix: non-ASCII characters are saved as invalid JSON
 escapes with orjson

---
 bm25s/utils/json_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 26a868e..6ab3bd7 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -12,8 +12,10 @@ def dumps_with_builtin(d: dict, **kwargs) -> str:
 
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
-        # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        # orjson does not support `ensure_ascii=True`, so we leave non-ASCII
+        # characters to the builtin library, which escapes them as valid JSON
+        s = orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
+        return s if s.isascii() else json.dumps(d)
     # Ignore other kwargs not supported by orjson
     return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
 
-- 
2.43.0


From a4e0e684996e52bebb09d34d0c358cdf398223cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 09/46] fix: indexing a generator of documents silently builds
 an empty index

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 21a46ba..e1f419f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -458,6 +458,9 @@ class BM25:
 
         if inferred_corpus_obj == "tokens":
             logger.debug(msg="Building index from tokens")
+            # we iterate over the corpus more than once, which a generator does not allow
+            if not isinstance(corpus, (list, tuple)):
+                corpus = list(corpus)
             scores, vocab_dict = self.build_index_from_tokens(
                 corpus, leave_progress=leave_progress, show_progress=show_progress
             )
-- 
2.43.0


From 0e146e42691a6fde315176322a768dca7e5e1e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 10/46] fix: a batch starting with an empty query is not
 recognized (IDs not filtered, refused by numba)

---
 bm25s/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index e1f419f..ba8b26b 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -94,13 +94,13 @@ def is_list_of_list_of_type(obj, type_=int):
     if len(obj) == 0:
         return False
 
-    first_elem = obj[0]
+    # empty lists have no type: we look at the first list that is not empty
+    first_elem = next(
+        (elem for elem in obj if not isinstance(elem, list) or len(elem) > 0), None
+    )
     if not isinstance(first_elem, list):
         return False
 
-    if len(first_elem) == 0:
-        return False
-
     first_token = first_elem[0]
     if not isinstance(first_token, type_):
         return False
@@ -792,6 +792,11 @@ class BM25:
                 query_tokens_ids = query_tokens
             elif is_list_of_list_of_type(query_tokens, type_=str):
                 query_tokens_ids = [self.get_tokens_ids(q) for q in query_tokens]
+            elif len(query_tokens) > 0 and all(
+                isinstance(q, list) and len(q) == 0 for q in query_tokens
+            ):
+                # every query is empty
+                query_tokens_ids = query_tokens
             else:
                 raise ValueError(
                     "The query_tokens must be a list of list of tokens (str for stemmed words, int for token ids matching corpus) or a tuple of two lists: the first list is the list of unique token IDs, and the second list is the list of token IDs for each document."
-- 
2.43.0


From 795b55d5acd36c5cd5c5326ea3b308d1d19ddbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 11/46] fix: the numba backend refuses a tuple of token lists,
 which the numpy backend accepts

---
 bm25s/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index ba8b26b..b5c429b 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -787,6 +787,10 @@ class BM25:
             backend_selection = (
                 "numba" if backend_selection == "auto" else backend_selection
             )
+            # a tuple of lists of tokens is a batch of queries too
+            if isinstance(query_tokens, tuple):
+                query_tokens = list(query_tokens)
+
             # if is list of list of int
             if is_list_of_list_of_type(query_tokens, type_=int):
                 query_tokens_ids = query_tokens
-- 
2.43.0


From 8b43e9168dccd140056158c3bc18456fc9fe4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 12/46] fix: numba retrieval with k above the number of
 documents crashes or repeats documents

---
 bm25s/numba/retrieve_utils.py | 7 +++++++
 bm25s/numba/selection.py      | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index c7fee7e..5add7c0 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -99,6 +99,13 @@ def _retrieve_numba_functional(
     else:
         pass
 
+    if k > scores["num_docs"]:
+        raise ValueError(
+            f"k of {k} is larger than the number of available scores"
+            f", which is {scores['num_docs']} (corpus size should be larger than top-k)."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
+
     if n_threads == -1:
         n_threads = os.cpu_count()
     elif n_threads == 0:
diff --git a/bm25s/numba/selection.py b/bm25s/numba/selection.py
index e851e35..6cfb29e 100644
--- a/bm25s/numba/selection.py
+++ b/bm25s/numba/selection.py
@@ -129,6 +129,12 @@ def topk(query_scores, k, backend="numba", sorted=True):
     This function is used to retrieve the top-k results for a single query. It will only work
     on a 1-dimensional array of scores.
     """
+    if k > len(query_scores):
+        raise ValueError(
+            f"k of {k} is larger than the number of available scores"
+            f", which is {len(query_scores)} (corpus size should be larger than top-k)."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
     if backend not in ["numba"]:
         raise ValueError(
             "Invalid backend. Only 'numba' is supported."
-- 
2.43.0


From 913aa5db819b65bfd55e68abccf2691562fc071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 13/46] fix: the numba backend ignores the weight mask

---
 bm25s/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index b5c429b..bdfe75c 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -821,6 +821,7 @@ class BM25:
                 dtype=self.dtype,
                 int_dtype=self.int_dtype,
                 nonoccurrence_array=self.nonoccurrence_array,
+                weight_mask=weight_mask,
             )
 
             if return_as == "tuple":
-- 
2.43.0


From be8b8f99e79b95115488aadcf7a3c8c6e519ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 14/46] fix: the weight mask does not apply to the
 non-occurrence scores of bm25l and bm25+

---
 bm25s/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index bdfe75c..12afa6b 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -550,16 +550,16 @@ class BM25:
             dtype=dtype,
         )
 
-        if weight_mask is not None:
-            # multiply the scores by the weight mask
-            scores *= weight_mask
-
         # if there's a non-occurrence array, we need to add the non-occurrence score
         # back to the scores
         if self.nonoccurrence_array is not None:
             nonoccurrence_scores = self.nonoccurrence_array[query_tokens_ids].sum()
             scores += nonoccurrence_scores
 
+        if weight_mask is not None:
+            # multiply the scores by the weight mask
+            scores *= weight_mask
+
         return scores
 
     def get_scores(
-- 
2.43.0


From 033303f3146303424d21a0d0e39929af638cf079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 15/46] fix: jax selection rounds float64 scores to float32 and
 ranks by the rounded scores

---
 bm25s/selection.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bm25s/selection.py b/bm25s/selection.py
index cdf58d3..d929f9f 100644
--- a/bm25s/selection.py
+++ b/bm25s/selection.py
@@ -2,6 +2,7 @@ import numpy as np
 
 try:
     import jax.lax
+    import jax.experimental
 except ImportError:
     JAX_IS_AVAILABLE = False
 else:
@@ -38,7 +39,16 @@ def _topk_numpy(query_scores, k, sorted):
 
 
 def _topk_jax(query_scores, k):
-    topk_scores, topk_indices = jax.lax.top_k(query_scores, k)
+    if np.asarray(query_scores).dtype == np.float64:
+        # unless told otherwise, JAX silently rounds the scores to float32
+        if hasattr(jax, "enable_x64"):
+            x64_context = jax.enable_x64(True)
+        else:
+            x64_context = jax.experimental.enable_x64()
+        with x64_context:
+            topk_scores, topk_indices = jax.lax.top_k(query_scores, k)
+    else:
+        topk_scores, topk_indices = jax.lax.top_k(query_scores, k)
     topk_scores = np.asarray(topk_scores)
     topk_indices = np.asarray(topk_indices)
 
-- 
2.43.0


From f0c5c93db5662f5730cdc284d1b93b22e4d91e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 16/46] fix: retrieving documents that are lists or tuples
 fails

---
 bm25s/__init__.py             |  2 +-
 bm25s/numba/retrieve_utils.py |  4 +++-
 bm25s/utils/corpus.py         | 18 ++++++++++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 12afa6b..0120fd9 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -872,7 +872,7 @@ class BM25:
             else:
                 index_flat = indices.flatten().tolist()
                 results = [corpus[i] for i in index_flat]
-                retrieved_docs = np.array(results).reshape(indices.shape)
+                retrieved_docs = utils.corpus.documents_to_array(results, indices.shape)
 
         if return_as == "tuple":
             return Results(documents=retrieved_docs, scores=scores)
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 5add7c0..e4746a5 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -150,7 +150,9 @@ def _retrieve_numba_functional(
         else:
             index_flat = retrieved_indices.flatten().tolist()
             results = [corpus[i] for i in index_flat]
-            retrieved_docs = np.array(results).reshape(retrieved_indices.shape)
+            retrieved_docs = utils.corpus.documents_to_array(
+                results, retrieved_indices.shape
+            )
 
     if return_as == "tuple":
         return retrieved_docs, retrieved_scores
diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index b06ebba..b0a9f4a 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -65,6 +65,21 @@ def load_mmindex(path, encoding="utf-8"):
         return json_functions.loads(f.read())
 
 
+def documents_to_array(documents, shape):
+    """
+    Arrange a flat list of documents in an array of the given shape, one per cell.
+    """
+    if any(isinstance(doc, (list, tuple, np.ndarray)) for doc in documents):
+        # numpy would take the content of the documents for more dimensions
+        array = np.empty(len(documents), dtype=object)
+        for i, doc in enumerate(documents):
+            array[i] = doc
+    else:
+        array = np.array(documents)
+
+    return array.reshape(shape)
+
+
 # now we can jump to any line in the file thanks to the index and mmap
 def get_line(
     path,
@@ -174,8 +189,7 @@ class JsonlCorpus:
             # was a list, and then reshape it back to the original shape
             index_flat = index.flatten().tolist()
             results = [self.__getitem__(i) for i in index_flat]
-            reshaped = np.array(results).reshape(index.shape)
-            return reshaped
+            return documents_to_array(results, index.shape)
         
         raise TypeError("Invalid index type")
 
-- 
2.43.0


From 123ca4329a8c610d8ab1bed409203bf0ad99ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 17/46] fix: corpus files without extension or with the same
 stem share or misplace their index file

---
 bm25s/utils/corpus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index b0a9f4a..2e6b4fb 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -21,7 +21,10 @@ from . import json_functions
 
 def change_extension(path, new_extension):
     path = str(path)
-    return path.rpartition(".")[0] + new_extension
+    root, extension = os.path.splitext(path)
+    # only ".jsonl" is replaced, so that files that differ by their extension (or have
+    # none, with dots elsewhere in the path) do not end up with the same name
+    return (root if extension == ".jsonl" else path) + new_extension
 
 
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
-- 
2.43.0


From fe7435b972f38a9469c3f099c08c171256685e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 18/46] fix: concurrent reads of a JsonlCorpus move each
 other's position

---
 bm25s/utils/corpus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 2e6b4fb..7c11622 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -105,8 +105,11 @@ def get_line(
     else:
         CLOSE_MMAP = False
 
-    mmap_obj.seek(mmindex[index])
-    result = mmap_obj.readline().decode(encoding)
+    # do not use the position of the map, which is shared between threads
+    start = mmindex[index]
+    end = mmap_obj.find(b"\n", start)
+    end = len(mmap_obj) if end == -1 else end + 1
+    result = mmap_obj[start:end].decode(encoding)
 
     if CLOSE_MMAP:
         mmap_obj.close()
-- 
2.43.0


From 0996f34aa5121edc18d0509c56639ee1d6b29ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 19/46] fix: saving over a directory that is memory-mapped
 crashes or corrupts the mapped retriever

---
 bm25s/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 0120fd9..381a374 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -940,6 +940,11 @@ class BM25:
         indices_path = save_dir / indices_name
         indptr_path = save_dir / indptr_name
 
+        # Do not overwrite existing files in place: they may be memory-mapped, by this
+        # retriever or by another one, which keeps using the removed file
+        for name in (data_name, indices_name, indptr_name, nnoc_name):
+            (save_dir / name).unlink(missing_ok=True)
+
         np.save(data_path, self.scores["data"], allow_pickle=allow_pickle)
         np.save(indices_path, self.scores["indices"], allow_pickle=allow_pickle)
         np.save(indptr_path, self.scores["indptr"], allow_pickle=allow_pickle)
@@ -975,6 +980,9 @@ class BM25:
         corpus = corpus if corpus is not None else self.corpus
 
         if corpus is not None:
+            # the corpus may be memory-mapped too
+            (save_dir / corpus_name).unlink(missing_ok=True)
+
             with open(save_dir / corpus_name, "wt", encoding="utf-8") as f:
                 # if it's not an iterable, we skip
                 if not isinstance(corpus, Iterable):
-- 
2.43.0


From 24ad22e131350b80d016dd51d239f68f248f2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 20/46] fix: arrays saved under custom names without .npy
 cannot be loaded

---
 bm25s/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 381a374..9e7ef57 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -945,14 +945,19 @@ class BM25:
         for name in (data_name, indices_name, indptr_name, nnoc_name):
             (save_dir / name).unlink(missing_ok=True)
 
-        np.save(data_path, self.scores["data"], allow_pickle=allow_pickle)
-        np.save(indices_path, self.scores["indices"], allow_pickle=allow_pickle)
-        np.save(indptr_path, self.scores["indptr"], allow_pickle=allow_pickle)
+        # (given a file name, np.save would append ".npy" to names without it)
+        with open(data_path, "wb") as f:
+            np.save(f, self.scores["data"], allow_pickle=allow_pickle)
+        with open(indices_path, "wb") as f:
+            np.save(f, self.scores["indices"], allow_pickle=allow_pickle)
+        with open(indptr_path, "wb") as f:
+            np.save(f, self.scores["indptr"], allow_pickle=allow_pickle)
 
         # save nonoccurrence array if it exists
         if self.nonoccurrence_array is not None:
             nnm_path = save_dir / nnoc_name
-            np.save(nnm_path, self.nonoccurrence_array, allow_pickle=allow_pickle)
+            with open(nnm_path, "wb") as f:
+                np.save(f, self.nonoccurrence_array, allow_pickle=allow_pickle)
 
         # Save the vocab dictionary
         vocab_path = save_dir / vocab_name
-- 
2.43.0


From f87939fdc96f6f6707818d851884b513ed1bc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 21/46] fix: an interrupted save over an existing index can be
 loaded as a mix of the two

---
 bm25s/__init__.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 9e7ef57..81d428f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -940,6 +940,11 @@ class BM25:
         indices_path = save_dir / indices_name
         indptr_path = save_dir / indptr_name
 
+        # The parameters are removed first and written last, so that a directory in which
+        # saving was interrupted cannot be loaded as a mix of two indexes
+        params_path = save_dir / params_name
+        params_path.unlink(missing_ok=True)
+
         # Do not overwrite existing files in place: they may be memory-mapped, by this
         # retriever or by another one, which keeps using the removed file
         for name in (data_name, indices_name, indptr_name, nnoc_name):
@@ -965,23 +970,6 @@ class BM25:
         with open(vocab_path, "wt", encoding="utf-8") as f:
             f.write(json_functions.dumps(self.vocab_dict, ensure_ascii=False))
 
-        # Save the parameters
-        params_path = save_dir / params_name
-        params = dict(
-            k1=self.k1,
-            b=self.b,
-            delta=self.delta,
-            method=self.method,
-            idf_method=self.idf_method,
-            dtype=self.dtype,
-            int_dtype=self.int_dtype,
-            num_docs=self.scores["num_docs"],
-            version=__version__,
-            backend=self.backend,
-        )
-        with open(params_path, "w") as f:
-            json.dump(params, f, indent=4)
-
         corpus = corpus if corpus is not None else self.corpus
 
         if corpus is not None:
@@ -1017,6 +1005,22 @@ class BM25:
             mmidx = utils.corpus.find_newline_positions(save_dir / corpus_name)
             utils.corpus.save_mmindex(mmidx, path=save_dir / corpus_name)
 
+        # Save the parameters
+        params = dict(
+            k1=self.k1,
+            b=self.b,
+            delta=self.delta,
+            method=self.method,
+            idf_method=self.idf_method,
+            dtype=self.dtype,
+            int_dtype=self.int_dtype,
+            num_docs=self.scores["num_docs"],
+            version=__version__,
+            backend=self.backend,
+        )
+        with open(params_path, "w") as f:
+            json.dump(params, f, indent=4)
+
     def load_scores(
         self,
         save_dir,
-- 
2.43.0


From 7ea0f406182e0c5dcb630f7ae341e25bdebad1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 22/46] fix: load_qrels as a dictionary keeps only the last
 judgement of each query

---
 bm25s/utils/beir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e14fe68..97726e2 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -271,7 +271,10 @@ def load_qrels(
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-        qrels = {qid: {cid: score} for qid, cid, score in qrels}
+        qrels_dict = {}
+        for qid, cid, score in qrels:
+            qrels_dict.setdefault(qid, {})[cid] = score
+        qrels = qrels_dict
 
     return qrels
 
-- 
2.43.0


From 4b87324728e1f803db1161fd6a189e427228cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 23/46] fix: loading a corpus or queries without the optional
 metadata field fails

---
 bm25s/utils/beir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 97726e2..2c98dc8 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -208,7 +208,7 @@ def load_jsonl(
                 line["title"] = line.get("title")
             if remove is not None:
                 for key in remove:
-                    del line[key]
+                    line.pop(key, None)
             corpus.append(line)
             # update the progress bar wrt the number of bytes read
 
-- 
2.43.0


From 38bebf1dba54003175db386dfaad4d09f870fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 24/46] fix: an interrupted merge of cqadupstack is taken as
 complete

---
 bm25s/utils/beir.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 2c98dc8..84581ea 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -53,7 +53,9 @@ def merge_cqa_dupstack(data_path):
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w") as f:
+        # write to a temporary file, so that an interrupted merge is not taken as complete
+        tmp_path = corpus_path.with_suffix(".tmp")
+        with open(tmp_path, "w") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -68,12 +70,15 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        tmp_path.replace(corpus_path)
 
     # now, do the same for queries.jsonl
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
         queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w") as f:
+        # write to a temporary file, so that an interrupted merge is not taken as complete
+        tmp_path = queries_path.with_suffix(".tmp")
+        with open(tmp_path, "w") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -88,6 +93,7 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        tmp_path.replace(queries_path)
 
     # now, do the same for qrels/test.tsv
     qrels_path = data_path / "qrels" / "test.tsv"
@@ -95,7 +101,9 @@ def merge_cqa_dupstack(data_path):
 
     if not qrels_path.exists():
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w") as f:
+        # write to a temporary file, so that an interrupted merge is not taken as complete
+        tmp_path = qrels_path.with_suffix(".tmp")
+        with open(tmp_path, "w") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
@@ -115,6 +123,7 @@ def merge_cqa_dupstack(data_path):
                         cid = f"{corpus_name}_{cid}"
                         # write back to file
                         f.write(f"{qid}\t{cid}\t{score}\n")
+        tmp_path.replace(qrels_path)
 
 
 def download_dataset(
-- 
2.43.0


From 5263f13cde8a5b0af9ffe67d8d5e09d203e8a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 25/46] fix: stopping a paused timer counts the time before the
 pause twice, and the pause

---
 bm25s/utils/benchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 6edf651..120da92 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -49,7 +49,8 @@ class Timer:
         stop_time = time.monotonic()
         r = self.results[name]
         r["stopped"] = stop_time
-        r["elapsed"] += stop_time - r.pop("last")
+        # a paused timer has no "last": the time since the pause does not count
+        r["elapsed"] += stop_time - r.pop("last", stop_time)
 
         if show:
             self.show(name, n_total=n_total)
@@ -66,7 +67,7 @@ class Timer:
         paused_time = time.monotonic()
         r = self.results[name]
 
-        r["elapsed"] += paused_time - r["last"]
+        r["elapsed"] += paused_time - r.pop("last", paused_time)
 
     def resume(self, name):
         # if not self.has_started(name):
-- 
2.43.0


From d3759c0fa06f0f57a28685ff9137b4f0e6751427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 26/46] fix: the empty token gets the ID of another token when
 a word was stemmed to the empty string

---
 bm25s/tokenization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 2308e01..5dfa7e9 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -222,7 +222,11 @@ class Tokenizer:
         using_stemmer = self.stemmer is not None
             
         if allow_empty is True and update_vocab is True and "" not in self.word_to_id:
-            idx = max(self.word_to_id.values(), default=-1) + 1
+            if using_stemmer and "" in self.stem_to_sid:
+                # a word was stemmed to the empty string before
+                idx = self.stem_to_sid[""]
+            else:
+                idx = max(self.word_to_id.values(), default=-1) + 1
             self.word_to_id[""] = idx
             
             if using_stemmer:
-- 
2.43.0


From ce42709730fd3d7a5a8dea3b9bd707e75045e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 27/46] fix: scoring negative token IDs returns the scores of
 other tokens

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 81d428f..26d216b 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -541,6 +541,9 @@ class BM25:
                 "This likely means that the query contains tokens that are not in the index."
             )
 
+        if query_tokens_ids.min(initial=0) < 0:
+            raise ValueError("The token IDs in the query must not be negative.")
+
         scores = self._compute_relevance_from_scores(
             data=data,
             indptr=indptr,
-- 
2.43.0


From 0cccc867da498ed1a90ea02df57059d07936e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 28/46] fix: an interrupted save of a corpus leaves the line
 index of the previous corpus in use

---
 bm25s/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 26d216b..7ce8180 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -976,7 +976,11 @@ class BM25:
         corpus = corpus if corpus is not None else self.corpus
 
         if corpus is not None:
-            # the corpus may be memory-mapped too
+            # the corpus may be memory-mapped too, and its line index becomes obsolete
+            mmindex_path = utils.corpus.change_extension(
+                save_dir / corpus_name, ".mmindex.json"
+            )
+            Path(mmindex_path).unlink(missing_ok=True)
             (save_dir / corpus_name).unlink(missing_ok=True)
 
             with open(save_dir / corpus_name, "wt", encoding="utf-8") as f:
-- 
2.43.0


From b04b259f0fc05a9f502e30cd5e24e7357b72f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 29/46] fix: numba retrieval fails with more threads than numba
 was started with

---
 bm25s/numba/retrieve_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index e4746a5..7bb6826 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -78,7 +78,7 @@ def _retrieve_numba_functional(
     int_dtype="int32",
     weight_mask=None,
 ):  
-    from numba import get_num_threads, set_num_threads, njit
+    from numba import config, get_num_threads, set_num_threads, njit
 
 
     if backend_selection != "numba":
@@ -111,6 +111,10 @@ def _retrieve_numba_functional(
     elif n_threads == 0:
         n_threads = 1
     
+    # numba refuses more threads than it was started with (e.g. os.cpu_count() when
+    # the process may only use some of the CPUs)
+    n_threads = min(n_threads, config.NUMBA_NUM_THREADS)
+
     # get og thread count
     og_n_threads = get_num_threads()
     set_num_threads(n_threads)
-- 
2.43.0


From 43ca9fa4919014c7dc1326dbba9f7878d285e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 30/46] fix: numba retrieval fails when the weight mask has
 another dtype than the scores

---
 bm25s/numba/retrieve_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 7bb6826..b16af5a 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -50,7 +50,8 @@ def _retrieve_internal_jitted_parallel(
             scores_single += nonoccurrence_scores
 
         if weight_mask is not None:
-            scores_single = scores_single * weight_mask
+            # in place: the mask may have another dtype than the scores
+            scores_single *= weight_mask
         
         topk_scores_sing, topk_indices_sing = _numba_sorted_top_k(
             scores_single, k=k, sorted=sorted
-- 
2.43.0


From d26c5da995a6f8211d61e601eeea6178b07ee3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 31/46] fix: an empty query among queries of token IDs is
 answered differently than alone

---
 bm25s/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7ce8180..f7ff779 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -724,7 +724,8 @@ class BM25:
                     for token_id in query
                     if token_id in self.unique_token_ids_set
                 ]
-                if len(query_filtered) == 0:
+                # an empty query is left as it is: it scores zero for all documents
+                if len(query_filtered) == 0 and len(query) > 0:
                     if "" not in self.vocab_dict:
                         raise ValueError(
                             "The query does not contain any tokens that are in the vocabulary. "
-- 
2.43.0


From 6ec05ccee33e1e6f1c4c089ee5b4beb99c5d8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 32/46] fix: documents of different types are converted to
 strings when they are retrieved

---
 bm25s/utils/corpus.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 7c11622..9ce6a48 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -72,13 +72,17 @@ def documents_to_array(documents, shape):
     """
     Arrange a flat list of documents in an array of the given shape, one per cell.
     """
-    if any(isinstance(doc, (list, tuple, np.ndarray)) for doc in documents):
-        # numpy would take the content of the documents for more dimensions
+    # numpy would take the content of lists for more dimensions
+    nested = any(isinstance(doc, (list, tuple, np.ndarray)) for doc in documents)
+    mixed = len(set(map(type, documents))) > 1
+
+    array = None if nested or mixed else np.array(documents)
+
+    # nor should it convert documents to a common type, or shorten or round them
+    if array is None or array.tolist() != documents:
         array = np.empty(len(documents), dtype=object)
         for i, doc in enumerate(documents):
             array[i] = doc
-    else:
-        array = np.array(documents)
 
     return array.reshape(shape)
 
-- 
2.43.0


From ae270703eddef7d9e5e7b9450880de2e530fb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 33/46] fix: queries without any known token fail on an index
 without vocabulary

---
 bm25s/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index f7ff779..07d9b2f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -535,7 +535,8 @@ class BM25:
 
         max_token_id = int(query_tokens_ids.max(initial=0))
 
-        if max_token_id >= len(indptr) - 1:
+        # (without any token there is nothing to check, e.g. if the index has no token either)
+        if len(query_tokens_ids) > 0 and max_token_id >= len(indptr) - 1:
             raise ValueError(
                 f"The maximum token ID in the query ({max_token_id}) is higher than the number of tokens in the index."
                 "This likely means that the query contains tokens that are not in the index."
-- 
2.43.0


From 08c6778df916839035231a610a3d4637bd0193ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 34/46] fix: merging results with documents of different types
 converts numbers to strings

---
 bm25s/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 07d9b2f..cf57e60 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -71,7 +71,11 @@ class Results(NamedTuple):
         """
         Merge a list of Results objects into a single Results object.
         """
-        documents = np.concatenate([r.documents for r in results], axis=0)
+        documents = [r.documents for r in results]
+        if len({np.asarray(docs).dtype.kind for docs in documents}) > 1:
+            # numpy would convert the documents to a common type, e.g. numbers to strings
+            documents = [np.asarray(docs).astype(object) for docs in documents]
+        documents = np.concatenate(documents, axis=0)
         scores = np.concatenate([r.scores for r in results], axis=0)
         return cls(documents=documents, scores=scores)
 
-- 
2.43.0


From 21a33f42002a2bbf447db32c7bcaf417657fd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:46 +0000
Subject: [PATCH 35/46] fix: a corpus file without extension shares its index
 file with the .jsonl file of the same name

---
 bm25s/utils/corpus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 9ce6a48..c0e3bc9 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -24,7 +24,9 @@ def change_extension(path, new_extension):
     root, extension = os.path.splitext(path)
     # only ".jsonl" is replaced, so that files that differ by their extension (or have
     # none, with dots elsewhere in the path) do not end up with the same name
-    return (root if extension == ".jsonl" else path) + new_extension
+    if extension == ".jsonl":
+        return root + new_extension
+    return path + "-" + new_extension.lstrip(".")
 
 
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
-- 
2.43.0


From 22987962dfd24b95064e446d7e973049272ae4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 36/46] fix: the tokenizer keeps stopwords that are in its
 vocabulary

---
 bm25s/tokenization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 5dfa7e9..942ba8e 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -246,14 +246,14 @@ class Tokenizer:
             
             doc_ids = []
             for word in splitted_words:
+                if using_stopwords and word in stopwords_set:
+                    continue
+
                 if word in self.word_to_id:
                     wid = self.word_to_id[word]
                     doc_ids.append(wid)
                     continue
 
-                if using_stopwords and word in stopwords_set:
-                    continue
-
                 # We are always updating the word_to_stem mapping since even new
                 # words that we have never seen before can be stemmed, with the
                 # possibility that the stemmed ID is already in the stem_to_sid
-- 
2.43.0


From 80116c3c5d0b1e8ace76a55a3a4affe0eba081d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 37/46] fix: the README of an upload cannot be written if the
 locale has no emoji

---
 bm25s/hf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index 33955a2..f326b3f 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -563,7 +563,7 @@ class BM25HF(BM25):
                 idf_method=self.idf_method,
             )
 
-            with open(os.path.join(save_dir, "README.md"), "w") as f:
+            with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
                 f.write(results)
 
         # push content of the temporary directory to the repo
-- 
2.43.0


From a7211497bca3d478a3e6b713474befdab9ca30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 38/46] fix: a failed upload leaves its temporary directory
 behind

---
 bm25s/hf.py | 128 +++++++++++++++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 61 deletions(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index f326b3f..73f1513 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -298,19 +298,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_vocab(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_vocab(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -410,19 +412,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_stopwords(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_stopwords(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -542,42 +546,44 @@ class BM25HF(BM25):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
-        # if we include the README, write it to the directory
-        if include_readme:
-            num_docs = self.scores["num_docs"]
-            num_tokens = self.scores["data"].shape[0]
-            avg_tokens_per_doc = round(num_tokens / num_docs, 2)
-
-            results = README_TEMPLATE.format(
-                username=username,
-                version=__version__,
-                repo_name=repo_name,
-                num_docs=num_docs,
-                num_tokens=num_tokens,
-                avg_tokens_per_doc=avg_tokens_per_doc,
-                k1=self.k1,
-                b=self.b,
-                delta=self.delta,
-                method=self.method,
-                idf_method=self.idf_method,
+        try:
+            self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
+            # if we include the README, write it to the directory
+            if include_readme:
+                num_docs = self.scores["num_docs"]
+                num_tokens = self.scores["data"].shape[0]
+                avg_tokens_per_doc = round(num_tokens / num_docs, 2)
+
+                results = README_TEMPLATE.format(
+                    username=username,
+                    version=__version__,
+                    repo_name=repo_name,
+                    num_docs=num_docs,
+                    num_tokens=num_tokens,
+                    avg_tokens_per_doc=avg_tokens_per_doc,
+                    k1=self.k1,
+                    b=self.b,
+                    delta=self.delta,
+                    method=self.method,
+                    idf_method=self.idf_method,
+                )
+
+                with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
+                    f.write(results)
+
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
             )
-
-            with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
-                f.write(results)
-
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
 
-- 
2.43.0


From 7d0a2104e89c99b895dec197400e608be43c03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 39/46] fix: data sets are read and merged in the encoding of
 the locale instead of UTF-8

---
 bm25s/utils/beir.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 84581ea..5ec3b5f 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -55,12 +55,12 @@ def merge_cqa_dupstack(data_path):
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
         # write to a temporary file, so that an interrupted merge is not taken as complete
         tmp_path = corpus_path.with_suffix(".tmp")
-        with open(tmp_path, "w") as f:
+        with open(tmp_path, "w", encoding="utf-8") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Corpus", leave=False
                     ):
@@ -78,12 +78,12 @@ def merge_cqa_dupstack(data_path):
         queries_files = list(data_path.glob("*/queries.jsonl"))
         # write to a temporary file, so that an interrupted merge is not taken as complete
         tmp_path = queries_path.with_suffix(".tmp")
-        with open(tmp_path, "w") as f:
+        with open(tmp_path, "w", encoding="utf-8") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Queries", leave=False
                     ):
@@ -103,13 +103,13 @@ def merge_cqa_dupstack(data_path):
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
         # write to a temporary file, so that an interrupted merge is not taken as complete
         tmp_path = qrels_path.with_suffix(".tmp")
-        with open(tmp_path, "w") as f:
+        with open(tmp_path, "w", encoding="utf-8") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.parent.name
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     # skip first line
                     next(f2)
 
@@ -201,7 +201,7 @@ def load_jsonl(
         raise FileNotFoundError(f"Corpus file not found at {corpus_path}")
 
     corpus = []
-    with open(corpus_path, "r") as f:
+    with open(corpus_path, "r", encoding="utf-8") as f:
         # get the number of bytes in the file
         num_lines = sum(1 for i in open(corpus_path, "rb"))
         pbar = tqdm(
@@ -267,7 +267,7 @@ def load_qrels(
         raise FileNotFoundError(f"Qrels file not found at {qrels_path}")
 
     qrels = []
-    with open(qrels_path, "r") as f:
+    with open(qrels_path, "r", encoding="utf-8") as f:
         # skip first line
         next(f)
         for line in tqdm(
-- 
2.43.0


From 4d10982d1f15a0525930486118c9ee87f68da946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 40/46] fix: an interrupted download of a data set is taken as
 complete

---
 bm25s/utils/beir.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 5ec3b5f..03c7c23 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -156,7 +156,9 @@ def download_dataset(
             leave=False,
             disable=not show_progress,
         )
-        with open(save_zip_path, "wb") as f:
+        # write to a temporary file, so that an interrupted download is not taken as complete
+        tmp_path = save_zip_path.with_name(save_zip_path.name + ".tmp")
+        with open(tmp_path, "wb") as f:
             response = urllib.request.urlopen(url)
             total_size = int(response.headers.get("content-length", 0))
             block_size = 8192 * 2
@@ -170,6 +172,9 @@ def download_dataset(
                 pbar.update(len(buffer))
 
         pbar.close()
+        if tmp_path.stat().st_size < total_size:
+            raise OSError(f"Download of {url} was interrupted.")
+        tmp_path.replace(save_zip_path)
 
     # now that we have the zip file, extract it
     if unzip:
-- 
2.43.0


From a050f41df282f95d6fd240c6b5b8d87742e9d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 41/46] fix: is_paused and is_resumed of a timer are always
 False

---
 bm25s/utils/benchmark.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 120da92..45db641 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -68,6 +68,8 @@ class Timer:
         r = self.results[name]
 
         r["elapsed"] += paused_time - r.pop("last", paused_time)
+        r["paused"] = paused_time
+        r.pop("resumed", None)
 
     def resume(self, name):
         # if not self.has_started(name):
@@ -79,7 +81,9 @@ class Timer:
         # if self.has_stopped(name):
         #     raise ValueError(f"Timer with name {name} already stopped.")
 
-        self.results[name]["last"] = time.monotonic()
+        r = self.results[name]
+        r["last"] = r["resumed"] = time.monotonic()
+        r.pop("paused", None)
 
     def is_paused(self, name):
         return name in self.results and "paused" in self.results[name]
-- 
2.43.0


From 2a5b42a7ffa0d93d45300edada4ccbd4bc26d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 42/46] fix: integers of mixed signedness are returned as
 floats when they are retrieved

---
 bm25s/utils/corpus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index c0e3bc9..be90726 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -80,6 +80,10 @@ def documents_to_array(documents, shape):
 
     array = None if nested or mixed else np.array(documents)
 
+    # integers of more than 64 bits (or a mix of signed and unsigned ones) become floats
+    if array is not None and array.dtype.kind == "f" and int in map(type, documents):
+        array = None
+
     # nor should it convert documents to a common type, or shorten or round them
     if array is None or array.tolist() != documents:
         array = np.empty(len(documents), dtype=object)
-- 
2.43.0


From 19cfb179a07bb34bf349973b1064f797a5d2c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 43/46] fix: Timer lost the time before resume() when called on
 a running timer

---
 bm25s/utils/benchmark.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 45db641..575f85f 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -82,7 +82,9 @@ class Timer:
         #     raise ValueError(f"Timer with name {name} already stopped.")
 
         r = self.results[name]
-        r["last"] = r["resumed"] = time.monotonic()
+        r["resumed"] = time.monotonic()
+        # a timer that is already running keeps counting from where it started
+        r.setdefault("last", r["resumed"])
         r.pop("paused", None)
 
     def is_paused(self, name):
-- 
2.43.0


From abf1fd72d78acef49da661a417ce20926d278dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 44/46] fix: relevance judgements of queries whose identifier
 starts with a space were filed under another one

---
 bm25s/utils/beir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 03c7c23..dd4965b 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -117,7 +117,7 @@ def merge_cqa_dupstack(data_path):
                         f2, desc=f"Merging {corpus_name} Qrels", leave=False
                     ):
                         # since it's a tsv, split by tab
-                        qid, cid, score = line.strip().split("\t")
+                        qid, cid, score = line.rstrip().split("\t")
                         # add the corpus name to _id
                         qid = f"{corpus_name}_{qid}"
                         cid = f"{corpus_name}_{cid}"
@@ -281,7 +281,7 @@ def load_qrels(
             leave=False,
             disable=not show_progress,
         ):
-            qid, cid, score = line.strip().split("\t")
+            qid, cid, score = line.rstrip().split("\t")
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-- 
2.43.0


From 7eb09440683afd542a4a8f36eced3ca1ed235ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 45/46] fix: documents with integers of more than 64 bits were
 left out of a saved corpus, or rounded when loaded

orjson refuses to write such integers and reads them as floats. A document
left out shifts the documents after it, so that retrieval from the reloaded
index returned other documents than the ranked ones.
---
 bm25s/utils/json_functions.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 6ab3bd7..72c82d6 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -1,4 +1,5 @@
 import json
+import re
 
 try:
     import orjson
@@ -11,18 +12,30 @@ def dumps_with_builtin(d: dict, **kwargs) -> str:
     return json.dumps(d, **kwargs)
 
 def dumps_with_orjson(d: dict, **kwargs) -> str:
-    if kwargs.get("ensure_ascii", True):
+    try:
+        # Ignore other kwargs not supported by orjson
+        s = orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
+    except orjson.JSONEncodeError:
+        # orjson does not support integers of more than 64 bits
+        s = json.dumps(d, ensure_ascii=False)
+        s.encode("utf-8")  # but strings that are not valid Unicode are still refused
+    if kwargs.get("ensure_ascii", True) and not s.isascii():
         # orjson does not support `ensure_ascii=True`, so we leave non-ASCII
         # characters to the builtin library, which escapes them as valid JSON
-        s = orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
-        return s if s.isascii() else json.dumps(d)
-    # Ignore other kwargs not supported by orjson
-    return orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
+        return json.dumps(d)
+    return s
+
+def loads_with_orjson(s: str):
+    # orjson reads integers of more than 64 bits as rounded floats, so we leave
+    # long numbers to the builtin library
+    if isinstance(s, str) and re.search(r"[0-9]{19}", s):
+        return json.loads(s)
+    return orjson.loads(s)
 
 if ORJSON_AVAILABLE:
     def dumps(d: dict, **kwargs) -> str:
         return dumps_with_orjson(d, **kwargs)
-    loads = orjson.loads
+    loads = loads_with_orjson
 else:
     def dumps(d: dict, **kwargs) -> str:
         return dumps_with_builtin(d, **kwargs)
-- 
2.43.0


From 8b1c356a80eb5e69e92b44e346831c006926ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 46/46] fix: showing the throughput of a timer with an elapsed
 time of zero raised ZeroDivisionError

---
 bm25s/utils/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 575f85f..d05f6a2 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -115,7 +115,7 @@ class Timer:
         s = f"{self.prefix} {name}: {t:.4f}s"
         if n_total is not None:
             # calculate throughput
-            throughput = n_total / t
+            throughput = n_total / t if t else float("inf")
             s += f" ({throughput:.2f}/s)"
         print(s)
 
-- 
2.43.0

