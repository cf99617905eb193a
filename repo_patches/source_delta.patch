From 6e435a3f05fa7c8e215eaa4767112fb4d8a0cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:51 +0000
Subject: [PATCH 01/48] fix: keep fractional values in row-wise train/test
 split

The split collected its entries in integer triplets, which truncated
non-integral ratings, so that train + test did not sum back to the input.
---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a19e162..0cbc3d7 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -76,7 +76,7 @@ struct SplitFunction {
   split_imple(const CSRMatrix<Real> &X, std::int64_t random_seed,
               Args... args) {
     Derived::check_args(args...);
-    using Triplet = Eigen::Triplet<Integer>;
+    using Triplet = Eigen::Triplet<Real>;
     std::mt19937 random_state(random_seed);
     std::vector<Integer> col_buffer;
     std::vector<Real> data_buffer;
@@ -105,7 +105,7 @@ struct SplitFunction {
       }
     }
     CSRMatrix<Real> X_train(X.rows(), X.cols()), X_test(X.rows(), X.cols());
-    auto dupfunction = [](const Integer &a, const Integer &b) { return a + b; };
+    auto dupfunction = [](const Real &a, const Real &b) { return a + b; };
     X_train.setFromTriplets(train_data.begin(), train_data.end(), dupfunction);
     X_test.setFromTriplets(test_data.begin(), test_data.end(), dupfunction);
     X_train.makeCompressed();
-- 
2.43.0


From 218703bb649bda63687a46fcd31e668e92472a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:16 +0000
Subject: [PATCH 02/48] fix: keep the rating column in the time-based user-wise
 split

split_train_test_userwise_time dropped every column but user, item and time,
so passing rating_column raised KeyError.
---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 06608a7..97998ac 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -191,7 +191,7 @@ def split_train_test_userwise_time(
 ) -> UserTrainTestInteractionPair:
     unique_user_ids = np.asarray(list(set(df_[user_column])))
     df_train, df_test = split_last_n_interaction_df(
-        df_[[user_column, item_column, time_column]],
+        df_,
         user_column,
         time_column,
         n_heldout=n_heldout,
-- 
2.43.0


From 2906003bbb6d68f32957405d480515d9bf9681b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:35 +0000
Subject: [PATCH 03/48] fix: honour n_test_user in the partial user hold-out

Whether test users are split off was decided from test_user_ratio even when
n_test_user was given, so small datasets got no test users at all and too many
validation users.
---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 97998ac..38be6be 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -317,7 +317,7 @@ def split_dataframe_partial_user_holdout(
 
     train_uids, val_test_uids = _split_list(uids, (n_val_user + n_test_user), rns)
 
-    if (test_user_ratio * len(uids)) >= 1:
+    if n_test_user >= 1:
         val_uids, test_uids = _split_list(
             val_test_uids,
             n_test_user,
-- 
2.43.0


From 8017ec4c585c8c33293680bfec6e5065c1044461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:35 +0000
Subject: [PATCH 04/48] fix: use the rating column for the training users of
 the partial user hold-out

---
 src/irspack/split/userwise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 38be6be..ece7630 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -332,7 +332,12 @@ def split_dataframe_partial_user_holdout(
     item_all: List[Any] = list(set(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
-        df_train, user_column, item_column, user_ids=train_uids, item_ids=item_all
+        df_train,
+        user_column,
+        item_column,
+        user_ids=train_uids,
+        item_ids=item_all,
+        rating_column=rating_column,
     )
 
     valid_data: Dict[str, UserTrainTestInteractionPair] = dict(
-- 
2.43.0


From 5660a4845394ec8d451159b5f55042aa26086e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:35 +0000
Subject: [PATCH 05/48] fix: reject hold-out user counts exceeding the number
 of users for ratios too

The documented ValueError was raised only when n_test_user was given explicitly;
with a ratio the validation set silently came out smaller than requested.
---
 src/irspack/split/userwise.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index ece7630..d7ad593 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -306,11 +306,8 @@ def split_dataframe_partial_user_holdout(
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
         test_user_ratio = n_test_user / n_users_all
-    else:
-        if (n_test_user + n_val_user) > n_users_all:
-            raise ValueError(
-                "n_val_user + n_test_users exceeds the number of total users."
-            )
+    if (n_test_user + n_val_user) > n_users_all:
+        raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
     df_all = df_all.drop_duplicates([user_column, item_column])
     rns = convert_randomstate(random_state)
-- 
2.43.0


From 961d81111898790322a7877b02f682a0903971fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:47 +0000
Subject: [PATCH 06/48] fix: allow zero validation and test ratios in
 holdout_specific_interactions

With both ratios 0 the function divided by zero instead of keeping every user
in the training set.
---
 src/irspack/split/specified.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 0e0fd8c..8459ebe 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -95,11 +95,12 @@ def holdout_specific_interactions(
             int(v_user_ratio_train * n_validatable_users),
             rns,
         )
-    v_test_users, v_val_users = _split_list(
-        v_val_test_users,
-        int(len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio),
-        rns,
-    )
+    n_val_users = 0
+    if v_val_test_users:
+        n_val_users = int(
+            len(v_val_test_users) * validatable_user_ratio_val / val_test_ratio
+        )
+    v_test_users, v_val_users = _split_list(v_val_test_users, n_val_users, rns)
     df_train = pd.concat(
         [
             df[df[user_column].isin(v_train_users)],
-- 
2.43.0


From 02fcba9167c6aee8955fc3af4df6c39ac798ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:54 +0000
Subject: [PATCH 07/48] fix: keep item_ids when concatenating train/test pairs

concat dropped them, so df_train/df_test of the result raised RuntimeError.
---
 src/irspack/split/userwise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index d7ad593..c149f91 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -117,6 +117,7 @@ class UserTrainTestInteractionPair:
             self.user_ids + other.user_ids,
             sps.vstack([self.X_train, other.X_train], format="csr"),
             sps.vstack([self.X_test, other.X_test], format="csr"),
+            self.item_ids,
         )
 
 
-- 
2.43.0


From f13f3d9d5694d640a5fd59199dcdf0ecc158d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:54 +0000
Subject: [PATCH 08/48] fix: table views of train/test pairs with explicitly
 stored zeros

row/col skip stored zeros but the values did not, so a zero rating made
df_train/df_test raise ValueError.
---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index c149f91..6e0e281 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -84,7 +84,7 @@ class UserTrainTestInteractionPair:
             raise RuntimeError("Setting item_ids is required to use this method.")
         X.sort_indices()
         row, col = X.nonzero()
-        data = X.data
+        data = X.data[X.data != 0]
         return pd.DataFrame(
             dict(
                 user_id=[user_ids[r] for r in row],
-- 
2.43.0


From 51c8e62072fd0b8a2714c48cef8dbe2abc8432b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:02 +0000
Subject: [PATCH 09/48] fix: keep float64 scores in double precision when
 retrieving recommendations

Scores were narrowed to float, which mis-ordered close scores, returned rounded
scores and dropped large negative ones as minus infinity.
---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 0cbc3d7..1378df0 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -424,12 +424,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
 }
 
 template <typename Real>
-inline std::vector<std::vector<std::pair<int64_t, float>>>
+inline std::vector<std::vector<std::pair<int64_t, Real>>>
 retrieve_recommend_from_score(
     const RowMajorMatrix<Real> &score,
     const std::vector<std::vector<int64_t>> &allowed_indices,
     const size_t cutoff, size_t n_threads) {
-  using score_and_index = std::pair<int64_t, float>;
+  using score_and_index = std::pair<int64_t, Real>;
   check_arg(n_threads > 0, "n_threads must not be 0.");
   check_arg(
       (score.rows() == static_cast<int64_t>(allowed_indices.size())) ||
-- 
2.43.0


From ade0a432af0bf74ceac032a97fb2a8bd50257a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:02 +0000
Subject: [PATCH 10/48] fix: do not overwrite the caller's scores with
 forbidden items

---
 src/irspack/utils/id_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 8d8e47f..cbeabb0 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -304,6 +304,7 @@ class ItemIDMapper(Generic[ItemIdType]):
         elif allowed_item_ids is not None:
             allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
         if forbidden_item_ids is not None:
+            score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
                 score[
                     u, self._item_id_list_to_index_list(forbidden_ids_per_user)
-- 
2.43.0


From 4efd32732208dce45dfdcc99e96fb2d254363a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:02 +0000
Subject: [PATCH 11/48] fix: return no recommendation for cutoff 0 in the
 single-user path

---
 src/irspack/utils/id_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index cbeabb0..90d8119 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -242,6 +242,8 @@ class ItemIDMapper(Generic[ItemIdType]):
             high_score_inds = score.argsort()[::-1]
         recommendations: List[Tuple[ItemIdType, float]] = []
         for i in high_score_inds:
+            if len(recommendations) >= cutoff:
+                break
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
@@ -251,8 +253,6 @@ class ItemIDMapper(Generic[ItemIdType]):
                 if item_id in forbidden_item_ids:
                     continue
             recommendations.append((item_id, float(score_this)))
-            if len(recommendations) >= cutoff:
-                break
         return recommendations
 
     def score_to_recommended_items_batch(
-- 
2.43.0


From 80108e2b2ee4d930774373abb331273bba28441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:31 +0000
Subject: [PATCH 12/48] fix: respect the row stride of score arrays in the
 evaluator

Scores given as a view whose rows are not adjacent in memory (e.g. a column
slice returned by a model) were read at wrong positions.
---
 cpp_source/evaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 795d8e8..5b00e0c 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -309,7 +309,7 @@ private:
       if (u >= score_rows) {
         break;
       }
-      auto buffer = score_begin + n_items * u;
+      auto buffer = score_begin + scores.outerStride() * u;
       int u_orig = u + offset;
 
       const auto &gt_indices = this->X_as_set.at(u_orig);
-- 
2.43.0


From 4b5157c0590df23e500bab9eb77402cb43483fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:31 +0000
Subject: [PATCH 13/48] fix: reject score arrays with a wrong number of columns
 in the evaluator

They were read out of bounds or with shifted rows.
---
 cpp_source/evaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 5b00e0c..06e307c 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -264,6 +264,8 @@ struct EvaluatorCore {
     check_arg(n_users > offset, "got offset >= n_users");
     check_arg(static_cast<size_t>(offset + scores.rows()) <= n_users,
               "offset + scores.shape[0] exceeds n_users");
+    check_arg(static_cast<size_t>(scores.cols()) == n_items,
+              "scores.shape[1] must be equal to n_items");
     check_arg(cutoff > 0, "cutoff must be strictly greather than 0.");
     check_arg(cutoff <= n_items, "cutoff must not exeeed the number of items.");
     std::atomic<size_t> current_index(0);
-- 
2.43.0


From cf37cebc4de373070429b7e0e9734a229df10fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:31 +0000
Subject: [PATCH 14/48] fix: reject recommendation lists longer than the
 catalogue

Such lists (which contain duplicates) were evaluated with discounts read past
the end of the table.
---
 cpp_source/evaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 06e307c..1732c4e 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -383,6 +383,8 @@ Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
   size_t n_recommendation_max = 0;
   for (auto &rec : recommendation) {
     n_recommendation_max = std::max(rec.size(), n_recommendation_max);
+    check_arg(rec.size() <= n_items,
+              "found more recommendations than the number of items.");
     for (auto &rec_index : rec) {
       check_arg(rec_index < n_items,
                 "found recommendation index larger than n_items.");
-- 
2.43.0


From c60980c648c6a01b1bf97e6732b98b4080f680da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:31 +0000
Subject: [PATCH 15/48] fix: accept any column name in
 evaluate_recommendation_df

Attribute access on itertuples() rows fails for names that are not identifiers
("user id", "_user") and silently reads the row labels for "Index".
---
 src/irspack/evaluation/evaluate_df_to_df.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/irspack/evaluation/evaluate_df_to_df.py b/src/irspack/evaluation/evaluate_df_to_df.py
index cb24550..14acc3e 100644
--- a/src/irspack/evaluation/evaluate_df_to_df.py
+++ b/src/irspack/evaluation/evaluate_df_to_df.py
@@ -49,16 +49,12 @@ def evaluate_recommendation_df(
     item_id_to_index: Dict[Any, int] = {iid: i for i, iid in enumerate(item_ids)}
     user_index_to_recommendation: Dict[int, List[int]] = {}
     user_index_to_ground_truth: Dict[int, List[int]] = {}
-    for rec_row in df_recommendation.itertuples():
-        uid = getattr(rec_row, user_column)
-        iid = getattr(rec_row, item_column)
+    for uid, iid in zip(df_recommendation[user_column], df_recommendation[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_recommendation.setdefault(u_index, []).append(i_index)
 
-    for gt_row in df_ground_truth.itertuples():
-        uid = getattr(gt_row, user_column)
-        iid = getattr(gt_row, item_column)
+    for uid, iid in zip(df_ground_truth[user_column], df_ground_truth[item_column]):
         u_index = user_id_to_index[uid]
         i_index = item_id_to_index[iid]
         user_index_to_ground_truth.setdefault(u_index, []).append(i_index)
-- 
2.43.0


From 61ab4b62229568ba440e528bbbd7cf12afa67531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:14 +0000
Subject: [PATCH 16/48] fix: rank only the current column's weights when
 limiting SLIM neighbours

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 1378df0..fd317b5 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -392,7 +392,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             }
             int64_t n_taken_coeffs = nnz;
             if (nnz > top_k) {
-              std::sort(argsort_buffer.begin(), argsort_buffer.end(),
+              std::sort(argsort_buffer.begin(), iter,
                         [](RealAndIndex val1, RealAndIndex val2) {
                           return val1.first > val2.first;
                         });
-- 
2.43.0


From 465e09b9090eb9941e9bb761d3cff40370c4c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:22 +0000
Subject: [PATCH 17/48] fix: propagate every SLIM coefficient change to the
 residuals

---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index fd317b5..cc1c990 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -348,7 +348,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             coeff_temp.noalias() =
                 coeffs.col(shuffled_feature_index) - coeff_temp;
 
-            if (!coeff_temp.isZero()) {
+            if (!coeff_temp.isZero(0)) {
               for (CSCIter nnz_iter(X_csc, shuffled_feature_index); nnz_iter;
                    ++nnz_iter) {
                 const int64_t row = nnz_iter.row();
-- 
2.43.0


From 8bc5f3162e37f299adf5eb23771b834d43df4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:37 +0000
Subject: [PATCH 18/48] fix: make SLIM independent of how its blocks are
 scheduled

---
 cpp_source/util.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index cc1c990..ade6389 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -250,11 +250,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
                                                          l2_coeff, l1_coeff,
                                                          n_iter, tol, top_k] {
       const int64_t F = X_csc.cols();
-      std::mt19937 gen(0);
       std::vector<int64_t> indices(F);
-      for (int64_t i = 0; i < F; i++) {
-        indices[i] = i;
-      }
       MatrixType remnants(block_size, X_csc.rows());
       MatrixType coeffs(block_size, F);
       VectorType coeff_temp(block_size);
@@ -278,6 +274,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
         int64_t block_begin = current_cursor;
         int64_t block_end = std::min(block_begin + block_size, F);
         int64_t valid_block_size = block_end - block_begin;
+        // The coordinate order must not depend on which blocks this worker has
+        // processed so far.
+        std::mt19937 gen(0);
+        for (int64_t i = 0; i < F; i++) {
+          indices[i] = i;
+        }
         remnants.setZero();
         coeffs.setZero();
 
-- 
2.43.0


From e4b46ba5c94abda208813de98de70a7ece9708d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:37 +0000
Subject: [PATCH 19/48] fix: initialize the iALS factors when init_std is zero

---
 cpp_source/als/IALSTrainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index c18aa0f..4f99cc3 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -72,6 +72,8 @@ struct Solver {
           factor(i, k) = dist(gen);
         }
       }
+    } else {
+      factor.setZero();
     }
   }
 
-- 
2.43.0


From f987eff05d593ab008b31fcc56870e80a13cdef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:55 +0000
Subject: [PATCH 20/48] fix: do not produce NaN factors for empty rows in the
 iALS++ solvers

---
 cpp_source/als/IALSTrainer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 4f99cc3..c693c1f 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -469,6 +469,11 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            // The minimizer is zero; the system may be singular if alpha0 is 0.
+            target_factor_subspaced.row(cursor_local).setZero();
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
@@ -592,6 +597,11 @@ private:
           auto inner_cursor_end =
               X_compressed.outerIndexPtr()[cursor_local + 1];
           auto nnz = inner_cursor_end - inner_cursor_start;
+          if (nnz == 0) {
+            // The minimizer is zero; the system may be singular if alpha0 is 0.
+            target_factor_subspaced(cursor_local) = 0;
+            continue;
+          }
           auto reg =
               this->compute_reg(nnz, other_factor_subspaced.rows(), config);
 
-- 
2.43.0


From ea526af19641389bbd5586fcb21c68eadd88652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:11 +0000
Subject: [PATCH 21/48] fix: let NMFRecommender score cold users of any element
 type

---
 src/irspack/recommenders/nmf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/nmf.py b/src/irspack/recommenders/nmf.py
index 96b8e0d..b4465e0 100644
--- a/src/irspack/recommenders/nmf.py
+++ b/src/irspack/recommenders/nmf.py
@@ -68,5 +68,7 @@ class NMFRecommender(BaseRecommender):
         return res
 
     def get_score_cold_user(self, X: InteractionMatrix) -> DenseScoreArray:
-        res: DenseScoreArray = self.nmf_model.transform(X).dot(self.H)
+        res: DenseScoreArray = self.nmf_model.transform(X.astype(self.H.dtype)).dot(
+            self.H
+        )
         return res
-- 
2.43.0


From 315392c942c25db305920b1569692b4c449caef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:27 +0000
Subject: [PATCH 22/48] fix: forget the best state of previous runs when
 learning with an evaluator

---
 src/irspack/recommenders/base_earlystop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/recommenders/base_earlystop.py b/src/irspack/recommenders/base_earlystop.py
index 90d3bf0..e0311fc 100644
--- a/src/irspack/recommenders/base_earlystop.py
+++ b/src/irspack/recommenders/base_earlystop.py
@@ -114,6 +114,8 @@ class BaseRecommenderWithEarlyStopping(BaseRecommender):
         from optuna.exceptions import TrialPruned
 
         self.start_learning()
+        # do not mistake the best state of a previous run for that of this one.
+        self.best_state = None
         best_score = -float("inf")
         n_score_degradation = 0
         pb = progress_bar(range(max_epoch))
-- 
2.43.0


From 3866f0359a08d5331e81115b4f81e017b996ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:54 +0000
Subject: [PATCH 23/48] fix: accept the iALS++ solver's parameters in
 IALSConfig

---
 src/irspack/recommenders/ials.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index c26f3dc..4768cd8 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -216,14 +216,16 @@ class IALSConfig(BaseEarlyStoppingRecommenderConfig):
     confidence_scaling: str = "none"
     epsilon: float = 1.0
     init_std: float = 0.1
-    solver_type: Literal["CG", "CHOLESKY"] = "CG"
+    solver_type: Literal["CG", "CHOLESKY", "IALSPP"] = "CG"
     max_cg_steps: int = 3
+    ialspp_subspace_dimension: int = 64
     loss_type: Literal["IALSPP", "ORIGINAL"] = "IALSPP"
     nu_star: Optional[float] = None
     random_seed: int = 42
     n_threads: Optional[int] = None
     train_epochs: int = 16
     prediction_time_max_cg_steps: int = 5
+    prediction_time_ialspp_iteration: int = 7
     lambda_user_feature: float = 0.0
     lambda_item_feature: float = 0.0
     feature_warmup_epochs: int = 0
-- 
2.43.0


From 352997aea340f053ea2250b03c29125a0a5c9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:54 +0000
Subject: [PATCH 24/48] fix: refuse to train an unpickled iALS trainer instead
 of reading out of bounds

---
 cpp_source/als/IALSTrainer.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index c693c1f..1667fdc 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -768,6 +768,7 @@ struct IALSTrainer {
   }
 
   inline void step(const SolverConfig &solver_config) {
+    check_has_interaction();
     if (feature_aware_ && solver_config.solver_type == SolverType::IALSPP)
       throw std::invalid_argument(
           "Feature-aware iALS does not support IALSPP.");
@@ -846,6 +847,7 @@ struct IALSTrainer {
   }
 
   inline Real compute_loss(const SolverConfig &solver_config) {
+    check_has_interaction();
     this->user_solver.prepare_p(item, config_, solver_config);
     this->item_solver.prepare_p(user, config_, solver_config);
     Real loss = 0;
@@ -1010,6 +1012,15 @@ private:
   bool feature_aware_ = false;
   size_t epoch_ = 0;
 
+  // The interaction matrix is not a part of the pickled state.
+  inline void check_has_interaction() const {
+    if (static_cast<size_t>(X.rows()) != n_users ||
+        static_cast<size_t>(X.cols()) != n_items)
+      throw std::runtime_error(
+          "The trainer has been restored without its interaction matrix, and "
+          "cannot be trained further.");
+  }
+
   inline void initialize_feature_aware(size_t user_feature_rows,
                                        size_t user_feature_cols,
                                        size_t item_feature_rows,
-- 
2.43.0


From fec09c54db9898667be8d742d666f8f4996b51a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:40 +0000
Subject: [PATCH 25/48] fix: let tune_doubling_dimension cope with dimensions
 of equal best value

---
 src/irspack/recommenders/ials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index 4768cd8..9fcf1fe 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -753,7 +753,7 @@ class IALSRecommender(
             prev_params = study.best_params.copy()
             dimension *= 2
         final_result_df = pd.concat([x[2] for x in results])
-        final_bp = sorted(results)[0][1]
+        final_bp = min(results, key=lambda result: result[0])[1]
 
         return final_bp, final_result_df
 
-- 
2.43.0


From 3cd8183e67197c23b98299c3fdd400e878cc7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:40 +0000
Subject: [PATCH 26/48] fix: check parameter names without exponential
 backtracking

---
 src/irspack/optimization/parameter_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/optimization/parameter_range.py b/src/irspack/optimization/parameter_range.py
index b416157..5ed2131 100644
--- a/src/irspack/optimization/parameter_range.py
+++ b/src/irspack/optimization/parameter_range.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Any, List
 if TYPE_CHECKING:
     from optuna import Trial
 
-NAME_CHECKER = re.compile(r"^([a-zA-Z\d]+[\-_]*)+$")
+NAME_CHECKER = re.compile(r"^[a-zA-Z\d][a-zA-Z\d\-_]*$")
 
 
 def is_valid_param_name(name: str) -> bool:
-- 
2.43.0


From eebeb6c9d0ab38b0ee34fff2eaffcafae8020590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:40 +0000
Subject: [PATCH 27/48] fix: let learnt parameters take precedence over
 suggested ones of the same name

---
 src/irspack/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 3fd1676..22831ad 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -191,13 +191,13 @@ class Optimizer:
         )
 
         study.optimize(objective_func, n_trials=n_trials, timeout=timeout)
-        best_params = dict(
+        best_params = {
             **study.best_trial.params,
             **{
                 key: val
                 for key, val in study.best_trial.user_attrs.items()
                 if is_valid_param_name(key)
             },
-        )
+        }
         trials_df = study_to_dataframe(study)
         return (best_params, trials_df)
-- 
2.43.0


From 42a45f5b2048cfceaad4e16b0edd589a4322c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:40 +0000
Subject: [PATCH 28/48] fix: leave fixed parameters out of the best parameters

---
 src/irspack/optimization/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/irspack/optimization/optimizer.py b/src/irspack/optimization/optimizer.py
index 22831ad..a3a8cac 100644
--- a/src/irspack/optimization/optimizer.py
+++ b/src/irspack/optimization/optimizer.py
@@ -192,7 +192,11 @@ class Optimizer:
 
         study.optimize(objective_func, n_trials=n_trials, timeout=timeout)
         best_params = {
-            **study.best_trial.params,
+            **{
+                key: val
+                for key, val in study.best_trial.params.items()
+                if key not in self.recommender_params
+            },
             **{
                 key: val
                 for key, val in study.best_trial.user_attrs.items()
-- 
2.43.0


From 30d5d5a950b0b5bbd54ef346830bdbe433b029ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:03 +0000
Subject: [PATCH 29/48] fix: keep leading zeros of MovieLens zip codes

---
 src/irspack/dataset/movielens/ML100K.py | 1 +
 src/irspack/dataset/movielens/ML1M.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index 80b0e0a..a2e0d5c 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -45,6 +45,7 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
                 sep="|",
                 header=None,
                 names=["userId", "age", "gender", "occupation", "zipcode"],
+                dtype={"zipcode": str},
             ).set_index("userId")
 
     def _read_genre(self) -> List[str]:
diff --git a/src/irspack/dataset/movielens/ML1M.py b/src/irspack/dataset/movielens/ML1M.py
index 7529177..311e4f1 100644
--- a/src/irspack/dataset/movielens/ML1M.py
+++ b/src/irspack/dataset/movielens/ML1M.py
@@ -62,5 +62,6 @@ class MovieLens1MDataManager(BaseMovieLenstDataLoader):
                 sep="::",
                 header=None,
                 names=["userId", "gender", "age", "occupation", "zipcode"],
+                dtype={"zipcode": str},
                 engine="python",
             ).set_index("userId")
-- 
2.43.0


From ec55d152996cabc34cab774f5e4b42de95e69c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:03 +0000
Subject: [PATCH 30/48] fix: read Amazon user and product ids as strings

---
 src/irspack/dataset/amazon_music.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index e88c6c0..62f4ef5 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -34,6 +34,7 @@ class AmazonMusicDataManager(BaseDownloader):
             self._read_as_istream("amazon-music/ratings.csv"),
             header=None,
             names=["user_id", "music_id", "rating", "timestamp"],
+            dtype={"user_id": str, "music_id": str},
         )
 
     def read_metadata(self) -> pd.DataFrame:
-- 
2.43.0


From ba2d742b7c978bf35e377b69f32db3d0a7907ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:31 +0000
Subject: [PATCH 31/48] fix: parse MovieLens 100K release dates when the first
 one is in May

---
 src/irspack/dataset/movielens/ML100K.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index a2e0d5c..d07f326 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -66,7 +66,7 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
             "URL",
         ] + genres
         movie_ids = df.movieId.values
-        df["release_date"] = pd.to_datetime(df.release_date)
+        df["release_date"] = pd.to_datetime(df.release_date, format="mixed")
         genre_df = pd.DataFrame(
             [
                 dict(movieId=movie_ids[row], genre=genres[col])
-- 
2.43.0


From 3d9ff43e37ad1b266c24fbdfacdc35f6ec0145eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:31 +0000
Subject: [PATCH 32/48] fix: do not execute the Amazon metadata

---
 src/irspack/dataset/amazon_music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index 62f4ef5..93cad38 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -1,3 +1,4 @@
+import ast
 import urllib.request
 from gzip import GzipFile
 from pathlib import Path
@@ -40,7 +41,7 @@ class AmazonMusicDataManager(BaseDownloader):
     def read_metadata(self) -> pd.DataFrame:
         results = []
         for l in self._read_as_istream("amazon-music/music-meta.json"):
-            meta = eval(l.decode("utf-8"))
+            meta = ast.literal_eval(l.decode("utf-8"))
             results.append(
                 (
                     meta["asin"],
-- 
2.43.0


From d6e380aab2f84ac1c2bb4b43b112386c46eac9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:15 +0000
Subject: [PATCH 33/48] fix: keep quotation marks in MovieLens 100K titles

---
 src/irspack/dataset/movielens/ML100K.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/movielens/ML100K.py b/src/irspack/dataset/movielens/ML100K.py
index d07f326..d24f142 100644
--- a/src/irspack/dataset/movielens/ML100K.py
+++ b/src/irspack/dataset/movielens/ML100K.py
@@ -1,3 +1,4 @@
+import csv
 import re
 from pathlib import Path
 from typing import List, Tuple
@@ -55,7 +56,13 @@ class MovieLens100KDataManager(BaseMovieLenstDataLoader):
 
     def read_item_info(self) -> Tuple[pd.DataFrame, pd.DataFrame]:
         with self._read_as_istream(self.ITEM_INFO_PATH) as ifs:
-            df = pd.read_csv(ifs, sep="|", header=None, encoding="latin-1")
+            df = pd.read_csv(
+                ifs,
+                sep="|",
+                header=None,
+                encoding="latin-1",
+                quoting=csv.QUOTE_NONE,
+            )
 
         genres = self._read_genre()
         df.columns = [
-- 
2.43.0


From af2ee6a53d70bf00179815c8eae18339092c80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:43 +0000
Subject: [PATCH 34/48] fix: read MIND article texts verbatim

---
 src/irspack/dataset/mind.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 2056cfb..8fee672 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -1,3 +1,4 @@
+import csv
 import json
 import os
 import shutil
@@ -277,7 +278,18 @@ class MINDDataManager:
         ]
         for split_name in self._iter_splits(split):
             with self._read_as_istream(split_name, "news.tsv") as ifs:
-                frames.append(pd.read_csv(ifs, sep="\t", header=None, names=columns))
+                frames.append(
+                    pd.read_csv(
+                        ifs,
+                        sep="\t",
+                        header=None,
+                        names=columns,
+                        dtype=str,
+                        quoting=csv.QUOTE_NONE,
+                        keep_default_na=False,
+                        na_values=[""],
+                    )
+                )
         result = pd.concat(frames, ignore_index=True).drop_duplicates(
             "item_id", keep="first"
         )
-- 
2.43.0


From 4a09723e44aeb19c677d03d8dd510e99d10c9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:15 +0000
Subject: [PATCH 35/48] fix: send the Hugging Face token to Hugging Face only
 (not to Azure or redirect targets)

---
 src/irspack/dataset/mind.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 8fee672..5cf863f 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -116,13 +116,17 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        token = (
-            hf_token
-            or os.environ.get("HF_TOKEN")
-            or os.environ.get("HUGGING_FACE_HUB_TOKEN")
-        )
-        headers = {"Authorization": f"Bearer {token}"} if token else {}
-        request = urllib.request.Request(url, headers=headers)
+        token: Optional[str] = None
+        if url.startswith(MINDDataManager.HUGGINGFACE_BASE_URL):
+            token = (
+                hf_token
+                or os.environ.get("HF_TOKEN")
+                or os.environ.get("HUGGING_FACE_HUB_TOKEN")
+            )
+        request = urllib.request.Request(url)
+        if token:
+            # must not follow redirects to other (e.g. CDN) hosts
+            request.add_unredirected_header("Authorization", f"Bearer {token}")
         temporary_path: Optional[Path] = None
         try:
             with urllib.request.urlopen(request) as response:
-- 
2.43.0


From f90b181590e71f25319aca14fde456f80ac8374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:15 +0000
Subject: [PATCH 36/48] fix: notice MIND downloads which end prematurely

---
 src/irspack/dataset/mind.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 5cf863f..dd70eb4 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -2,6 +2,7 @@ import csv
 import json
 import os
 import shutil
+import urllib.error
 import urllib.request
 from io import BytesIO
 from pathlib import Path
@@ -135,6 +136,12 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
+                    received = output.tell()
+                expected = response.headers.get("Content-Length")
+            if expected is not None and received != int(expected):
+                raise urllib.error.ContentTooShortError(
+                    f"received only {received} out of {expected} bytes of {url}", b""
+                )
             temporary_path.replace(path)
         except HTTPError as err:
             if err.code in (401, 403):
-- 
2.43.0


From 093889927bf0f3dc107b33ab749ae81b8a4a4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:15 +0000
Subject: [PATCH 37/48] fix: do not leave partial archives behind when a
 download fails

---
 src/irspack/dataset/downloader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/downloader.py b/src/irspack/dataset/downloader.py
index 653cf89..5b007ee 100644
--- a/src/irspack/dataset/downloader.py
+++ b/src/irspack/dataset/downloader.py
@@ -2,6 +2,7 @@ import urllib.request
 from abc import ABCMeta, abstractmethod
 from io import BytesIO
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import Optional, Union
 from zipfile import ZipFile
 
@@ -43,7 +44,13 @@ class BaseDownloader(metaclass=ABCMeta):
                 download = True
             if download:
                 print("start download...")
-                self._save_to_zippath(zippath)
+                # only a complete download may appear at zippath
+                with TemporaryDirectory(
+                    dir=zippath.parent, prefix=f".{zippath.name}."
+                ) as temporary_dir:
+                    temporary_path = Path(temporary_dir) / zippath.name
+                    self._save_to_zippath(temporary_path)
+                    temporary_path.replace(zippath)
                 print("complete")
             else:
                 raise RuntimeError("could not read zipFile")
-- 
2.43.0


From bb1efab429b5c33bfdf805a3d022679c2468a34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 38/48] fix: reject n_threads=0 in table evaluation instead of
 reporting zero metrics

---
 cpp_source/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 1732c4e..8ce407a 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -380,6 +380,7 @@ Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
                               size_t n_items, size_t n_threads) {
   check_arg(recommendation.size() == ground_truth.size(),
             "recommendation array and ground_truth array has different size.");
+  check_arg(n_threads > 0, "n_threads must be strictly positive.");
   size_t n_recommendation_max = 0;
   for (auto &rec : recommendation) {
     n_recommendation_max = std::max(rec.size(), n_recommendation_max);
-- 
2.43.0


From 646b33824969eed01199a1f563ea5f087aa4f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 39/48] fix: reject merging metrics of different numbers of
 items (out-of-bounds access)

---
 cpp_source/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 8ce407a..9c30502 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -74,6 +74,7 @@ struct Metrics {
   }
 
   inline void merge(const Metrics &other) {
+    check_arg(this->n_item == other.n_item, "inconsistent n_item.");
     hit += other.hit;
     recall += other.recall;
     ndcg += other.ndcg;
-- 
2.43.0


From e17c1c268f20e874ca2a50061c87a08faebdc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 40/48] fix: reject sparse products of incompatible shapes
 (out-of-bounds access)

---
 cpp_source/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index ade6389..0db967e 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -42,6 +42,8 @@ template <typename Real>
 inline RowMajorMatrix<Real>
 parallel_sparse_product(const CSRMatrix<Real> &left,
                         const CSCMatrix<Real> &right, const size_t n_threads) {
+  check_arg(left.cols() == right.rows(),
+            "left and right have incompatible shapes.");
   RowMajorMatrix<Real> result(left.rows(), right.cols());
   result.array() = 0;
   check_arg(n_threads > 0, "n_thraed must be > 0");
-- 
2.43.0


From 1b6f4c7fa540a65c8d0149db54151b22d577466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 41/48] fix: reject NaN for bounded arguments

---
 cpp_source/argcheck.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/argcheck.hpp b/cpp_source/argcheck.hpp
index 262c36b..37ab3e7 100644
--- a/cpp_source/argcheck.hpp
+++ b/cpp_source/argcheck.hpp
@@ -11,7 +11,7 @@ inline void check_arg(bool condition, const std::string &failure_message) {
 }
 template <typename Field>
 void check_arg_lower_bounded(Field x, Field low, const std::string &varname) {
-  if ((x < low)) {
+  if (!(x >= low)) {
     std::stringstream ss;
     ss << varname << " must be greater than or equal to  " << low;
     throw std::invalid_argument(ss.str());
@@ -20,7 +20,7 @@ void check_arg_lower_bounded(Field x, Field low, const std::string &varname) {
 
 template <typename Field>
 void check_arg_upper_bounded(Field x, Field up, const std::string &varname) {
-  if ((x > up)) {
+  if (!(x <= up)) {
     std::stringstream ss;
     ss << varname << " must be less than or equal to  " << up;
     throw std::invalid_argument(ss.str());
-- 
2.43.0


From a6925a43d30912df47a5f073e7c3d94e7d51b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 42/48] fix: reject non-positive mb_size instead of reporting
 zero metrics

---
 src/irspack/evaluation/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/evaluation/evaluator.py b/src/irspack/evaluation/evaluator.py
index 066b052..dddfe70 100644
--- a/src/irspack/evaluation/evaluator.py
+++ b/src/irspack/evaluation/evaluator.py
@@ -148,6 +148,8 @@ class Evaluator:
         self.cutoff = cutoff
         self.target_metric_name = f"{self.target_metric.name}@{self.cutoff}"
         self.n_threads = get_n_threads(n_threads)
+        if mb_size < 1:
+            raise ValueError("mb_size must be strictly positive.")
         self.mb_size = mb_size
         if masked_interactions is None:
             self.masked_interactions = None
-- 
2.43.0


From 2079c30280244163383110cd6b44514ef5b8c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 43/48] fix: reject out-of-range hold-out counts and ratios in
 the time-based split

---
 src/irspack/split/time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irspack/split/time.py b/src/irspack/split/time.py
index 54e8189..d1e4d9c 100644
--- a/src/irspack/split/time.py
+++ b/src/irspack/split/time.py
@@ -36,6 +36,11 @@ def split_last_n_interaction_df(
     Returns:
         First interactions and held-out interactions.
     """
+    if n_heldout is not None:
+        if n_heldout < 0:
+            raise ValueError("n_heldout must not be negative.")
+    elif not (0 <= heldout_ratio <= 1):
+        raise ValueError("heldout_ratio must be between 0.0 and 1.0.")
     df_sorted = df.sort_values([user_column, timestamp_column])
 
     index_within_group = df_sorted.groupby(user_column).cumcount(ascending=False).values
-- 
2.43.0


From 29c59c74bcee6dc13b010c2874d3e7d178a32662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 44/48] fix: reject negative numbers of validation or test
 users

---
 src/irspack/split/userwise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 6e0e281..b501207 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -307,6 +307,8 @@ def split_dataframe_partial_user_holdout(
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
         test_user_ratio = n_test_user / n_users_all
+    if n_val_user < 0 or n_test_user < 0:
+        raise ValueError("n_val_user and n_test_user must not be negative.")
     if (n_test_user + n_val_user) > n_users_all:
         raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
-- 
2.43.0


From bd658c3ce8b902213a41f8fec44e8d2311b3f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 45/48] fix: reject negative ratios of validatable users

---
 src/irspack/split/specified.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/irspack/split/specified.py b/src/irspack/split/specified.py
index 8459ebe..2d1e10a 100644
--- a/src/irspack/split/specified.py
+++ b/src/irspack/split/specified.py
@@ -59,6 +59,8 @@ def holdout_specific_interactions(
             * The aligned list of all the items.
             * A dictionary with train/val/test user pairs.
     """
+    if validatable_user_ratio_val < 0 or validatable_user_ratio_test < 0:
+        raise ValueError("validatable user ratios must not be negative.")
     v_user_ratio_train = 1 - validatable_user_ratio_val - validatable_user_ratio_test
 
     if v_user_ratio_train < -1e-10:
-- 
2.43.0


From c7540184dbd24e49ad0630da6b4a0d16a90fbda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:34 +0000
Subject: [PATCH 46/48] fix: no crash in (E)DLAE/DenseSLIM on matrices that are
 not positive definite (in-place scipy.linalg.inv)

---
 src/irspack/recommenders/dense_slim.py | 2 +-
 src/irspack/recommenders/edlae.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/recommenders/dense_slim.py b/src/irspack/recommenders/dense_slim.py
index 6bdc66d..5f6e579 100644
--- a/src/irspack/recommenders/dense_slim.py
+++ b/src/irspack/recommenders/dense_slim.py
@@ -43,7 +43,7 @@ class DenseSLIMRecommender(BaseSimilarityRecommender):
         del P
         P_dense[np.arange(self.n_items), np.arange(self.n_items)] += self.reg
         gc.collect()
-        P_dense = linalg.inv(P_dense, overwrite_a=True)
+        P_dense = linalg.inv(P_dense)
 
         gc.collect()
         diag_P_inv = 1 / np.diag(P_dense)
diff --git a/src/irspack/recommenders/edlae.py b/src/irspack/recommenders/edlae.py
index b98c232..1895fe3 100644
--- a/src/irspack/recommenders/edlae.py
+++ b/src/irspack/recommenders/edlae.py
@@ -56,7 +56,7 @@ class EDLAERecommender(BaseSimilarityRecommender):
         lamb = self.dropout_p / q * np.diag(P_dense) + self.reg
         P_dense[np.arange(self.n_items), np.arange(self.n_items)] += lamb
         gc.collect()
-        P_dense = linalg.inv(P_dense, overwrite_a=True)
+        P_dense = linalg.inv(P_dense)
 
         gc.collect()
         diag_P_inv = 1 / np.diag(P_dense)
-- 
2.43.0


From 3cae5388175f99261557134bec5d40b3e0185a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:15 +0000
Subject: [PATCH 47/48] fix: make user hold-out datasets independent of string
 hash randomisation

---
 src/irspack/split/userwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index b501207..64ca505 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -190,7 +190,7 @@ def split_train_test_userwise_time(
     rating_column: Optional[str] = None,
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
-    unique_user_ids = np.asarray(list(set(df_[user_column])))
+    unique_user_ids = np.asarray(list(dict.fromkeys(df_[user_column])))
     df_train, df_test = split_last_n_interaction_df(
         df_,
         user_column,
@@ -329,7 +329,7 @@ def split_dataframe_partial_user_holdout(
     df_train = df_all[df_all[user_column].isin(train_uids)].copy()
     df_val = df_all[df_all[user_column].isin(val_uids)].copy()
     df_test = df_all[df_all[user_column].isin(test_uids)].copy()
-    item_all: List[Any] = list(set(df_all[item_column]))
+    item_all: List[Any] = list(dict.fromkeys(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
         df_train,
-- 
2.43.0


From 3c6396daf57f2b096ae928c4c0cf2d65d5512d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:57 +0000
Subject: [PATCH 48/48] fix: forget the epochs learnt by previous runs when
 learning again

learn_with_optimizer left learnt_config['train_epochs'] of an earlier
validated run in place when the new run found no best state (no evaluator,
or no usable validation score), so that the model reported the epochs of
another run as its own.
---
 src/irspack/recommenders/base_earlystop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/recommenders/base_earlystop.py b/src/irspack/recommenders/base_earlystop.py
index e0311fc..56441b7 100644
--- a/src/irspack/recommenders/base_earlystop.py
+++ b/src/irspack/recommenders/base_earlystop.py
@@ -116,6 +116,7 @@ class BaseRecommenderWithEarlyStopping(BaseRecommender):
         self.start_learning()
         # do not mistake the best state of a previous run for that of this one.
         self.best_state = None
+        self.learnt_config.pop("train_epochs", None)
         best_score = -float("inf")
         n_score_degradation = 0
         pb = progress_bar(range(max_epoch))
-- 
2.43.0

