From 65b7525d34192ef15da2e939272f457bd23bc891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 01/78] fix: in-memory null pair generator fails on current
 numpy and ignores existing negatives

---
 DRecPy/Dataset/mem_dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8774c71..bb08d33 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -4,7 +4,6 @@ import pandas as pd
 from pandas.api.types import is_string_dtype
 import random
 from scipy.sparse import csr_matrix
-import numpy as np
 
 
 class MemoryInteractionDataset(InteractionDatasetABC):
@@ -140,14 +139,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         else:
             try:
                 negative_ds = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
-                existing_null_pair_gen = self.select_random_generator(negative_ds, seed=seed)
+                existing_null_pair_gen = self._select_random_generator(negative_ds, seed)
                 next(existing_null_pair_gen)  # force error if there's no matches
             except:
                 existing_null_pair_gen = None
 
         max_uid = self.max('uid')
         max_iid = self.max('iid')
-        n_possible_combs = max_uid.astype(np.float) * max_iid.astype(np.float)
+        n_possible_combs = int(max_uid) * int(max_iid)
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From e83cad82501a9a37031851d7ea75f26379375bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 02/78] fix: in-memory records cast integer columns to float
 when all columns are numeric

---
 DRecPy/Dataset/mem_dataset.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index bb08d33..df9bfbc 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -89,13 +89,12 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         df = self._apply_query(query, in_place=False)
         if df.shape[0] == 0: return None
 
-        df_columns = [col for col in self.columns if col != 'rid']
-        col_idxs = {col: df_columns.index(col) for col in columns if col != 'rid'}
+        first_row = df.iloc[:1]
+        record = [first_row[col].tolist()[0] if col != 'rid' else first_row.index[0] for col in columns]
         if to_list is True:
-            record = [df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns]
             return record[0] if len(record) == 1 else record
         else:
-            return {col: df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns}
+            return dict(zip(columns, record))
 
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
@@ -121,7 +120,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             if len(tmp_df) == 0: continue
 
             chosen_idx = rng.randint(0, tmp_df.shape[0] - 1)
-            record = {k: v for k, v in zip(df_columns, tmp_df.iloc[chosen_idx, :])}
+            record = {col: tmp_df[col].tolist()[chosen_idx] for col in df_columns}
             record['rid'] = tmp_df.index[chosen_idx]
             if record['uid'] is not None: record['uid'] = int(record['uid'])
             if record['iid'] is not None: record['iid'] = int(record['iid'])
@@ -241,15 +240,13 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     def values(self, columns=None, to_list=False):
         columns = self._handle_columns(columns)
 
-        df_columns = [col for col in self.columns if col != 'rid']
-        col_idxs = {col: df_columns.index(col) for col in columns if col != 'rid'}
-        if to_list is True:
-            for row, rid in zip(self._df[df_columns].values, self._df.index):
-                record = [row[col_idxs[col]] if col != 'rid' else rid for col in columns]
-                yield record[0] if len(record) == 1 else record
-        else:
-            for row, rid in zip(self._df[df_columns].values, self._df.index):
-                yield {col: row[col_idxs[col]] if col != 'rid' else rid for col in columns}
+        # extract column by column, so that each one keeps its own type (e.g. integer ids are never cast to floats)
+        df = self._df
+        for record in zip(*[df[col].tolist() if col != 'rid' else df.index.tolist() for col in columns]):
+            if to_list is True:
+                yield record[0] if len(record) == 1 else list(record)
+            else:
+                yield dict(zip(columns, record))
 
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
-- 
2.43.0


From cd8f568a81cd754ff764fadd29b0ed24eea10b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 03/78] fix: in-memory order comparisons on user and item
 columns compare internal ids instead of raw ids

---
 DRecPy/Dataset/mem_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index df9bfbc..380e8a2 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -419,10 +419,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 value = int(value)
 
             # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype:
+            if column == 'user' and self.has_internal_ids and 'obj' in col_dtype and operator in ['==', '!=']:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype:
+            elif column == 'item' and self.has_internal_ids and 'obj' in col_dtype and operator in ['==', '!=']:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From e3f1eb76a541796b81921140b291f5a91781f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 04/78] fix: in-memory raw float ids are never mapped to their
 internal id

---
 DRecPy/Dataset/mem_dataset.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 380e8a2..876bda3 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -266,6 +266,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 user = int(user)
             except ValueError:
                 raise Exception(f'The provided user type does not match the inferred type (expected: int, found: {type(user)}')
+        elif 'float' in user_dtype:
+            try:
+                user = float(user)
+            except ValueError:
+                raise Exception(f'The provided user type does not match the inferred type (expected: float, found: {type(user)}')
         else: user = str(user)
         return self._user_mapping[user] if user in self._user_mapping else None
 
@@ -283,6 +288,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 item = int(item)
             except ValueError:
                 raise Exception(f'The provided item type does not match the inferred type (expected: int, found: {type(item)}')
+        elif 'float' in item_dtype:
+            try:
+                item = float(item)
+            except ValueError:
+                raise Exception(f'The provided item type does not match the inferred type (expected: float, found: {type(item)}')
         else: item = str(item)
         return self._item_mapping[item] if item in self._item_mapping else None
 
-- 
2.43.0


From 46e8737ab0c685bb984f647de43c9b061821d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 05/78] fix: in-memory queries conflate integers larger than
 2**53

---
 DRecPy/Dataset/mem_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 876bda3..d6f51ce 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -416,7 +416,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             # parse value
             if column not in ['iid', 'uid', 'rid']:
                 try:
-                    if 'float' in col_dtype or 'int' in col_dtype:
+                    if 'int' in col_dtype and value.lstrip('+-').isdigit():
+                        value = int(value)  # casting to float would conflate large integers
+                    elif 'float' in col_dtype or 'int' in col_dtype:
                         value = float(value)
                     elif 'obj' in col_dtype:
                         value = eval(value)
-- 
2.43.0


From 1c7aeb3d88eac1e76e27a2c47ceaf11ea3359a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 06/78] fix: in-memory item interaction vector is indexed by
 item instead of user when there is a single user

---
 DRecPy/Dataset/mem_dataset.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index d6f51ce..8e72060 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -184,8 +184,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 cols.append(row[iid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
-            return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='iid').shape[0]))[0]
+            return csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, int(self.max('iid')) + 1))[0]
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
@@ -206,14 +205,13 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             cols, interactions = [], []
             df_segment = self._df[self._df['iid'].values == iid]
             projected_cols = [col for col in self.columns if col != 'rid']
-            iid_col_idx = projected_cols.index('iid')
+            uid_col_idx = projected_cols.index('uid')
             interaction_col_idx = projected_cols.index('interaction')
             for row in df_segment[projected_cols].values:
-                cols.append(row[iid_col_idx])
+                cols.append(row[uid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
-            return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='uid').shape[0]))[0]
+            return csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, int(self.max('uid')) + 1))[0]
 
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns).copy()
-- 
2.43.0


From 8a77779a55f61d76e2bca2ebd6860677df622577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 07/78] fix: in-memory interaction vectors fail on filtered
 datasets and while being built by another thread

---
 DRecPy/Dataset/mem_dataset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8e72060..01c19ba 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -487,7 +487,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
         users, cols, interactions = [], [], []
-        n_uids = self.count_unique('uid')
+        # internal ids might not be contiguous (e.g. rows were filtered after they were assigned)
+        n_uids = int(self.max('uid')) + 1
         projected_cols = [col for col in self.columns if col != 'rid']
         iid_col_idx = projected_cols.index('iid')
         interaction_col_idx = projected_cols.index('interaction')
@@ -498,7 +499,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 cols.append(row[iid_col_idx])
                 interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
-        self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, self.count_unique('iid')))
+        interaction_matrix = csr_matrix((interactions, (users, cols)), shape=(n_uids, int(self.max('iid')) + 1))
 
-        self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
+        self._cached_trans_interaction_matrix = interaction_matrix.transpose()
+        self._cached_interaction_matrix = interaction_matrix
-- 
2.43.0


From a0425e6ef482ccaf3f5354ee7565e118df4772d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 08/78] fix: in-memory interaction vectors are stale after
 in-place modifications

---
 DRecPy/Dataset/mem_dataset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 01c19ba..c6c8e14 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -222,6 +222,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
         new_ds.columns = columns
+        new_ds._clear_cached_interaction_matrix()
 
         return new_ds
 
@@ -253,6 +254,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]
         else:
             new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]
+        new_ds._clear_cached_interaction_matrix()
         return new_ds
 
     def user_to_uid(self, user):
@@ -327,6 +329,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         unique_items = self._df['item'].unique()
         item_cat = pd.Categorical(self._df['item'], categories=unique_items)
         self._df['iid'] = item_cat.codes
+        self._clear_cached_interaction_matrix()
         # to speed up item lookups
         self._item_mapping = dict([(cat, code) for code, cat in enumerate(item_cat.categories)])
         self._item_mapping_inv = dict([(code, cat) for code, cat in enumerate(item_cat.categories)])
@@ -477,12 +480,17 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if in_place:
             if condition_vector is not None:
                 self._df = self._df [condition_vector]
+                self._clear_cached_interaction_matrix()
             return self._df
         else:
             if condition_vector is not None:
                 return self._df[condition_vector]
             return self._df
 
+    def _clear_cached_interaction_matrix(self):
+        self._cached_interaction_matrix = None
+        self._cached_trans_interaction_matrix = None
+
     def _build_interaction_matrix(self):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
-- 
2.43.0


From f2b72b587b1ea49327e45f84c52bb4d8be710e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 09/78] fix: in-memory unique() ignores the rid column

---
 DRecPy/Dataset/mem_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index c6c8e14..3d5da31 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -217,9 +217,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         columns = self._handle_columns(columns).copy()
         new_ds = self.copy() if copy else self
 
-        if 'rid' not in columns: columns.append('rid')
         df_columns = [col for col in columns if col != 'rid']
-        new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
+        if 'rid' not in columns:  # record ids are unique: there's nothing to remove if they're taken into account
+            columns.append('rid')
+            new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
         new_ds.columns = columns
         new_ds._clear_cached_interaction_matrix()
-- 
2.43.0


From 8ef808d29b547c59d87440fb9b89cd0fe6b0c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 10/78] fix: in-memory save() ignores the columns argument

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 3d5da31..09860c3 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -307,7 +307,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self.path
 
-        projected_cols = deepcopy(self.columns)
+        projected_cols = deepcopy(self._handle_columns(columns))
         if 'rid' in projected_cols: projected_cols.remove('rid')
         if 'uid' in projected_cols: projected_cols.remove('uid')
         if 'iid' in projected_cols: projected_cols.remove('iid')
-- 
2.43.0


From 5750fe0cb25312054f061a1de2d408c232849f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 11/78] fix: compare column labels by value

---
 DRecPy/Dataset/mem_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 09860c3..44cca6a 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -52,15 +52,15 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if self.columns is None:
             self.columns = list(self._df.columns) + ['rid']
             user_label = kwds.get('user_label', None)
-            if user_label is not None and user_label is not 'user':
+            if user_label is not None and user_label != 'user':
                 self.columns.remove(user_label)
 
             item_label = kwds.get('item_label', None)
-            if item_label is not None and item_label is not 'item':
+            if item_label is not None and item_label != 'item':
                 self.columns.remove(item_label)
 
             interaction_label = kwds.get('interaction_label', None)
-            if interaction_label is not None and interaction_label is not 'interaction':
+            if interaction_label is not None and interaction_label != 'interaction':
                 self.columns.remove(interaction_label)
 
         # remove extra columns
-- 
2.43.0


From 89d84cfc4ead336ebbce6f05dd6a3d06db45c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 12/78] fix: record ids are not unique when the imported
 dataframe has a custom index

---
 DRecPy/Dataset/dataset_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_factory.py b/DRecPy/Dataset/dataset_factory.py
index 783bcc0..7e504ae 100644
--- a/DRecPy/Dataset/dataset_factory.py
+++ b/DRecPy/Dataset/dataset_factory.py
@@ -50,5 +50,5 @@ class InteractionsDatasetFactory:
         Returns:
             A InteractionDataset instance containing the provided data.
         """
-        return MemoryInteractionDataset(df=df.copy(), user_label=user_label, item_label=item_label,
+        return MemoryInteractionDataset(df=df.reset_index(drop=True), user_label=user_label, item_label=item_label,
                                         interaction_label=interaction_label, **kwds)
-- 
2.43.0


From 257267cde43ea3461ed48b526c2939b2fb701b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 13/78] fix: in-memory apply() raises after modifying the
 dataset when cached interaction vectors exist

---
 DRecPy/Dataset/mem_dataset.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 44cca6a..9351da6 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -359,10 +359,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             self._df = self._df.copy()
             self._df[column] = self._df[column].apply(function)
 
-            if column == 'interaction' and self._cached_interaction_matrix is not None:
-                self._cached_interaction_matrix = None
-                self._cached_trans_interaction_matrix = None
-                self._build_interaction_matrix()
+            if column == 'interaction': self._clear_cached_interaction_matrix()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
-- 
2.43.0


From 50767ab796d8576b32c829749f40d03a0129308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:15 +0000
Subject: [PATCH 14/78] fix: temporary file registrations can be lost when a
 file is unregistered

---
 DRecPy/Dataset/file_utils.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 140a84d..cc8d07b 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -1,4 +1,7 @@
 import os
+from threading import RLock
+
+_tmp_files_lock = RLock()  # re-entrant because datasets might be garbage collected while it's being held
 
 
 def data_path():
@@ -23,29 +26,27 @@ def is_stored(ds_name):
 
 def register_temp_file(file_path):
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
+        with _tmp_files_lock, open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
             f.write(file_path + '\n')
     except NameError: pass  # possible errors with calling 'open' on __del__
     except FileNotFoundError: pass
 
 
 def unregister_temp_file(file_path):
-    empty = True
-
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
-            paths = f.readlines()
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
-            for path in paths:
-                if path.strip("\n") != file_path:
-                    f.write(path)
-                    empty = False
+        tmp_files_path = os.path.join(data_path(), 'tmp_files.txt')
+        with _tmp_files_lock:
+            with open(tmp_files_path, 'r') as f:
+                paths = [path for path in f if path.strip("\n") != file_path]
+            if len(paths) == 0:
+                os.remove(tmp_files_path)
+                return
+            with open(tmp_files_path + '.new', 'w') as f:
+                f.writelines(paths)
+            os.replace(tmp_files_path + '.new', tmp_files_path)  # never leave a truncated list behind
     except NameError: pass
     except FileNotFoundError: pass
 
-    if empty:
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
-
 
 def delete_temp_files():
     try:
-- 
2.43.0


From e74de750c535f2a476e213fd65a6a9087e5f6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 15/78] fix: unique() and save() modify the list of columns
 given by the caller

---
 DRecPy/Dataset/db_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index df95d22..baefe77 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -232,7 +232,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     yield random_uid, random_iid
 
     def unique(self, columns=None, copy=True):
-        columns = self._handle_columns(columns)
+        columns = shallowcopy(self._handle_columns(columns))
         new_ds = self.copy() if copy else self
         new_ds.columns = columns
         if copy: self._record_interaction()
@@ -429,7 +429,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
         else:
-            projected_cols = self._handle_columns(columns)
+            projected_cols = shallowcopy(self._handle_columns(columns))
             if 'rid' in projected_cols: projected_cols.remove('rid')
             if 'uid' in projected_cols: projected_cols.remove('uid')
             if 'iid' in projected_cols: projected_cols.remove('iid')
-- 
2.43.0


From 6d632d190f17e702b97637979dde1419a3fcc510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 16/78] fix: exhausted value generators raise and unfinished
 ones are only released by the garbage collector

---
 DRecPy/Dataset/db_dataset.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index baefe77..acd1274 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -280,24 +280,22 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             def __init__(self, open_value_generators, row_to_record_fn):
                 self.open_value_generators = open_value_generators
                 self.row_to_record_fn = row_to_record_fn
-                self.iter = self.__iter__()
                 self.removed_gen = False
                 open_value_generators.add(c)
 
             def __iter__(self):
-                for row in c:
-                    yield self.row_to_record_fn(row, columns, to_list)
-
-                self.removed_gen = True
-                self.open_value_generators.remove(c)
-                c.close()
+                return self
 
             def __next__(self):
-                return next(self.iter)
+                row = None if self.removed_gen else c.fetchone()
+                if row is None:
+                    self.close()
+                    raise StopIteration
+                return self.row_to_record_fn(row, columns, to_list)
 
             def __del__(self):
                 if not self.removed_gen:
-                    self.open_value_generators.remove(c)
+                    self.open_value_generators.discard(c)
                     self.removed_gen = True
                     try:
                         c.close()
-- 
2.43.0


From 26f102b26a79b88bd2ebdbd0615f0004dae2beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 17/78] fix: string values with quotes or equal to a column
 name are misread by database queries

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index acd1274..0334e97 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -744,7 +744,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 elif col_type is list:
                     value = list(value).__repr__()
                 else:
-                    value = str('"' + value + '"')
+                    value = "'" + value.replace("'", "''") + "'"
             except ValueError:
                 raise Exception(
                     f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
-- 
2.43.0


From b91ad2954be390ec5cd6ba3efe2c0b7245ccc9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 18/78] fix: column types are unknown when a dataset is loaded
 from a sqlite file

---
 DRecPy/Dataset/db_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0334e97..7945a85 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -605,7 +605,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
         self._n_rows = len(self)
-        self.columns = [v[1] for v in self._conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in ['uid', 'iid']]
+        sql_py_type = {'INTEGER': int, 'REAL': float, 'TEXT': str}
+        table_info = self._conn.execute('PRAGMA table_info(interactions)').fetchall()
+        self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]
+        self._col_types = {v[1]: sql_py_type[v[2]] for v in table_info}
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-- 
2.43.0


From 66282dd527a3465d65886b357a1a37ed3c35426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 19/78] fix: encoding is ignored when inferring the column
 types of an out of memory dataset

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 7945a85..c22f85a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -669,7 +669,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding=encoding) as f:
             for row in f:
                 if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-- 
2.43.0


From 881984a200485fc2b42bcc6a82dbeea7285b767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 20/78] fix: blank lines break loading out of memory datasets

---
 DRecPy/Dataset/db_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index c22f85a..50e0566 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -633,6 +633,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 csv_reader = csv.reader(chunk, delimiter=delimiter)
                 records = []
                 for row in csv_reader:
+                    if len(row) == 0: continue  # blank line
                     record = []
                     for value, col in zip(row, projected_cols):
                         if col is None:  # accept None cols when reading as skip cols
-- 
2.43.0


From 118642d096e0eb17951ceeb1708a102736a7e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 21/78] fix: values with commas are split when loading files
 with multi-character delimiters out of memory

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 50e0566..6916b45 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -665,7 +665,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         replace_delimiter = False
         if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
             replace_delimiter = True
-            new_delimiter = ','
+            new_delimiter = '\x1f'  # unit separator: not expected to be present on the values
 
         # read num of lines + detect column types
         num_lines = 0
-- 
2.43.0


From 6aa650f50e2fbf2f4f2a9d8e54af7018536f496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:51 +0000
Subject: [PATCH 22/78] fix: database save() writes csv files that can not be
 read back

---
 DRecPy/Dataset/db_dataset.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 6916b45..d95db70 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -432,12 +432,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if 'uid' in projected_cols: projected_cols.remove('uid')
             if 'iid' in projected_cols: projected_cols.remove('iid')
             with open(path, 'w') as f:
+                csv_writer = csv.writer(f, lineterminator='\n')
                 if write_header:
-                    f.write(','.join(projected_cols))
-                    f.write('\n')
-                for row in self.values(columns=projected_cols, to_list=True):
-                    f.write(','.join([str(col) if col is not None else '' for col in row]))
-                    f.write('\n')
+                    csv_writer.writerow(projected_cols)
+                for row in self.values(columns=projected_cols):
+                    csv_writer.writerow([row[col] for col in projected_cols])
 
     def assign_internal_ids(self):
         self._optimize_states()
-- 
2.43.0


From 31f7078c48f2aaa5e073bc5a52e3bf97697c7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 23/78] fix: cached interaction vectors can be removed by
 another thread before being returned

---
 DRecPy/Dataset/db_dataset.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d95db70..ba68be7 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -106,8 +106,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
 
-        if uid in self._user_interaction_vec_cache:
-            return self._user_interaction_vec_cache[uid]
+        cached_interaction_vec = self._user_interaction_vec_cache.get(uid)
+        if cached_interaction_vec is not None:
+            return cached_interaction_vec
 
         if len(self._user_interaction_vec_cache) > self._user_vec_cache_limit:
             self._user_interaction_vec_cache.clear()
@@ -120,20 +121,21 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             cols.append(iid)
             interactions.append(float(interaction))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
+        interaction_vec = csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, max_iid + 1))[0]
         try:
-            self._user_interaction_vec_cache[uid] = csr_matrix((interactions, ([0] * len(interactions), cols)),
-                                                               shape=(1, max_iid + 1))[0]
+            self._user_interaction_vec_cache[uid] = interaction_vec
         except MemoryError:
             self._user_interaction_vec_cache.clear()
 
-        return self._user_interaction_vec_cache[uid]
+        return interaction_vec
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
 
-        if iid in self._item_interaction_vec_cache:
-            return self._item_interaction_vec_cache[iid]
+        cached_interaction_vec = self._item_interaction_vec_cache.get(iid)
+        if cached_interaction_vec is not None:
+            return cached_interaction_vec
 
         if len(self._item_interaction_vec_cache) > self._item_vec_cache_limit:
             self._item_interaction_vec_cache.clear()
@@ -146,13 +148,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             cols.append(uid)
             interactions.append(float(interaction))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
+        interaction_vec = csr_matrix((interactions, ([0] * len(interactions), cols)), shape=(1, max_uid + 1))[0]
         try:
-            self._item_interaction_vec_cache[iid] = csr_matrix((interactions, ([0] * len(interactions), cols)),
-                                                               shape=(1, max_uid + 1))[0]
+            self._item_interaction_vec_cache[iid] = interaction_vec
         except MemoryError:
             self._item_interaction_vec_cache.clear()
 
-        return self._item_interaction_vec_cache[iid]
+        return interaction_vec
 
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
-- 
2.43.0


From bcd279f4706f9eeca1d22273e7d841fde74cfcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 24/78] fix: database interaction vectors are stale after
 in-place modifications

---
 DRecPy/Dataset/db_dataset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ba68be7..7d21744 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -482,6 +482,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._create_internal_id_indexes(c, table_name=self._active_table)  # after optimize_states, self._state_query = new table name
         self._conn.commit()
+        self._clear_interaction_vec_caches()
         self.has_internal_ids = True
 
     def remove_internal_ids(self):
@@ -557,6 +558,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._state_query = ''
 
             self._conn.commit()
+            self._clear_interaction_vec_caches()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
@@ -792,8 +794,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 and len(self._open_value_generators) == 0:
             self._optimize_states()
 
+    def _clear_interaction_vec_caches(self):
+        self._user_interaction_vec_cache.clear()
+        self._item_interaction_vec_cache.clear()
+
     def _update_state(self, new_state):
         self._queries_wo_optimize += 1
+        self._clear_interaction_vec_caches()
 
         self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
 
-- 
2.43.0


From c87189289d20edad748c8afa9833262184576dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 25/78] fix: datasets with a subset of the columns fail after a
 number of operations

---
 DRecPy/Dataset/db_dataset.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 7d21744..970871c 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -406,6 +406,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 0:
                 raise Exception(f'Cannot save the current data into "{path}" because there are other '
                                 f'instances that are using this file.')
+            self._validate_required_columns()
             tmp_path = path + ".tmp"
             if isfile(tmp_path): remove(tmp_path)
 
@@ -682,6 +683,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
+        self._validate_required_columns()
         self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
@@ -909,6 +911,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         if len(records) > 0: c.executemany(insert_query, records)
 
+    def _validate_required_columns(self):
+        for req_col in ['rid', 'user', 'item', 'interaction']:
+            assert req_col in self.columns, f'Missing "{req_col}" column.'
+
     def _build_table(self, c, table_name='interactions'):
         py_sql_type = {
             int: 'INTEGER',
@@ -917,11 +923,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             list: 'TEXT'
         }
 
-        required_cols = ['rid', 'user', 'item', 'interaction']
-
-        for req_col in required_cols:
-            assert req_col in self.columns, f'Missing "{req_col}" column.'
-
         create_sql_statement = f'CREATE TABLE {table_name} (' \
             'rid INTEGER PRIMARY KEY,' \
             'uid INTEGER,' \
-- 
2.43.0


From 8053e5e2894e712bf2638ccb1ac002e228d50ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 26/78] fix: auxiliary table names depend on, and collide with,
 the global random seed

---
 DRecPy/Dataset/db_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 970871c..382cf9a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -13,6 +13,7 @@ from os.path import isfile
 from os.path import join
 from os.path import expanduser
 from scipy.sparse import csr_matrix
+from uuid import uuid4
 
 
 class DatabaseInteractionDataset(InteractionDatasetABC):
@@ -529,7 +530,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 cur_read.execute(self._build_new_state())
 
                 self._col_types[column] = new_col_type
-                new_table_name = f'interactions_{str(random.random()).split(".")[1]}'
+                new_table_name = f'interactions_{uuid4().hex}'
                 c = self._open_cursor()
                 self._build_table(c, new_table_name)
 
@@ -684,7 +685,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
         self._validate_required_columns()
-        self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
+        self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -843,7 +844,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             # this are more instances using the current active table on this database
             # optimize query path by creating a new compressed query node
-            red_table = f'interactions_{str(random.random()).split(".")[1]}'
+            red_table = f'interactions_{uuid4().hex}'
 
             self._build_table(c, table_name=red_table)
 
-- 
2.43.0


From 942d351ad0452f28b8132b03f60d651cb6720727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 27/78] fix: concurrent use of an out of memory dataset loses
 rows while its state is being optimized

---
 DRecPy/Dataset/db_dataset.py | 73 ++++++++++++++++++++----------------
 DRecPy/Dataset/file_utils.py | 22 +++++------
 2 files changed, 50 insertions(+), 45 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 382cf9a..66e80a8 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -13,10 +13,12 @@ from os.path import isfile
 from os.path import join
 from os.path import expanduser
 from scipy.sparse import csr_matrix
+from threading import RLock
 from uuid import uuid4
 
 
 class DatabaseInteractionDataset(InteractionDatasetABC):
+    _lock = RLock()  # guards the state and the shared structures (re-entrant because of instances being GCed while locked)
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
@@ -59,13 +61,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             self._load_from_csv(path, kwds.get('delimiter', ','), kwds.get('has_header', True), kwds.get('encoding', None))
 
-        if self._db_path not in self._shared_db_instances:
-            self._shared_db_instances[self._db_path] = set()
-        self._shared_db_instances[self._db_path].add(id(self))
-
-        if self._db_path + self._active_table not in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table] = set()
-        self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))
+        with self._lock:
+            self._shared_db_instances.setdefault(self._db_path, set()).add(id(self))
+            self._shared_db_table_instances.setdefault(self._db_path + self._active_table, set()).add(id(self))
 
         self._n_rows = len(self)
         self._n_rows_before_opt = self._n_rows
@@ -74,9 +72,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def __len__(self):
         if self._n_rows is None:
-            c = self._open_cursor()
-            c.execute(f'SELECT COUNT(*) FROM ({self._curr_state_source()})')
-            self._n_rows = c.fetchone()[0]
+            self._n_rows = self._fetch_one('SELECT COUNT(*) FROM ({source})')[0]
         return self._n_rows
 
     def select(self, query, copy=True):
@@ -94,11 +90,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         query_conditions = self._parse_query(query)
         columns = self._handle_columns(columns)
 
-        new_state = self._build_new_state(query_conditions, limit=1)
-
-        c = self._open_cursor()
+        with self._lock:
+            row = self._open_cursor().execute(self._build_new_state(query_conditions, limit=1)).fetchone()
 
-        row = c.execute(new_state).fetchone()
         if row is None: return None
 
         return self._from_row_to_record(row, columns, to_list)
@@ -258,25 +252,19 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._record_interaction()
         columns = self._handle_columns(columns)
 
-        c = self._open_cursor()
-        c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({self._curr_state_source()}))')
-        return c.fetchone()[0]
+        return self._fetch_one(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({{source}}))')[0]
 
     def max(self, column=None):
         self._record_interaction()
         self._validate_column(column)
 
-        c = self._open_cursor()
-        c.execute(f'SELECT MAX({column}) FROM ({self._curr_state_source()})')
-        return c.fetchone()[0]
+        return self._fetch_one(f'SELECT MAX({column}) FROM ({{source}})')[0]
 
     def min(self, column=None):
         self._record_interaction()
         self._validate_column(column)
 
-        c = self._open_cursor()
-        c.execute(f'SELECT MIN({column}) FROM ({self._curr_state_source()})')
-        return c.fetchone()[0]
+        return self._fetch_one(f'SELECT MIN({column}) FROM ({{source}})')[0]
 
     def values(self, columns=None, to_list=False):
         class ValueGenerator:
@@ -311,11 +299,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._record_interaction()
         columns = self._handle_columns(columns)
 
-        curr_state_query = self._build_new_state()
-        c = self._open_cursor()
-        c.execute(curr_state_query)
-
-        return ValueGenerator(self._open_value_generators, self._from_row_to_record)
+        with self._lock:
+            c = self._open_cursor()
+            c.execute(self._build_new_state())
+            return ValueGenerator(self._open_value_generators, self._from_row_to_record)
 
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
@@ -566,6 +553,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
     def copy(self):
+        with self._lock:  # the state must not change while being copied
+            return self._copy()
+
+    def _copy(self):
         new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
                          verbose=False)
 
@@ -584,6 +575,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def close(self):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
+        with self._lock:
+            self._close()
+
+    def _close(self):
         if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
@@ -770,12 +765,13 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         return query_conditions
 
     def _build_new_state(self, query_conditions=None, limit=None):
-        if self._state_query == '':
+        state_query = self._state_query
+        if state_query == '':
             new_state = f'SELECT {",".join(self.columns)} FROM {self._active_table}'
             if query_conditions is not None:
                 new_state += f' WHERE {" AND ".join(query_conditions)}'
         else:
-            new_state = f'{self._state_query}'
+            new_state = state_query
             if query_conditions is not None:
                 new_state += f' AND {" AND ".join(query_conditions)}'
 
@@ -787,7 +783,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def _curr_state_source(self):
         """Auxiliary method that returns self.state_query when a filter has already been applied, or the
         active table name otherwise."""
-        return self._state_query if self._state_query != '' else self._active_table
+        state_query = self._state_query
+        return state_query if state_query != '' else self._active_table
+
+    def _fetch_one(self, statement):
+        """Auxiliary method that returns the first row produced by the provided statement, where "{source}" is replaced
+        by the current state source."""
+        with self._lock:
+            return self._open_cursor().execute(statement.format(source=self._curr_state_source())).fetchone()
 
     def _record_interaction(self):
         """Records a direct interaction with the current DatabaseInteractionDataset instance. If the number of direct
@@ -826,6 +829,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 1. Creates a reduced table;
                 2. Inserts state query result into the new reduced table.
         """
+        with self._lock:
+            self._optimize_states_aux(skip_empty_query)
+
+    def _optimize_states_aux(self, skip_empty_query):
         self._queries_wo_optimize = 0
         self._n_direct_interactions = 0
 
@@ -852,6 +859,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             c.execute(f'INSERT INTO {red_table} ({col_names}) SELECT {col_names} FROM ({self._curr_state_source()})')
 
             self._build_indexes(c, table_name=red_table)
+            self._conn.commit()
             # do not delete set because there are more instances using the db, table pair
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             self._shared_db_table_instances[self._db_path + red_table] = set()
@@ -877,7 +885,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         if not isfile(db_path):
             if loading:
                 raise FileNotFoundError(f'No database file found at "{db_path}".')
-            register_temp_file(db_path)
+            with self._lock:
+                register_temp_file(db_path)
         self._db_path = db_path
         self._conn = sql.connect(db_path, check_same_thread=False)
         self._set_pragmas(self._conn)
diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index cc8d07b..a1e3449 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -1,7 +1,4 @@
 import os
-from threading import RLock
-
-_tmp_files_lock = RLock()  # re-entrant because datasets might be garbage collected while it's being held
 
 
 def data_path():
@@ -26,7 +23,7 @@ def is_stored(ds_name):
 
 def register_temp_file(file_path):
     try:
-        with _tmp_files_lock, open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
+        with open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
             f.write(file_path + '\n')
     except NameError: pass  # possible errors with calling 'open' on __del__
     except FileNotFoundError: pass
@@ -35,15 +32,14 @@ def register_temp_file(file_path):
 def unregister_temp_file(file_path):
     try:
         tmp_files_path = os.path.join(data_path(), 'tmp_files.txt')
-        with _tmp_files_lock:
-            with open(tmp_files_path, 'r') as f:
-                paths = [path for path in f if path.strip("\n") != file_path]
-            if len(paths) == 0:
-                os.remove(tmp_files_path)
-                return
-            with open(tmp_files_path + '.new', 'w') as f:
-                f.writelines(paths)
-            os.replace(tmp_files_path + '.new', tmp_files_path)  # never leave a truncated list behind
+        with open(tmp_files_path, 'r') as f:
+            paths = [path for path in f if path.strip("\n") != file_path]
+        if len(paths) == 0:
+            os.remove(tmp_files_path)
+            return
+        with open(tmp_files_path + '.new', 'w') as f:
+            f.writelines(paths)
+        os.replace(tmp_files_path + '.new', tmp_files_path)  # never leave a truncated list behind
     except NameError: pass
     except FileNotFoundError: pass
 
-- 
2.43.0


From f9d104421d11e67df07df3fa3f5660b39bdae211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 28/78] fix: datasets loaded from a sqlite file delete the
 persisted records

---
 DRecPy/Dataset/db_dataset.py | 52 ++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 66e80a8..b1ff19a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -11,6 +11,7 @@ from os import remove
 from os import rename
 from os.path import isfile
 from os.path import join
+from os.path import split
 from os.path import expanduser
 from scipy.sparse import csr_matrix
 from threading import RLock
@@ -384,7 +385,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         Returns:
             None.
         """
-        if len(path) == 0 and '.tmp.' in self._db_path:
+        if len(path) == 0 and self._is_temp_db():
             raise Exception('No save path was specified.')
 
         if len(path) == 0: path = self._db_path
@@ -579,28 +580,46 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._close()
 
     def _close(self):
-        if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
-            if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
-                del self._shared_db_table_instances[self._db_path + self._active_table]
-                if len(self._open_value_generators) == 0:
-                    self._open_cursor().execute(f'DROP TABLE {self._active_table}')
+        if self._db_path is None: return
+
+        if self._release_active_table() and not self._is_persisted_table() and len(self._open_value_generators) == 0:
+            try:
+                self._open_cursor().execute(f'DROP TABLE {self._active_table}')
+            except sql.OperationalError:  # still being read: it's removed with the db file
+                pass
 
         if self._conn is not None:
             self._conn.close()
 
-        if self._db_path is not None and self._db_path in self._shared_db_instances:
-            self._shared_db_instances[self._db_path].remove(id(self))
-            if len(self._shared_db_instances[self._db_path]) == 0:
-                del self._shared_db_instances[self._db_path]
-                if '.tmp.' in self._db_path:
-                    remove(self._db_path)
-                    unregister_temp_file(self._db_path)
+        self._shared_db_instances.get(self._db_path, set()).discard(id(self))
+        if len(self._shared_db_instances.get(self._db_path, set())) == 0:
+            self._shared_db_instances.pop(self._db_path, None)
+            if self._is_temp_db() and isfile(self._db_path):
+                remove(self._db_path)
+                unregister_temp_file(self._db_path)
 
     def __str__(self):
         return f'[DatabaseInteractionDataset with shape ({len(self)}, {len(self.columns)})]'
 
     """ Auxiliary private methods"""
+    def _is_temp_db(self):
+        """Returns True if the current db file is managed by this class, or False if it was provided by the user."""
+        db_folder, db_name = split(self._db_path)
+        return db_folder == data_path() and db_name.startswith('interactions_') and db_name.endswith('.tmp.sqlite')
+
+    def _is_persisted_table(self):
+        """Returns True if the records of the active table belong to the user and should never be modified."""
+        return self._active_table == 'interactions' and not self._is_temp_db()
+
+    def _release_active_table(self):
+        """Stops using the active table. Returns True if this was the last instance using it."""
+        table_instances = self._shared_db_table_instances.get(self._db_path + self._active_table, set())
+        if id(self) not in table_instances: return False
+        table_instances.remove(id(self))
+        if len(table_instances) > 0: return False
+        del self._shared_db_table_instances[self._db_path + self._active_table]
+        return True
+
     def _load_from_db(self, path):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
@@ -843,7 +862,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         c = self._open_cursor()
 
-        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1:
+        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and not self._is_persisted_table():
             # this is the only instance using the current active table on this database
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
@@ -860,8 +879,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             self._build_indexes(c, table_name=red_table)
             self._conn.commit()
-            # do not delete set because there are more instances using the db, table pair
-            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
+            self._release_active_table()
             self._shared_db_table_instances[self._db_path + red_table] = set()
             self._shared_db_table_instances[self._db_path + red_table].add(id(self))
             self._active_table = red_table
-- 
2.43.0


From 90b04342d424f78448ca9fb35fe849513fe71190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 29/78] fix: saving a dataset into the sqlite file it was
 loaded from applies its filters twice

---
 DRecPy/Dataset/db_dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index b1ff19a..119596b 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -415,6 +415,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
                 self._open_connection(path, loading=True)
+                # the new db only contains the current state
+                self._release_active_table()
+                self._active_table = 'interactions'
+                self._shared_db_table_instances[self._db_path + self._active_table] = {id(self)}
+                self._state_query = ''
             else:  # saving into distinct destination
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
-- 
2.43.0


From 3ae1c33457ac961c70150ec22602d691e3833e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 30/78] fix: a failed apply() leaves the database dataset
 partially modified

---
 DRecPy/Dataset/db_dataset.py | 43 ++++++++++++++----------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 119596b..76f92dc 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -501,29 +501,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             new_col_type = type(test_record[column])
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
-            if new_col_type == self._col_types[column]:  # type does not change
-                self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
-
-                cur_read = self._open_cursor()
-                cur_updt = self._open_cursor()
-                cur_updt.execute('BEGIN')
-
-                cur_read.execute(self._build_new_state())
-                _iter = cur_read
-                if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
-                for row in _iter:
-                    record = self._from_row_to_record(row, [column, 'rid'])
-                    cur_updt.execute(f'UPDATE {self._active_table} SET {column} = ? WHERE rid = ?',
-                                     (function(record[column]), record['rid']))
-
-                cur_updt.execute("END")
-            else:
-                # type changes, require table structure change
-                cur_read = self._open_cursor()
+            old_col_type = self._col_types[column]
+            new_table_name = f'interactions_{uuid4().hex}'
+            cur_read = self._open_cursor()
+            try:
+                # write into a new table, so that nothing changes if the transformation fails
                 cur_read.execute(self._build_new_state())
 
                 self._col_types[column] = new_col_type
-                new_table_name = f'interactions_{uuid4().hex}'
                 c = self._open_cursor()
                 self._build_table(c, new_table_name)
 
@@ -535,7 +520,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 _iter = cur_read
                 if self.verbose: _iter = tqdm(cur_read, total=len(self), desc='Applying transformation')
                 for row in _iter:
-                    record = self._from_row_to_record(row, self.columns, to_list=True)
+                    record = list(row[:len(self.columns)])
                     record[updt_col_index] = function(record[updt_col_index])
                     chunk.append(tuple(record))
                     if len(chunk) == self.chunk_size:
@@ -546,13 +531,19 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
 
                 self._build_indexes(self._open_cursor(), table_name=new_table_name)
-                self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
-                self._shared_db_table_instances[self._db_path + new_table_name] = set()
-                self._shared_db_table_instances[self._db_path + new_table_name].add(id(self))
-                self._active_table = new_table_name
-                self._state_query = ''
+            except Exception:
+                self._col_types[column] = old_col_type
+                cur_read.close()
+                self._conn.commit()
+                self._open_cursor().execute(f'DROP TABLE IF EXISTS {new_table_name}')
+                raise
 
             self._conn.commit()
+            if self._release_active_table() and not self._is_persisted_table() and len(self._open_value_generators) == 0:
+                self._open_cursor().execute(f'DROP TABLE {self._active_table}')
+            self._shared_db_table_instances[self._db_path + new_table_name] = {id(self)}
+            self._active_table = new_table_name
+            self._state_query = ''
             self._clear_interaction_vec_caches()
 
         except Exception as e:
-- 
2.43.0


From 32a299d960df8a2e2e16c04b0e3b27269b910790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:43 +0000
Subject: [PATCH 31/78] fix: internal ids are assigned to rows of other
 datasets while there are open value generators

---
 DRecPy/Dataset/db_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 76f92dc..0fd2598 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -437,6 +437,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def assign_internal_ids(self):
         self._optimize_states()
+        if self._state_query != '':
+            raise Exception('Cannot assign internal ids to a filtered dataset while there are open value generators.')
         self._conn.commit()
 
         # create cursor for reads and updates
-- 
2.43.0


From 9f4875286b12290003929891eeb5f81da21a64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:39 +0000
Subject: [PATCH 32/78] fix: string values with spaces or commas can not be
 used in queries

---
 DRecPy/Dataset/dataset_abc.py | 20 ++++++++++++++++++++
 DRecPy/Dataset/db_dataset.py  |  4 ++--
 DRecPy/Dataset/mem_dataset.py |  4 ++--
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index c4f1539..97a54cf 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -347,6 +347,26 @@ class InteractionDatasetABC(ABC):
 
         return columns
 
+    @staticmethod
+    def _split_unquoted(text, separator):
+        """Splits the text on every separator that is not inside of a quoted string."""
+        parts, current, quote, escaped = [], '', None, False
+        for char in text:
+            if quote is None and char == separator:
+                parts.append(current)
+                current = ''
+                continue
+
+            if quote is None:
+                if char in ['"', "'"]: quote = char
+            elif escaped: escaped = False
+            elif char == '\\': escaped = True
+            elif char == quote: quote = None
+            current += char
+
+        parts.append(current)
+        return parts
+
     def _log(self, msg):
         if not self.verbose: return
         print(f'[{self.__class__.__name__}] {msg}')
diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0fd2598..b142da1 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -742,12 +742,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _parse_query(self, query):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_unquoted(query, ',')
         query_conditions = []
 
         for segment in query_segments:
             segment = segment.strip()
-            column, operator, value = segment.split(" ")
+            column, operator, value = self._split_unquoted(segment, ' ')
             assert column is not None or operator is not None or value is not None, \
                 'Invalid get query, must be in form: column1 operator1 value1, column2 operator2 value2, ...'
             assert column in self.columns, 'Unexpected column "{c}".'.format(c=column)
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 9351da6..dfded7d 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -389,14 +389,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     """ Auxiliary methods """
     def _apply_query(self, query, in_place=True):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_unquoted(query, ',')
 
         condition_vector = None
 
         for idx, segment in enumerate(query_segments):
             segment = segment.strip()
             try:
-                column, operator, value = segment.split(" ")
+                column, operator, value = self._split_unquoted(segment, ' ')
             except ValueError:
                 raise Exception(
                     f'Query segment failed to be parsed. Check if there are no missing spaces or invalid characters.'
-- 
2.43.0


From d0a798995b899ec1472abd75d0e2be16c30df33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 33/78] fix: splits and evaluation processes fail on string
 user or item ids

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 6 +++---
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 4 ++--
 DRecPy/Evaluation/Splits/leave_k_out.py                  | 4 ++--
 DRecPy/Evaluation/Splits/matrix_split.py                 | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 4333e20..bf0833d 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -164,7 +164,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                               train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -194,7 +194,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 user_train_pos_ds = user_test_pos_ds
             else:
                 user_train_pos_ds = model.interaction_dataset \
-                    .select(f'user == {user}, interaction >= {interaction_threshold}')
+                    .select(f'user == {user!r}, interaction >= {interaction_threshold}')
 
             item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
             if not train_evaluation:
@@ -220,7 +220,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # rank according to model
     recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in all_items}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 98816b9..fc1bf11 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -138,7 +138,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     global n_tasks_done
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -163,7 +163,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                            interaction_threshold=ignore_low_predictions_threshold)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in set(user_interacted_items).union(set(recommendations))}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 2d2a91e..68ad46c 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -98,7 +98,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     n_sampled_items = int(len(user_rows_ds) * k)
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
                       last_timestamps, timestamp_label)
@@ -106,7 +106,7 @@ def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, m
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                       last_timestamps, timestamp_label)
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 2d1fa6d..7bfc31a 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -86,7 +86,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
-- 
2.43.0


From 3a80a4c58aa460bc52b253faced19982041c0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 34/78] fix: splits hang or silently lose the test records of
 users when their task fails

---
 DRecPy/Evaluation/Splits/leave_k_out.py  | 18 ++++++++++--------
 DRecPy/Evaluation/Splits/matrix_split.py |  9 +++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 68ad46c..d6a13d0 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -63,18 +63,19 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, tasks = [], [], []
     for user in _iter:
         seed += 1
         n_tasks += 1
         if ratio_variant:
-            pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
-                                                       min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+            task = pool.apply_async(_leave_k_out_user_ratio, (interaction_dataset, train_rids_to_rem, test_rids,
+                                                              min_user_interactions, user, k, random.Random(seed),
+                                                              last_timestamps, timestamp_label))
         else:
-            pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
-                                                       min_user_interactions, user, k, random.Random(seed),
-                                                       last_timestamps, timestamp_label))
+            task = pool.apply_async(_leave_k_out_user_fixed, (interaction_dataset, train_rids_to_rem, test_rids,
+                                                              min_user_interactions, user, k, random.Random(seed),
+                                                              last_timestamps, timestamp_label))
+        tasks.append(task)
 
     pool.close()  # Done adding tasks
 
@@ -84,11 +85,12 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
         while n_tasks_done <= n_tasks:
             pbar.update(n_tasks_done - curr_done)
             curr_done = n_tasks_done
-            if n_tasks_done == n_tasks:
+            if n_tasks_done == n_tasks or all(task.ready() for task in tasks):
                 break
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    for task in tasks: task.get()  # Raise the exceptions of failed tasks, if any
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 7bfc31a..8409fec 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -57,11 +57,11 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
     n_tasks_done, n_tasks = 0, 0
 
     pool = ThreadPool(processes=max_concurrent_threads)
-    train_rids_to_rem, test_rids = [], []
+    train_rids_to_rem, test_rids, tasks = [], [], []
     for user in _iter:
         n_tasks += 1
-        pool.apply_async(_matrix_split_user, (interaction_dataset, train_rids_to_rem, test_rids, user,
-                                              min_user_interactions, test_items_set, test_users_set))
+        tasks.append(pool.apply_async(_matrix_split_user, (interaction_dataset, train_rids_to_rem, test_rids, user,
+                                                           min_user_interactions, test_items_set, test_users_set)))
 
     pool.close()  # Done adding tasks
 
@@ -71,11 +71,12 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
         while n_tasks_done <= n_tasks:
             pbar.update(n_tasks_done - curr_done)
             curr_done = n_tasks_done
-            if n_tasks_done == n_tasks:
+            if n_tasks_done == n_tasks or all(task.ready() for task in tasks):
                 break
             time.sleep(1)
 
     pool.join()  # Wait for all tasks to complete
+    for task in tasks: task.get()  # Raise the exceptions of failed tasks, if any
 
     ds_test = interaction_dataset.drop(test_rids, keep=True)
     ds_train = interaction_dataset.drop(train_rids_to_rem + test_rids)
-- 
2.43.0


From 885b01005a69b674a6589b0714fa947acb703d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:14 +0000
Subject: [PATCH 35/78] fix: recommendation_evaluation hangs when the
 evaluation of a user fails

---
 .../Processes/recommendation_evaluation.py    | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index fc1bf11..022e9df 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -9,6 +9,7 @@ import matplotlib.pyplot as plt
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 import time
+import logging
 
 n_tasks_done = 0
 n_tasks_lock = Lock()
@@ -135,9 +136,23 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
 
 def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
+    """Encapsulates the recommendation evaluation process for the given user, to log possible errors from the
+    execution."""
+    global n_tasks_done
+    try:
+        __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                         novelty, ignore_low_predictions_threshold, metric_sums, k, rng)
+    except Exception as e:
+        logging.error(e)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    global n_tasks_done
     user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
@@ -146,8 +161,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = user_test_pos_ds.values_list(['item', 'interaction'])
     else:
         if len(user_test_pos_ds) < n_pos_interactions:  # not enough positive interactions
-            with n_tasks_lock:
-                n_tasks_done += 1
             return
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
@@ -157,8 +170,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     # join and shuffle all items
     if len(user_interacted_items) == 0:
-        with n_tasks_lock:
-            n_tasks_done += 1
         return
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
@@ -187,6 +198,3 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
                     metric_sums[(m.name, k_)][0] += m(**params)
                     metric_sums[(m.name, k_)][1] += 1
                 except: pass
-
-    with n_tasks_lock:
-        n_tasks_done += 1
-- 
2.43.0


From fa9c719d382bc73fe2eb7b8a6d3ccb1403a22191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:20 +0000
Subject: [PATCH 36/78] fix: evaluation processes take the least relevant item
 as the most relevant one

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 2 +-
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index bf0833d..659b256 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -176,7 +176,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # get negative interactions
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 022e9df..bc62107 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -165,7 +165,7 @@ def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # join and shuffle all items
-- 
2.43.0


From 85c4f2e4ec1a6ab08bbdf17a2c9c15b5bff47e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:30 +0000
Subject: [PATCH 37/78] fix: generated negative items are internal ids instead
 of raw item ids

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 659b256..1503ca3 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -207,8 +207,9 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                              f"{n_neg_interactions}. Consider decreasing the n_neg_interactions parameter.")
                 return
 
+            candidate_items = sorted(model.interaction_dataset.unique('item').values_list('item', to_list=True))
             while len(user_non_interacted_items) < n_neg_interactions:
-                new_item = rng.randint(0, model.n_items - 1)
+                new_item = candidate_items[rng.randint(0, len(candidate_items) - 1)]
                 if new_item not in item_blacklist and new_item not in user_non_interacted_items:
                     user_non_interacted_items.append(new_item)
 
-- 
2.43.0


From b271cffa3597098735994d56e21cbf1e475c219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:30 +0000
Subject: [PATCH 38/78] fix: FScore is undefined when there are no relevant
 recommendations

---
 DRecPy/Evaluation/Metrics/ranking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Evaluation/Metrics/ranking.py b/DRecPy/Evaluation/Metrics/ranking.py
index b39d12f..79838cf 100644
--- a/DRecPy/Evaluation/Metrics/ranking.py
+++ b/DRecPy/Evaluation/Metrics/ranking.py
@@ -209,6 +209,7 @@ class FScore(RankingMetricABC):
         p = self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=k)
         r = self.recall(recommendations, relevant_recommendations=relevant_recommendations, k=k)
 
+        if p == 0 and r == 0: return 0
         return (1 + self.beta ** 2) * p * r / ((self.beta ** 2 * p) + r)
 
 
-- 
2.43.0


From 0f1803d9f79fd6eba8bd42acf62ee23a7b52ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:19 +0000
Subject: [PATCH 39/78] fix: ListSampler fails to group records by columns of
 type string

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a6175ef..2732c30 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -94,7 +94,7 @@ class ListSampler:
                 chosen_group = self.rng.choice(self.unique_groups)
                 if not isinstance(chosen_group, list):
                     chosen_group = [chosen_group]
-                query = ','.join([f'{group_col} == {chosen_col_group}' for group_col, chosen_col_group
+                query = ','.join([f'{group_col} == {chosen_col_group!r}' for group_col, chosen_col_group
                                   in zip(self.group_columns, chosen_group)])
                 group_records_ds = self.interaction_dataset.select(query)
                 if self.interaction_threshold is None:
-- 
2.43.0


From 880ad474d37cf3b5847287c8b191ae6253aa728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:19 +0000
Subject: [PATCH 40/78] fix: ListSampler fails to sample negative ids from a
 set

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 2732c30..8d7a377 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -144,7 +144,7 @@ class ListSampler:
                                         f'({self.neg_ratio}) or the n_targets ({self.n_targets}).')
                     continue
 
-                negative_ids = self.rng.sample(eligible_negative_ids, n_negative_ids)
+                negative_ids = self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)
                 group_records_list.append((positive_group_records, target_group_records, negative_ids))
                 break
 
-- 
2.43.0


From 72f125215b597050c82030787a5bad06dbe4fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:19 +0000
Subject: [PATCH 41/78] fix: ListSampler returns the wrong number of targets,
 or fails, on groups that are not truncated

---
 DRecPy/Sampler/list_sampler.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 8d7a377..d26e8bb 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -115,24 +115,19 @@ class ListSampler:
                     positive_group_records.sort(key=lambda x: x[self.sort_column])
                 all_positive_group_records = positive_group_records
 
-                padding = None
-                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records:
-                    if self.n_targets is None:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
-                    else:
-                        padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records - self.n_targets)
-                    positive_group_records = positive_group_records[padding:padding + self.max_positive_records]
+                if self.max_positive_records is not None:
+                    max_records = self.max_positive_records + (0 if self.n_targets is None else self.n_targets)
+                    if len(positive_group_records) > max_records:
+                        padding = self.rng.randint(0, len(positive_group_records) - max_records)
+                        positive_group_records = positive_group_records[padding:padding + max_records]
 
                 if self.n_targets is None:
                     group_records_list.append(positive_group_records)
                     break
 
                 eligible_negative_ids = self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))
-                if padding is None:
-                    target_group_records = positive_group_records[self.n_targets:]
-                    positive_group_records = positive_group_records[:self.n_targets]
-                else:
-                    target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
+                target_group_records = positive_group_records[-self.n_targets:]
+                positive_group_records = positive_group_records[:-self.n_targets]
 
                 # sample negative ids or skip if not possible
                 n_negative_ids = self.neg_ratio * len(target_group_records)
-- 
2.43.0


From f568d6409ad5788fc7bcc88ce209588c3ebc2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:19 +0000
Subject: [PATCH 42/78] fix: fit() fails when asked to copy the dataset

---
 DRecPy/Recommender/recommender_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 352aac3..aed3330 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -134,7 +134,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-            self.interaction_dataset = interaction_dataset.__copy__()
+            self.interaction_dataset = interaction_dataset.copy()
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
-- 
2.43.0


From 78c2d4cef8673547c5febc8c655625c0a320c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 43/78] fix: deep recommenders can not be trained with current
 tensorflow/keras versions

---
 DRecPy/Recommender/cdae.py            |  2 +-
 DRecPy/Recommender/dmf.py             |  2 +-
 DRecPy/Recommender/recommender_abc.py | 13 +++----------
 3 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index a908503..ed262ed 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -76,7 +76,7 @@ class CDAE(RecommenderABC):
         return tf.sigmoid(tf.matmul(hidden_layer, self.W_) + self.b_)  # K x I
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.convert_to_tensor(desired_values, dtype=tf.float32), tf.concat(predictions, axis=0))
 
     def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
         return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 33a8b66..7519fd6 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -96,7 +96,7 @@ class DMF(RecommenderABC):
         return predictions, batch_samples['desired_values']
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.convert_to_tensor(desired_values, dtype=tf.float32), predictions)
 
     def _predict(self, uid, iid, **kwds):
         user_tensors, item_tensors = self._preprocess_input([uid], [iid])
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index aed3330..5dfcc1f 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -192,10 +192,8 @@ class RecommenderABC(ABC):
                 predictions, desired_values = self._predict_batch(batch_samples, **kwds)
 
                 trainable_weights = self.trainable_weights + \
-                                    [layer.trainable_weights for layer in self.trainable_layers] + \
-                                    [model.trainable_weights for model in self.trainable_models]
-                for trainable_weight in trainable_weights:
-                    tape.watch(trainable_weight)
+                                    [weight for layer in self.trainable_layers for weight in layer.trainable_weights] + \
+                                    [weight for model in self.trainable_models for weight in model.trainable_weights]
 
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
                     self._compute_reg_loss(reg_rate, len(batch_samples), self.trainable_models, self.trainable_layers, self.trainable_weights)
@@ -326,12 +324,7 @@ class RecommenderABC(ABC):
                     for trainable in trainable_layers + trainable_models])
 
     def _update_weights(self, gradients, trainable_weights):
-        for gradient, trainable_var in zip(gradients, trainable_weights):
-            if tf.is_tensor(gradient):
-                gradient = [gradient]
-            if tf.is_tensor(trainable_var):
-                trainable_var = [trainable_var]
-            self.optimizer.apply_gradients(zip(gradient, trainable_var))
+        self.optimizer.apply_gradients(zip(gradients, trainable_weights))
 
     def _store_epoch_weights(self):
         self.epoch_weights.append({
-- 
2.43.0


From 4d9dc7fb7e8eeba7afff685d978dd183f4aaf357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 44/78] fix: DMF and Caser return tensors instead of float
 values

---
 DRecPy/Recommender/caser.py | 2 +-
 DRecPy/Recommender/dmf.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index b816bb8..e5e961d 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -134,7 +134,7 @@ class Caser(RecommenderABC):
         user_iids = [record['iid'] for record in user_records]
 
         all_items = list(range(self.n_items))
-        predictions = self._predict_batch_aux([uid], [user_iids[-self.L:]], [all_items])[0]
+        predictions = self._predict_batch_aux([uid], [user_iids[-self.L:]], [all_items])[0].numpy()
         item_preds = list(zip(predictions, all_items))
 
         if novelty:
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 7519fd6..fab35f2 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -103,4 +103,4 @@ class DMF(RecommenderABC):
 
         preds, _ = self._predict_batch({'user_tensors': user_tensors, 'item_tensors': item_tensors,
                                        'desired_values': None})
-        return self._rescale_value(preds[0])
+        return self._rescale_value(float(preds[0]))
-- 
2.43.0


From a25b2a82a678a1da709506b49dfa0650242e4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 45/78] fix: Caser ranks items that were not given when novelty
 is disabled

---
 DRecPy/Recommender/caser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index e5e961d..d1af6a8 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -143,4 +143,5 @@ class Caser(RecommenderABC):
             item_preds = [(pred, item) for pred, item in item_preds if item in novel_user_iids]
             return nlargest(n, item_preds)
 
-        return nlargest(n, item_preds)
+        iids_set = set(iids)
+        return nlargest(n, [(pred, item) for pred, item in item_preds if item in iids_set])
-- 
2.43.0


From f0d4596f208973c99203b358f6baa3c8eec02f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 46/78] fix: stored epoch weights of layers and models follow
 the weight updates of later epochs

---
 DRecPy/Recommender/recommender_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 5dfcc1f..f0e58e9 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -329,8 +329,8 @@ class RecommenderABC(ABC):
     def _store_epoch_weights(self):
         self.epoch_weights.append({
             'trainable_weights': copy.deepcopy(self.trainable_weights),
-            'trainable_layers': [layer.trainable_weights for layer in self.trainable_layers],
-            'trainable_models': [model.trainable_weights for model in self.trainable_models]
+            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
+            'trainable_models': [model.get_weights() for model in self.trainable_models]
         })
 
     def _revert_weights(self, epoch):
-- 
2.43.0


From 725c36fe4a20a1f5529869077cb44b4c4c373bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 47/78] fix: early stopping reverts to the last epoch when the
 initial weights are the best ones

---
 DRecPy/Recommender/recommender_abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index f0e58e9..ca1ec31 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -195,6 +195,8 @@ class RecommenderABC(ABC):
                                     [weight for layer in self.trainable_layers for weight in layer.trainable_weights] + \
                                     [weight for model in self.trainable_models for weight in model.trainable_weights]
 
+                if e == 1: self._store_epoch_weights()  # initial weights (epoch 0)
+
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
                     self._compute_reg_loss(reg_rate, len(batch_samples), self.trainable_models, self.trainable_layers, self.trainable_weights)
 
@@ -334,7 +336,7 @@ class RecommenderABC(ABC):
         })
 
     def _revert_weights(self, epoch):
-        target_weights = self.epoch_weights[epoch-1]  # convert to 0-based idx
+        target_weights = self.epoch_weights[epoch]  # the initial weights are stored at idx 0
         for model, weights in zip(self.trainable_models, target_weights['trainable_models']):
             model.set_weights(weights)
         for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):
@@ -342,7 +344,7 @@ class RecommenderABC(ABC):
         for variable, weights in zip(self.trainable_weights, target_weights['trainable_weights']):
             variable.assign(weights)
 
-        self._info(f'Network weights reverted from epoch {len(self.epoch_weights)} to epoch {epoch}.')
+        self._info(f'Network weights reverted from epoch {len(self.epoch_weights) - 1} to epoch {epoch}.')
 
     def predict(self, user_id, item_id, skip_errors=False, **kwds):
         """Performs a prediction using the provided user_id and item_id.
-- 
2.43.0


From ba3ee790b1db59d3bbac3d3d9718569dcca4c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 48/78] fix: fit() fails when the early stopping rule can not
 be computed on the last epoch

---
 DRecPy/Recommender/recommender_abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index ca1ec31..fb1a42d 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -228,8 +228,8 @@ class RecommenderABC(ABC):
                                                                             self._loss_tracker.called_epochs)
                     if early_stopping_rule.stop_training(e, early_stopping_best_epoch, epochs):
                         break
-                except InvalidEpochValidationResultsException as e:
-                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+                except InvalidEpochValidationResultsException as err:
+                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {err}')
 
             if early_stopping_best_epoch is not None:
                 progress_desc += f' | {early_stopping_rule.__class__.__name__} best epoch: {early_stopping_best_epoch}'
@@ -247,8 +247,8 @@ class RecommenderABC(ABC):
                 if self.verbose:
                     _iter.set_description(progress_desc)
                 self._info(progress_desc, log_console=False)
-            except InvalidEpochValidationResultsException as e:
-                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+            except InvalidEpochValidationResultsException as err:
+                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {err}')
 
         if early_stopping_best_epoch is not None and early_stopping_best_epoch != epochs:
             self._info(f'Reverting network weights to epoch {early_stopping_best_epoch} due to the evaluation of the '
-- 
2.43.0


From 99d79abf137fb885e2b10edef39eb4a04a6284bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 49/78] fix: state from previous calls to fit() is kept when a
 model is fitted again

---
 DRecPy/Recommender/Baseline/base_knn.py | 2 ++
 DRecPy/Recommender/recommender_abc.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 22867e7..579a8a9 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -73,6 +73,8 @@ class BaseKNN(RecommenderABC, ABC):
         self._neighbours = dict()
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
+        self._similarities, self._neighbours = dict(), dict()
+
         self._info('Computing similarity matrix...')
         self._compute_similarities()
 
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index fb1a42d..19742f4 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -150,6 +150,8 @@ class RecommenderABC(ABC):
         self._log_initial_info()
 
         self._info('Creating auxiliary structures...')
+        self.trainable_weights, self.trainable_layers, self.trainable_models = [], [], []
+        self.epoch_weights = []
         self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer
         self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
         if kwds.get('optimizer', None) is not None:  # allow forcing custom optimizer
-- 
2.43.0


From 5ac042dbd57724420b0bf37a822f020e9a8afada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:37 +0000
Subject: [PATCH 50/78] fix: the seed of deep recommenders does not control the
 weight initialization

---
 DRecPy/Recommender/recommender_abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 19742f4..e696bfd 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -72,7 +72,8 @@ class RecommenderABC(ABC):
 
         self._loss_tracker = None
         self._rng = random.Random(self.seed)
-        tf.random.set_seed(self.seed)
+        if self.seed is None: tf.random.set_seed(self.seed)
+        else: tf.keras.utils.set_random_seed(self.seed)  # weight initializers do not use the tensorflow seed
 
         log_formatter = logging.Formatter('[%(asctime)s] (%(levelname)s) %(name)s: %(message)s')
         ch = logging.StreamHandler()
-- 
2.43.0


From 72d29ff18eaae2e22825e5c3f958178c431b94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:19 +0000
Subject: [PATCH 51/78] fix: models with a PointSampler can not be saved

---
 DRecPy/Sampler/point_sampler.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Sampler/point_sampler.py b/DRecPy/Sampler/point_sampler.py
index bc62f0d..9e9fc57 100644
--- a/DRecPy/Sampler/point_sampler.py
+++ b/DRecPy/Sampler/point_sampler.py
@@ -30,17 +30,27 @@ class PointSampler:
         self.neg_ratio = neg_ratio
         self.interaction_threshold = interaction_threshold
         self.rng = random.Random(seed)
+        self.seed = seed
+        self._create_generators()
 
+    def _create_generators(self):
         self.null_pair_gen = self.interaction_dataset.null_interaction_pair_generator(
-            seed=seed, interaction_threshold=interaction_threshold
+            seed=self.seed, interaction_threshold=self.interaction_threshold
         )
         if self.interaction_threshold is None:
-            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=seed)
+            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=self.seed)
         else:
             self.pos_pair_gen = self.interaction_dataset.select_random_generator(
-                f'interaction >= {interaction_threshold}', seed=seed
+                f'interaction >= {self.interaction_threshold}', seed=self.seed
             )
 
+    def __getstate__(self):
+        return {attr: value for attr, value in self.__dict__.items() if attr not in ['null_pair_gen', 'pos_pair_gen']}
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._create_generators()
+
     def sample(self, n=16):
         """Sample positive and negative interaction pairs according to the set definitions of the PointSampler instance.
 
-- 
2.43.0


From 027ef876cb0d63cb7cad2e3d69fbfba6ff69c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:58 +0000
Subject: [PATCH 52/78] fix: stored and generated files are read with a
 different encoding than the one used to write them

---
 DRecPy/Dataset/integrated_datasets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 452fda7..1d6a4ea 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -86,8 +86,8 @@ def download_dataset(ds_name):
 
         os.remove(tmp_path)
     else:
-        with open(os.path.join(dataset_path, ds_options.full_file), 'w') as f:
-            f.write(data.decode(ds_options.encoding))
+        with open(os.path.join(dataset_path, ds_options.full_file), 'wb') as f:
+            f.write(data)
 
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
@@ -100,7 +100,7 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
         download_dataset(ds_name)
 
     if is_generated:
-        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding=ds_options.encoding,
+        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
     else:
         return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns,
-- 
2.43.0


From 8728224c30b3e717bc1620963b481d63f4d065cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:58 +0000
Subject: [PATCH 53/78] fix: verbose argument is ignored when generating train
 and test datasets

---
 DRecPy/Dataset/integrated_datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 1d6a4ea..81b81fd 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -137,7 +137,7 @@ def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         # need to generate it now
         path = os.path.join(get_dataset_path(ds_name), ds_options.full_file)
         full_ds = get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)
-        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
+        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10, verbose=verbose)
 
         # store generated datasets for future calls
         train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
@@ -177,7 +177,7 @@ def get_test_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         # need to generate it now
         path = os.path.join(get_dataset_path(ds_name), ds_options.full_file)
         full_ds = get_dataset(ds_name, path, force_out_of_memory=force_out_of_memory, verbose=verbose, **kwds)
-        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
+        train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10, verbose=verbose)
 
         # store generated datasets for future calls
         train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-- 
2.43.0


From c8735c42aeb6723d8b11ca4e838d44a96b08a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:58 +0000
Subject: [PATCH 54/78] fix: generated datasets are truncated if the process
 stops while they are being stored

---
 DRecPy/Dataset/integrated_datasets.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 81b81fd..2568359 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -108,6 +108,12 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
 
 
+def store_generated_dataset(ds, path):
+    """Stores the dataset on the given path, which is only created when the dataset is completely written."""
+    ds.save(path + '.tmp')
+    os.replace(path + '.tmp', path)
+
+
 def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
     """Gets a train dataset. If the named dataset does not have a specific train file
     (example: BX dataset), a train InteractionDataset will be created using leave_k_out() from the Evaluation module
@@ -140,8 +146,8 @@ def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10, verbose=verbose)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        store_generated_dataset(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        store_generated_dataset(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return train_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.train_file)
@@ -180,8 +186,8 @@ def get_test_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10, verbose=verbose)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        store_generated_dataset(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        store_generated_dataset(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return test_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.test_file)
-- 
2.43.0


From b2474f4408f5c86c423c6a74fac01923e55df641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 55/78] fix: interrupted downloads are taken as stored datasets

---
 DRecPy/Dataset/integrated_datasets.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 2568359..030655d 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -1,4 +1,5 @@
 import os
+from shutil import rmtree
 from zipfile import ZipFile
 import requests
 from DRecPy.Dataset import InteractionDataset
@@ -62,9 +63,11 @@ def download_dataset(ds_name):
     print('> Downloading from', ds_options.url)
     data = requests.get(ds_options.url).content
 
-    dataset_path = get_dataset_path(ds_name)
-    if not os.path.exists(dataset_path):
-        os.makedirs(dataset_path)
+    # use a temporary folder, so that the dataset is only considered as stored when all of its files are
+    dataset_path = get_dataset_path(ds_name) + '.tmp'
+    if os.path.exists(dataset_path):
+        rmtree(dataset_path)
+    os.makedirs(dataset_path)
 
     if ds_options.unzip:
         print('> Extracting files from zip')
@@ -89,6 +92,10 @@ def download_dataset(ds_name):
         with open(os.path.join(dataset_path, ds_options.full_file), 'wb') as f:
             f.write(data)
 
+    if is_stored(ds_name):
+        rmtree(get_dataset_path(ds_name))
+    os.rename(dataset_path, get_dataset_path(ds_name))
+
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
     """Returns an InteractionDataset containing the data present in the path argument, and uses the
-- 
2.43.0


From 2a9b463ea9ce5f054550ec4abea11cb4f03730ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:40 +0000
Subject: [PATCH 56/78] fix: query string ids of in-memory datasets whose
 internal id columns were projected out

---
 DRecPy/Dataset/mem_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index dfded7d..75b9247 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -430,10 +430,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 value = int(value)
 
             # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'obj' in col_dtype and operator in ['==', '!=']:
+            if column == 'user' and self.has_internal_ids and 'uid' in self.columns and 'obj' in col_dtype and operator in ['==', '!=']:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'obj' in col_dtype and operator in ['==', '!=']:
+            elif column == 'item' and self.has_internal_ids and 'iid' in self.columns and 'obj' in col_dtype and operator in ['==', '!=']:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From bf4dbc5b4960a53b31f7d34e3688d838faaaa8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:41 +0000
Subject: [PATCH 57/78] fix: assigning internal ids never changes the ids of
 other datasets sharing the same table

---
 DRecPy/Dataset/db_dataset.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index b142da1..94559f4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -436,7 +436,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     csv_writer.writerow([row[col] for col in projected_cols])
 
     def assign_internal_ids(self):
-        self._optimize_states()
+        # internal ids already present on a shared table might be in use by other instances - never overwrite them
+        self._optimize_states(skip_empty_query=not self._has_shared_internal_ids())
+        if self._has_shared_internal_ids():
+            raise Exception('Cannot assign internal ids to a shared dataset while there are open value generators.')
         if self._state_query != '':
             raise Exception('Cannot assign internal ids to a filtered dataset while there are open value generators.')
         self._conn.commit()
@@ -618,6 +621,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         del self._shared_db_table_instances[self._db_path + self._active_table]
         return True
 
+    def _has_shared_internal_ids(self):
+        """Returns True if there are other instances using the active table and it already contains internal ids."""
+        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1: return False
+        c = self._open_cursor()
+        return c.execute(f'SELECT 1 FROM {self._active_table} WHERE uid IS NOT NULL LIMIT 1').fetchone() is not None
+
     def _load_from_db(self, path):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
-- 
2.43.0


From a72d1984fe1c46f7d07c432d49a16b36adf7ca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:14 +0000
Subject: [PATCH 58/78] fix: removing internal ids from a filtered out of
 memory dataset shifts its columns

---
 DRecPy/Dataset/db_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 94559f4..822a15a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -491,6 +491,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             # no need to remove from db, since it doesnt slow down - removing projected columns is enough
             self.columns.remove('uid')
             self.columns.remove('iid')
+            if self._state_query != '':  # the columns of the state must match the ones of the dataset
+                self._state_query = f'SELECT {",".join(self.columns)} FROM ({self._state_query}) WHERE rid IS NOT NULL'
 
     def apply(self, column, function):
         self._validate_column(column)
-- 
2.43.0


From 47cab1d3f3055394729baeab67d83b9e1ea7eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:23 +0000
Subject: [PATCH 59/78] fix: null pairs of datasets with a single user or item
 are never generated when there is an interaction threshold

---
 DRecPy/Dataset/db_dataset.py  | 2 +-
 DRecPy/Dataset/mem_dataset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 822a15a..ff289ed 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -214,7 +214,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         max_uid = self.max('uid')
         max_iid = self.max('iid')
-        n_possible_combs = max_uid * max_iid
+        n_possible_combs = (max_uid + 1) * (max_iid + 1)
 
         c = self._open_cursor()
         while True:
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 75b9247..83d976c 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -145,7 +145,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         max_uid = self.max('uid')
         max_iid = self.max('iid')
-        n_possible_combs = int(max_uid) * int(max_iid)
+        n_possible_combs = (int(max_uid) + 1) * (int(max_iid) + 1)
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From 272f208bf3acee54d4a928744579fff9d00cea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:16 +0000
Subject: [PATCH 60/78] fix: concurrent reads of out of memory datasets share a
 connection without synchronization

---
 DRecPy/Dataset/db_dataset.py | 62 +++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ff289ed..0979f2b 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -176,19 +176,21 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             random_uid = rng.randint(0, max_uid)
             query_conditions = self._parse_query(f'uid == {random_uid}')
             new_state = self._build_new_state(query_conditions)
-            count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
+            with self._lock:
+                count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
             if count == 0: continue
 
             chosen_record = None
             chosen_idx = rng.randint(0, count - 1)
 
-            c.execute(new_state)
-            curr_idx = 0
-            for row in c:
-                if curr_idx == chosen_idx:
-                    chosen_record = {k: v for k, v in zip(self.columns, row)}
-                    break
-                curr_idx += 1
+            with self._lock:
+                c.execute(new_state)
+                curr_idx = 0
+                for row in c:
+                    if curr_idx == chosen_idx:
+                        chosen_record = {k: v for k, v in zip(self.columns, row)}
+                        break
+                    curr_idx += 1
 
             if chosen_record is not None: yield chosen_record
 
@@ -226,7 +228,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 random_iid = rng.randint(0, max_iid)
                 query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
                 new_state = self._build_new_state(query_conditions)
-                if c.execute(new_state).fetchone() is None:
+                with self._lock:
+                    found = c.execute(new_state).fetchone() is not None
+                if not found:
                     yield random_uid, random_iid
 
     def unique(self, columns=None, copy=True):
@@ -279,7 +283,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 return self
 
             def __next__(self):
-                row = None if self.removed_gen else c.fetchone()
+                with lock:  # the connection is shared between threads
+                    row = None if self.removed_gen else c.fetchone()
                 if row is None:
                     self.close()
                     raise StopIteration
@@ -290,7 +295,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     self.open_value_generators.discard(c)
                     self.removed_gen = True
                     try:
-                        c.close()
+                        with lock:
+                            c.close()
                     except Exception:
                         pass
 
@@ -299,8 +305,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._record_interaction()
         columns = self._handle_columns(columns)
+        lock = self._lock
 
-        with self._lock:
+        with lock:
             c = self._open_cursor()
             c.execute(self._build_new_state())
             return ValueGenerator(self._open_value_generators, self._from_row_to_record)
@@ -329,18 +336,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             user = str(user)
 
-        c = self._open_cursor()
-        c.execute(f'SELECT uid FROM ({self._active_table}) WHERE user = ?', (user,))
-        ret = c.fetchone()
+        with self._lock:
+            c = self._open_cursor()
+            c.execute(f'SELECT uid FROM ({self._active_table}) WHERE user = ?', (user,))
+            ret = c.fetchone()
 
         return None if ret is None else ret[0]
 
     def uid_to_user(self, uid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
-        c = self._open_cursor()
-        c.execute(f'SELECT user FROM ({self._active_table}) WHERE uid = ?', (uid,))
-        ret = c.fetchone()
+        with self._lock:
+            c = self._open_cursor()
+            c.execute(f'SELECT user FROM ({self._active_table}) WHERE uid = ?', (uid,))
+            ret = c.fetchone()
 
         return None if ret is None else ret[0]
 
@@ -355,18 +364,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             item = str(item)
 
-        c = self._open_cursor()
-        c.execute(f'SELECT iid FROM ({self._active_table}) WHERE item = ?', (item,))
-        ret = c.fetchone()
+        with self._lock:
+            c = self._open_cursor()
+            c.execute(f'SELECT iid FROM ({self._active_table}) WHERE item = ?', (item,))
+            ret = c.fetchone()
 
         return None if ret is None else ret[0]
 
     def iid_to_item(self, iid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
-        c = self._open_cursor()
-        c.execute(f'SELECT item FROM ({self._active_table}) WHERE iid = ?', (iid,))
-        ret = c.fetchone()
+        with self._lock:
+            c = self._open_cursor()
+            c.execute(f'SELECT item FROM ({self._active_table}) WHERE iid = ?', (iid,))
+            ret = c.fetchone()
 
         return None if ret is None else ret[0]
 
@@ -836,7 +847,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._queries_wo_optimize += 1
         self._clear_interaction_vec_caches()
 
-        self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
+        with self._lock:
+            self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
 
         self._state_query = new_state
 
-- 
2.43.0


From 6a1df804ece447ccc01cf854c94794a356ec5385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:38 +0000
Subject: [PATCH 61/78] fix: random generators of out of memory datasets keep
 the database locked between records

---
 DRecPy/Dataset/db_dataset.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0979f2b..d46bad4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -183,14 +183,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             chosen_record = None
             chosen_idx = rng.randint(0, count - 1)
 
-            with self._lock:
-                c.execute(new_state)
-                curr_idx = 0
-                for row in c:
-                    if curr_idx == chosen_idx:
-                        chosen_record = {k: v for k, v in zip(self.columns, row)}
-                        break
-                    curr_idx += 1
+            with self._lock:  # always read until the end, otherwise the db is kept locked
+                row = c.execute(f'{new_state} LIMIT 1 OFFSET {chosen_idx}').fetchone()
+            if row is not None: chosen_record = {k: v for k, v in zip(self.columns, row)}
 
             if chosen_record is not None: yield chosen_record
 
@@ -227,7 +222,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 random_uid = rng.randint(0, max_uid)
                 random_iid = rng.randint(0, max_iid)
                 query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
-                new_state = self._build_new_state(query_conditions)
+                new_state = self._build_new_state(query_conditions, limit=1)
                 with self._lock:
                     found = c.execute(new_state).fetchone() is not None
                 if not found:
-- 
2.43.0


From 1ae649aab44dc13111f53506e38b137a4562bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:14 +0000
Subject: [PATCH 62/78] fix: order of the rows of out of memory datasets
 depended on the query plan, so seeded splits were not reproducible

---
 DRecPy/Dataset/db_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index d46bad4..9bd04bb 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -184,7 +184,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             chosen_idx = rng.randint(0, count - 1)
 
             with self._lock:  # always read until the end, otherwise the db is kept locked
-                row = c.execute(f'{new_state} LIMIT 1 OFFSET {chosen_idx}').fetchone()
+                row = c.execute(f'{new_state} ORDER BY rid LIMIT 1 OFFSET {chosen_idx}').fetchone()
             if row is not None: chosen_record = {k: v for k, v in zip(self.columns, row)}
 
             if chosen_record is not None: yield chosen_record
@@ -304,7 +304,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         with lock:
             c = self._open_cursor()
-            c.execute(self._build_new_state())
+            c.execute(self._build_new_state() + ' ORDER BY rid')  # otherwise the order depends on the query plan
             return ValueGenerator(self._open_value_generators, self._from_row_to_record)
 
     def drop(self, record_ids, copy=True, keep=False):
@@ -810,7 +810,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 new_state += f' AND {" AND ".join(query_conditions)}'
 
         if limit is not None and type(limit) is int:
-            new_state += f' LIMIT {limit}'
+            new_state += f' ORDER BY rid LIMIT {limit}'
 
         return new_state
 
-- 
2.43.0


From ed8a9c17cc99090019f399d20f2c7940cb8df5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 63/78] fix: predict() of unknown users or items with
 skip_errors returns predictions of the model instead of None

---
 DRecPy/Recommender/recommender_abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index e696bfd..6b2e13a 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -372,7 +372,8 @@ class RecommenderABC(ABC):
         try:
             uid = self.interaction_dataset.user_to_uid(user_id)
             iid = self.interaction_dataset.item_to_iid(item_id)
-            prediction = self._predict(uid, iid, **kwds)
+            if uid is not None and iid is not None:
+                prediction = self._predict(uid, iid, **kwds)
             if prediction is None:
                 raise Exception(f'Failed to predict(user_id={user_id}, item_id={item_id}): None was returned.')
         except Exception as e:
-- 
2.43.0


From faaa009a9e473c2e7bd974a4f54351505e2c2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:01 +0000
Subject: [PATCH 64/78] fix: similarity matrices lose their size, or can not be
 built, when users or items have no similarity

---
 DRecPy/Recommender/Baseline/similarity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 159dbce..839ba64 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -55,7 +55,7 @@ def cosine_sim_cf(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n))
 
 
 def adjusted_cosine_sim(matrix):
@@ -111,7 +111,7 @@ def jaccard_sim(matrix):
                 rows.append(i), cols.append(j), data.append(s)
                 if i != j: rows.append(j), cols.append(i), data.append(s)
 
-        return csr_matrix((data, (rows, cols)))
+        return csr_matrix((data, (rows, cols)), shape=(n, n))
 
     try:
         return matrix_jacc(matrix)
@@ -166,7 +166,7 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n))
 
 
 def msd(matrix):
@@ -206,7 +206,7 @@ def msd(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=(n, n))
 
 
 def _subtract_row_mean(A):
-- 
2.43.0


From 9da0af661f2e7c9bfcd37ac119ea36f901532fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:01 +0000
Subject: [PATCH 65/78] fix: msd similarity is undefined when all interactions
 have the same value

---
 DRecPy/Recommender/Baseline/similarity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 839ba64..8998bf5 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -173,7 +173,7 @@ def msd(matrix):
     if type(matrix) is not csr_matrix:
         matrix = csr_matrix(matrix)
 
-    max_diff = matrix.max() - matrix.min()
+    max_diff = (matrix.max() - matrix.min()) or 1  # no differences when all values are equal
 
     if type(matrix) is not lil_matrix:
         matrix = lil_matrix(matrix)
-- 
2.43.0


From 7b0f158f82778e142172937c73b5850240bc61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:53 +0000
Subject: [PATCH 66/78] fix: Caser fails when the number of horizontal filters
 is smaller than the sequence length

---
 DRecPy/Recommender/caser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index d1af6a8..c594a28 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -105,7 +105,7 @@ class Caser(RecommenderABC):
         out_h = []
         for conv_h in self.convs_h:
             conv_output = self.act_h(conv_h(items_embeddings))
-            out_h.append(tf.squeeze(tf.nn.max_pool1d(conv_output, self.n_h, self.n_h, 'SAME'), 1))
+            out_h.append(tf.reduce_max(conv_output, axis=1))  # max over the sequence
 
         out_h = tf.concat(out_h, 1)
         concat_out = tf.concat([out_v, out_h], 1)
-- 
2.43.0


From 0eda7e2e92dfef5d8ca0d2e1539079f5066b8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:58 +0000
Subject: [PATCH 67/78] fix: null pair generators never return when every user
 and item pair has an interaction

---
 DRecPy/Dataset/db_dataset.py  | 4 ++++
 DRecPy/Dataset/mem_dataset.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9bd04bb..5cde955 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -213,6 +213,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         max_iid = self.max('iid')
         n_possible_combs = (max_uid + 1) * (max_iid + 1)
 
+        if existing_null_pair_gen is None and len(self) >= n_possible_combs:  # otherwise would never find a pair
+            assert len(set(map(tuple, self.values_list(['uid', 'iid'], to_list=True)))) < n_possible_combs, \
+                'No null interaction pairs were found.'
+
         c = self._open_cursor()
         while True:
             if existing_null_pair_gen is not None and rng.randint(0, n_possible_combs + len(negative_ds)) >= n_possible_combs:
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 83d976c..9fa39d3 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -149,6 +149,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
+        if existing_null_pair_gen is None and len(self) >= n_possible_combs:  # otherwise would never find a pair
+            assert len(set(zip(uid_values, iid_values))) < n_possible_combs, 'No null interaction pairs were found.'
+
         while True:
             if existing_null_pair_gen is not None and rng.randint(0, n_possible_combs + len(negative_ds)) >= n_possible_combs:
                 existing_null_pair = next(existing_null_pair_gen)
-- 
2.43.0


From 80a2a366741e0cb4f93adcba66476d8fff766011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:11 +0000
Subject: [PATCH 68/78] fix: keep the pearson similarity matrix without
 trailing empty rows, unless there is no similarity at all

---
 DRecPy/Recommender/Baseline/similarity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 8998bf5..ca86ae5 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -166,7 +166,9 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)), shape=(n, n))
+    if len(data) == 0: return csr_matrix((n, n))
+
+    return csr_matrix((data, (rows, cols)))
 
 
 def msd(matrix):
-- 
2.43.0


From 6f8f18ab820012e6b68271b8c11f99601ceff2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 69/78] fix: fit() without epochs fails when there is an early
 stopping rule

---
 DRecPy/Recommender/recommender_abc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 6b2e13a..b9fcc4a 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -189,6 +189,7 @@ class RecommenderABC(ABC):
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
+        e = 0
         for e in _iter:
             batch_samples = self._sample_batch(batch_size, **kwds)
             with tf.GradientTape() as tape:
-- 
2.43.0


From 935e95ec31cf745b4f0afe0c05a6e68beb10ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:20 +0000
Subject: [PATCH 70/78] fix: error pages of the server are stored as the
 contents of downloaded datasets

---
 DRecPy/Dataset/integrated_datasets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 030655d..28ff9b2 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -61,7 +61,9 @@ def download_dataset(ds_name):
     """Download the dataset with name passed as argument."""
     ds_options = DATASETS[ds_name]
     print('> Downloading from', ds_options.url)
-    data = requests.get(ds_options.url).content
+    response = requests.get(ds_options.url)
+    response.raise_for_status()
+    data = response.content
 
     # use a temporary folder, so that the dataset is only considered as stored when all of its files are
     dataset_path = get_dataset_path(ds_name) + '.tmp'
-- 
2.43.0


From d10703b72f25b244284252a53b60652ea0823b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 71/78] fix: log files of models of the same class also
 received the logs of the other ones

---
 DRecPy/Recommender/recommender_abc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index b9fcc4a..a087627 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -9,6 +9,7 @@ import random
 import tensorflow as tf
 import logging
 from datetime import datetime
+from uuid import uuid4
 import copy
 
 from DRecPy.Recommender.EarlyStopping.early_stopping_rule_abc import InvalidEpochValidationResultsException
@@ -90,7 +91,7 @@ class RecommenderABC(ABC):
             fh = logging.FileHandler(f'drecpy_{datetime.now().strftime("%Y-%m-%d_%H-%M-%S")}_{self.__class__.__name__}.log')
             fh.setLevel(logging.INFO)
             fh.setFormatter(log_formatter)
-            self._file_logger = logging.getLogger(f'{self.__class__.__name__}_FLOGGER')
+            self._file_logger = logging.getLogger(f'{self.__class__.__name__}_FLOGGER_{uuid4().hex[:8]}')  # one per log file
             self._file_logger.propagate = False
             self._file_logger.setLevel(logging.INFO)
             self._file_logger.addHandler(fh)
-- 
2.43.0


From 6f5288e7ea5b4e383bc85bb1c8f0732045fa7e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 72/78] fix: out of memory datasets took ids such as 12_34 for
 numbers

---
 DRecPy/Dataset/db_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 5cde955..749cca1 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -745,6 +745,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
 
     def _infer_value_type(self, value):
+        if '_' in value or not value.isascii(): return str  # such numbers exist in python only
+
         try:
             if '.' in value:
                 raise Exception
-- 
2.43.0


From 2cb03a8ff9af04a0259c8e3c9bbf2555aca64dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:14 +0000
Subject: [PATCH 73/78] fix: three documented defaults disagree with the code

---
 DRecPy/Evaluation/Processes/predictive_evaluation.py | 2 +-
 DRecPy/Recommender/Baseline/base_knn.py              | 2 +-
 DRecPy/Recommender/recommender_abc.py                | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/predictive_evaluation.py b/DRecPy/Evaluation/Processes/predictive_evaluation.py
index 26e337d..4a1cc61 100644
--- a/DRecPy/Evaluation/Processes/predictive_evaluation.py
+++ b/DRecPy/Evaluation/Processes/predictive_evaluation.py
@@ -16,7 +16,7 @@ def predictive_evaluation(model, ds_test=None, count_none_predictions=False, n_t
         n_test_predictions: An optional integer representing the number of predictions to evaluate.
             Default: predict for every (user, item) pair on the test dataset.
         skip_errors: A boolean indicating whether to ignore errors produced during the predict calls, or not.
-            Default: False.
+            Default: True.
         metrics: An optional list containing instances of PredictiveMetricABC. Default: [RMSE(), MSE()].
         verbose: A boolean indicating whether state logs should be produced or not. Default: true.
 
diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 579a8a9..7073d66 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -34,7 +34,7 @@ class BaseKNN(RecommenderABC, ABC):
             similarity between items / users (discounts less when #co-ratings increases).
             Default: 100.
         use_averages: Optional boolean indicating whether to use item (for UserKNN) or user
-            (for ItemKNN) averages when no neighbours are found. Default: True.
+            (for ItemKNN) averages when no neighbours are found. Default: False.
     """
 
     def __init__(self, k=20, m=5, sim_metric='adjusted_cosine', aggregation='weighted_mean', shrinkage=100,
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index a087627..2a351c2 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -108,7 +108,7 @@ class RecommenderABC(ABC):
             learning_rate: Optional decimal representing the learning rate of the model. Default: 0.001.
             neg_ratio: Optional integer that represents the number of negative instances for each positive one.
                 Default: 5.
-            reg_rate: Optional decimal representing the model regularization rate. Default: 0.01.
+            reg_rate: Optional decimal representing the model regularization rate. Default: 0.001.
             epoch_callback_fn: Optional function that is called, for each epoch_callback_freq, with the model at its
                 current state. It receives one argument - the model at its current state - and should return a dict
                 mapping each metric's name to the corresponding value. The results will be displayed in a graph at the
-- 
2.43.0


From e08a41c141549b19c49ea698a3e8216ca4a8d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:51 +0000
Subject: [PATCH 74/78] fix: changing an interaction vector changed the later
 vectors of out of memory datasets

---
 DRecPy/Dataset/db_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 749cca1..28b329f 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -104,7 +104,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         cached_interaction_vec = self._user_interaction_vec_cache.get(uid)
         if cached_interaction_vec is not None:
-            return cached_interaction_vec
+            return cached_interaction_vec.copy()
 
         if len(self._user_interaction_vec_cache) > self._user_vec_cache_limit:
             self._user_interaction_vec_cache.clear()
@@ -123,7 +123,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         except MemoryError:
             self._user_interaction_vec_cache.clear()
 
-        return interaction_vec
+        return interaction_vec.copy()  # the cached one must not be changed by the caller
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
@@ -131,7 +131,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         cached_interaction_vec = self._item_interaction_vec_cache.get(iid)
         if cached_interaction_vec is not None:
-            return cached_interaction_vec
+            return cached_interaction_vec.copy()
 
         if len(self._item_interaction_vec_cache) > self._item_vec_cache_limit:
             self._item_interaction_vec_cache.clear()
@@ -150,7 +150,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         except MemoryError:
             self._item_interaction_vec_cache.clear()
 
-        return interaction_vec
+        return interaction_vec.copy()  # the cached one must not be changed by the caller
 
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
-- 
2.43.0


From 10aee899eeae62cf75f69fb3b4c66e9a983f3543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 75/78] fix: databases in use could be saved over, if their
 path was written in another way

---
 DRecPy/Dataset/db_dataset.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 28b329f..0762cc3 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -11,6 +11,7 @@ from os import remove
 from os import rename
 from os.path import isfile
 from os.path import join
+from os.path import realpath
 from os.path import split
 from os.path import expanduser
 from scipy.sparse import csr_matrix
@@ -401,12 +402,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         if len(path) == 0: path = self._db_path
 
         if path.endswith('.sqlite'):
-            if path == self._db_path and len(self._shared_db_instances[path]) > 1 or \
-                    path != self._db_path and path in self._shared_db_instances and len(self._shared_db_instances[path]) > 0:
+            users = self._instances_using(path)
+            if len(users - {id(self)}) > 0:
                 raise Exception(f'Cannot save the current data into "{path}" because there are other '
                                 f'instances that are using this file.')
+            if id(self) in users: path = self._db_path
             self._validate_required_columns()
-            tmp_path = path + ".tmp"
+            target_path = realpath(path)
+            tmp_path = target_path + ".tmp"
             if isfile(tmp_path): remove(tmp_path)
 
             new_db = sql.connect(tmp_path, check_same_thread=False)
@@ -422,8 +425,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             if path == self._db_path:  # updating origin db - requires to re-open connection
                 self._conn.close()
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                if isfile(target_path): remove(target_path)
+                rename(tmp_path, target_path)
                 self._open_connection(path, loading=True)
                 # the new db only contains the current state
                 self._release_active_table()
@@ -431,8 +434,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._shared_db_table_instances[self._db_path + self._active_table] = {id(self)}
                 self._state_query = ''
             else:  # saving into distinct destination
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                if isfile(target_path): remove(target_path)
+                rename(tmp_path, target_path)
         else:
             projected_cols = shallowcopy(self._handle_columns(columns))
             if 'rid' in projected_cols: projected_cols.remove('rid')
@@ -620,6 +623,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         db_folder, db_name = split(self._db_path)
         return db_folder == data_path() and db_name.startswith('interactions_') and db_name.endswith('.tmp.sqlite')
 
+    def _instances_using(self, path):
+        """Returns the ids of the instances using the provided db file, whatever the path it was opened with."""
+        with self._lock:
+            return {instance for db_path, instances in self._shared_db_instances.items() for instance in instances
+                    if realpath(db_path) == realpath(path)}
+
     def _is_persisted_table(self):
         """Returns True if the records of the active table belong to the user and should never be modified."""
         return self._active_table == 'interactions' and not self._is_temp_db()
-- 
2.43.0


From 28e116a8e9afe88a3b9a2c3d8bef8ab793c653ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 76/78] fix: out of memory datasets could be loaded from the
 home folder (~) but not saved there

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0762cc3..3d81270 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -399,7 +399,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         if len(path) == 0 and self._is_temp_db():
             raise Exception('No save path was specified.')
 
-        if len(path) == 0: path = self._db_path
+        path = self._db_path if len(path) == 0 else expanduser(path)
 
         if path.endswith('.sqlite'):
             users = self._instances_using(path)
-- 
2.43.0


From c9dc942b757b2ac67447f6f0a903ec461061c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 77/78] fix: texts with line breaks were split between chunks
 when loaded out of memory, and their line breaks changed

---
 DRecPy/Dataset/db_dataset.py | 37 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 3d81270..7fa5570 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -670,17 +670,15 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             return col_types
 
-        def process_segment(chunk, delimiter):
+        def process_segment(chunk):
             c = self._open_cursor()
             projected_cols = shallowcopy(self.columns)
             # rid is never read from file - remove it to not cause issues with zip(row, projected_cols)
             projected_cols.remove('rid')
 
             try:
-                csv_reader = csv.reader(chunk, delimiter=delimiter)
                 records = []
-                for row in csv_reader:
-                    if len(row) == 0: continue  # blank line
+                for row in chunk:
                     record = []
                     for value, col in zip(row, projected_cols):
                         if col is None:  # accept None cols when reading as skip cols
@@ -714,15 +712,18 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             replace_delimiter = True
             new_delimiter = '\x1f'  # unit separator: not expected to be present on the values
 
+        def read_rows(lines):
+            # the rows are read by a single reader, since their values might contain line breaks
+            if replace_delimiter: lines = (line.replace(orig_delimiter, new_delimiter) for line in lines)
+            csv_reader = csv.reader(lines, delimiter=new_delimiter)
+            if has_header is not False: next(csv_reader, None)
+            return (row for row in csv_reader if len(row) > 0)  # without blank lines
+
         # read num of lines + detect column types
-        num_lines = 0
-        first_line = None
-        with open(path, 'r', encoding=encoding) as f:
-            for row in f:
-                if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
-                    if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-                    first_line = next(csv.reader([row], delimiter=new_delimiter))
-                num_lines += 1
+        with open(path, 'r', encoding=encoding, newline='') as f:
+            first_line = next(read_rows(f), None)
+        with open(path, 'r', encoding=encoding, newline='') as f:
+            num_lines = sum(1 for _ in f)
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
@@ -733,20 +734,16 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # import data into db
         chunk = []
-        curr_line = 0
-        with open(path, 'r', encoding=encoding) as f:
-            if has_header is not False: f.readline()
+        with open(path, 'r', encoding=encoding, newline='') as f:
             _iter = f
             if self.verbose: _iter = tqdm(f, total=num_lines, desc='Importing dataset')
-            for row in _iter:
-                curr_line += 1
-                if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
+            for row in read_rows(_iter):
                 chunk.append(row)
                 if len(chunk) == self.chunk_size:
-                    process_segment(chunk, new_delimiter)
+                    process_segment(chunk)
                     chunk = []
             if len(chunk) > 0:
-                process_segment(chunk, new_delimiter)
+                process_segment(chunk)
 
         self._build_indexes(self._open_cursor())
         self._conn.commit()
-- 
2.43.0


From 86033b9df3978a1d1d94d53508ff50fbc5e5f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:16 +0000
Subject: [PATCH 78/78] fix: out of memory datasets failed after hundreds of
 filters in a row

---
 DRecPy/Dataset/db_dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 7fa5570..fc0be5d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -26,6 +26,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
     _opt_n_query_threshold = 3  # only check if should optimize after X queries w/o optimize
+    _opt_max_queries = 200  # always optimize after X queries w/o optimize, since the size of sql queries is limited
     _opt_n_rows_threshold = 5000  # only optimize if the row diff between states is at least X
     _opt2_n_direct_interactions_threshold = 4  # another optimization strategy independend from the previous one: optimize if the #direct interactions is bigger than this
     _default_user_vec_cache_limit = 1000
@@ -819,7 +820,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             new_state = state_query
             if query_conditions is not None:
-                new_state += f' AND {" AND ".join(query_conditions)}'
+                new_state += f' AND ({" AND ".join(query_conditions)})'  # keep the depth of the expression low
 
         if limit is not None and type(limit) is int:
             new_state += f' ORDER BY rid LIMIT {limit}'
@@ -859,7 +860,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._state_query = new_state
 
-        if self._n_rows_before_opt > 0 and self._n_rows > 0 \
+        if self._queries_wo_optimize >= self._opt_max_queries and len(self._open_value_generators) == 0:
+            self._n_rows_before_opt = self._n_rows
+            self._optimize_states()
+        elif self._n_rows_before_opt > 0 and self._n_rows > 0 \
                 and self._queries_wo_optimize >= self._opt_n_query_threshold \
                 and self._n_rows / self._n_rows_before_opt < self._opt_ratio_threshold \
                 and self._n_rows_before_opt - self._n_rows >= self._opt_n_rows_threshold \
-- 
2.43.0

