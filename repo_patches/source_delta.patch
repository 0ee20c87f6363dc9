From 014163c93b5b3ac69b282fe38d70c0f3bc59b9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 001/140] fix: copying or slicing a Dataset with an active
 sort_view raised AttributeError

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..40037c3 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -709,7 +709,7 @@ class Dataset(Struct):
                 new_sortlist = [_k for _k in self._col_sortlist if _k in ds]
                 if len(new_sortlist) > 0:
                     ds._col_sortlist = new_sortlist
-                    ds._sort_ascending = self.sort_ascending
+                    ds._sort_ascending = self._sort_ascending
             else:
                 new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
                 if len(new_sort) > 0:
-- 
2.43.0


From 5841d0492f2ae0186f702d4b44568c69692edbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 002/140] fix: col_str_replace raised ValueError when a
 sort_view was active

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..63f8d57 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3789,7 +3789,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
+            for i, name in enumerate(self._col_sortlist):
                 r = name.replace(old, new, max)
                 if r != name:
                     self._col_sortlist[i] = r
-- 
2.43.0


From 18170190ab912039806edb950df24e92508a3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 003/140] fix: col_str_replace silently dropped a column when
 two names became equal

---
 riptable/rt_itemcontainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..1289898 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -565,6 +565,9 @@ class ItemContainer:
                     raise ValueError(f"Item {r} already existed, cannot make replacement in item name {item}.")
             new_names.append(r)
 
+        if len(set(new_names)) != len(new_names):
+            raise ValueError(f"Replacing {old!r} with {new!r} would give several items the same name.")
+
         # only do this if necessary
         if replace_count != 0:
             newdict = self._items.copy()
-- 
2.43.0


From daf09c1226bdead7e60de0a4f1a2dd6f45df2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:03 +0000
Subject: [PATCH 004/140] fix: col_map left columns partially renamed when one
 of the renames was invalid

---
 riptable/rt_struct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 63f8d57..fa06376 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3281,10 +3281,16 @@ class Struct:
                 and all(isinstance(_k, (str, bytes)) for _k in rename_dict.values())
             ):
                 raise TypeError("Name map must be a dictionary of string ids to string ids.")
+            for old, new in rename_dict.items():
+                if old != new and not self.is_valid_colname(new):
+                    raise ValueError(f"Invalid column name: {new}")
             if len(set(rename_dict.values()) & set(self)):
                 rename_dict, swaps = self._safe_reordering_of_renames(rename_dict)
             else:
                 swaps = []
+                for old in rename_dict:
+                    if old not in self:
+                        raise ValueError(f"Invalid column to rename: {old!r} does not exist.")
             for old, new in rename_dict.items():
                 self.col_rename(old, new)
             for old, new in swaps:
-- 
2.43.0


From 7c25e4f8994e01891421ef107b02a9c9ed959f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:54 +0000
Subject: [PATCH 005/140] fix: labels and column attributes were shared between
 a Dataset and its slices

---
 riptable/rt_itemcontainer.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 1289898..c7c7931 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -194,12 +194,23 @@ class ItemContainer:
         if cols is None:
             newcontainer._items = self._items.copy()
             for k, v in newcontainer._items.items():
-                newcontainer._items[k] = v.copy()
+                newcontainer._items[k] = self._copy_item(v)
         else:
             for k in cols:
-                newcontainer._items[k] = self._items[k].copy()
+                newcontainer._items[k] = self._copy_item(self._items[k])
         return newcontainer
 
+    # -----------------------------------------
+    @staticmethod
+    def _copy_item(item):
+        """
+        Returns a copy of an item: the value is shared, the attributes (labels, footers...) are not.
+        """
+        item = item.copy()
+        if item[1] is not None:
+            item[1] = item[1].copy()
+        return item
+
     # -----------------------------------------
     def copy_apply(self, func, *args, cols=None):
         """
@@ -212,13 +223,13 @@ class ItemContainer:
         if cols is None:
             for k, v in self._items.items():
                 # tuple copy
-                v = v.copy()
+                v = self._copy_item(v)
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
         else:
             for k in cols:
                 # tuple copy
-                v = self._items[k].copy()
+                v = self._copy_item(self._items[k])
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
 
-- 
2.43.0


From 48358faf020c3140c63a1076ae6796faf844cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:56 +0000
Subject: [PATCH 006/140] fix: GroupBy.as_categorical paired the bins with
 display-sorted keys, giving rows wrong labels

---
 riptable/rt_groupby.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index ae01641..0d770d2 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -424,7 +424,8 @@ class GroupBy(GroupByOps):
         """
 
         idx = self.grouping.ikey
-        gbkeys = self.gbkeys
+        # the bins in ikey refer to the unique keys as stored in the grouping (gbkeys may be sorted for display)
+        gbkeys = self.grouping.uniquedict
 
         return TypeRegister.Categorical(idx, _from_categorical=gbkeys, sort_gb=self._sort_display)
 
-- 
2.43.0


From dc2bc7d9a025f52ce78be5fd6139b3f9f441c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 007/140] fix: groupby(...).transform.<reduction>() returned
 rows in display-sorted order of the groups

---
 riptable/rt_groupby.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index 0d770d2..29b1ef6 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -328,6 +328,10 @@ class GroupBy(GroupByOps):
         kwargs.setdefault("dataset", self._dataset)
         return_all = kwargs.pop("return_all", self._return_all)
 
+        # the transform property was called: same as kwarg transform=True
+        if getattr(self, "_transform", False):
+            kwargs["transform"] = True
+
         origdict, user_args, tups = self._prepare_gb_data("GroupBy", funcNum, *args, **kwargs)
         gb_ds = self.grouping._calculate_all(
             origdict,
-- 
2.43.0


From acaf528eceb2de6d1cce1e078dc4f238e21c8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:49 +0000
Subject: [PATCH 008/140] fix: fill_forward/fill_backward returned
 uninitialised memory for rows filtered out of the grouping

---
 riptable/rt_groupbynumba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_groupbynumba.py b/riptable/rt_groupbynumba.py
index b569908..3710647 100644
--- a/riptable/rt_groupbynumba.py
+++ b/riptable/rt_groupbynumba.py
@@ -125,6 +125,8 @@ class GroupbyNumba(GroupByOps):
             if not inplace:
                 # allocate for numba
                 ret = empty(len(inputdata), dtype=dtype)
+                # rows in the filtered bin are not visited
+                ret[iGroup[: nCountGroup[0]]] = INVALID_DICT[ret.dtype.num]
 
             nbfunc(iGroup, iFirstGroup, nCountGroup, binLowList[0], binHighList[0], inputdata, ret, *func_param)
 
-- 
2.43.0


From 4b942bcd12b29f67332afb757544aca837d9e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:41 +0000
Subject: [PATCH 009/140] fix: transform=True on a base-0 or enum Categorical
 was off by one group

---
 riptable/rt_groupbyops.py | 3 ++-
 riptable/rt_grouping.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..451eba1 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -339,7 +339,8 @@ class GroupByOps(ABC):
         if getattr(self, "_transform", False) or transform:
             ikey = self.grouping.ikey
             showfilter = kwargs.get("showfilter", False)
-            if not showfilter and self.grouping.base_index == 1:
+            if not showfilter:
+                # ikey is 1-based for any base_index, the results start at bin 1
                 ikey = ikey - 1
             # use fancy indexing to pull the values from the cells, back to original array
             newds = {}
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..682fe16 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3540,7 +3540,8 @@ class Grouping:
         # skip if base 1
         countcol = ncountkey[base:]
         if transform:
-            if not showfilter and self.base_index == 1:
+            if not showfilter:
+                # ikey is 1-based for any base_index, the counts start at bin 1
                 countcol = countcol[self.ikey - 1]
             else:
                 countcol = countcol[ikey]
-- 
2.43.0


From 4be11c2ddb52bf7b830d39b46951f2c674c65934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:52 +0000
Subject: [PATCH 010/140] fix: count_uniques on a base-0 or enum Categorical
 counted into the wrong groups

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 451eba1..41beea0 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -1086,7 +1086,7 @@ class GroupByOps(ABC):
             newdict = {}
             for colname, arr in origdict.items():
                 if colname not in gbk:
-                    mcat = TypeRegister.Categorical([g.catinstance, arr], filter=filter)
+                    mcat = TypeRegister.Categorical([g.ikey, arr], filter=filter)
                     if transform:
                         result = self.nansum(mcat.first_bool, transform=transform)[-1]
                     else:
-- 
2.43.0


From af058940316ee9e6eb027d5c8163b0dd07d10063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:30 +0000
Subject: [PATCH 011/140] fix: rolling_quantile/rolling_median raised on a
 base-0 or enum Categorical

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 41beea0..7729550 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -3029,7 +3029,7 @@ class GroupByOps(ABC):
 
         answers = []
 
-        window = min(window, len(self.grouping._iKey))
+        window = min(window, len(self.grouping.ikey))
 
         for quantile in q:
             funcParam = rolling_quantile_funcParam(quantile, window)
-- 
2.43.0


From 91aec556239a3e30294a466d7734fae2615be63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 012/140] fix: merge2/merge_lookup with high_card crashed or
 returned wrong rows when keys had invalid values

---
 riptable/rt_merge.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..3c2e0f3 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2023,6 +2023,9 @@ def _get_or_create_keygroup(
             #       a filter for the Grouping. This is due to rt.ismember not handling NaN/invalids
             #       in the expected way (i.e. where NaN != NaN).
             isvalid = _create_column_valid_mask(single_keycol) if force_invalids else None
+            if isvalid is not None and not all(isvalid):
+                # A lexsort-based Grouping doesn't carry the filtered-out rows, which the merge logic relies on.
+                _lex = False
             return TypeRegister.Grouping(keycols, lex=_lex, hint_size=_hint_size, filter=isvalid), None
 
     else:
@@ -2066,6 +2069,10 @@ def _get_or_create_keygroup(
                     else:
                         valid_groupby_tuples_mask |= isvalid
 
+        # A lexsort-based Grouping doesn't carry the filtered-out rows, which the merge logic relies on.
+        if valid_join_tuples_mask is not None and not all(valid_join_tuples_mask):
+            _lex = False
+
         # Create the Grouping, passing in the mask we created so NaN/invalid values are handled
         # in the way we need them to be for merging.
         join_grouping = TypeRegister.Grouping(keycols, lex=_lex, hint_size=_hint_size, filter=valid_join_tuples_mask)
-- 
2.43.0


From 49ab17ed9fce9204c9ff902c813f67df2264b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 013/140] fix: outer merge2 with keep dropped right rows whose
 keys differ in a string column and share an invalid in another

---
 riptable/rt_merge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 3c2e0f3..9267181 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2042,6 +2042,7 @@ def _get_or_create_keygroup(
 
         valid_join_tuples_mask: Optional[FastArray] = None
         valid_groupby_tuples_mask: Optional[FastArray] = None
+        groupby_tuples_all_valid = False
         if force_invalids:
             for keycol in keycols:
                 isvalid = _create_column_valid_mask(keycol)
@@ -2061,7 +2062,7 @@ def _get_or_create_keygroup(
                     # length with all True elements; since we logical-OR the masks together for the groupby-grouping,
                     # when 'isvalid' is None we set the valid groupby tuples mask to None.
                     if isvalid is None:
-                        valid_groupby_tuples_mask = None
+                        groupby_tuples_all_valid = True
                     elif valid_groupby_tuples_mask is None:
                         # Need to copy 'isvalid' to avoid sharing the same instance with 'valid_join_tuples_mask',
                         # which'll lead to them incorrectly having the same data (since we're updating in-place).
@@ -2069,6 +2070,10 @@ def _get_or_create_keygroup(
                     else:
                         valid_groupby_tuples_mask |= isvalid
 
+        # A column without invalids makes every tuple (partially) valid, whichever position it has among the keys.
+        if groupby_tuples_all_valid:
+            valid_groupby_tuples_mask = None
+
         # A lexsort-based Grouping doesn't carry the filtered-out rows, which the merge logic relies on.
         if valid_join_tuples_mask is not None and not all(valid_join_tuples_mask):
             _lex = False
-- 
2.43.0


From ab0b2de2242bf9c17f62091aa4961a4fda27c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 014/140] fix: outer merge2 of a Categorical key with a string
 key put category codes in the key column

---
 riptable/rt_merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 9267181..f4c2675 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2769,6 +2769,12 @@ def merge2(
                     )
                 )
                 right_data = mbget_wrapper(right[field], right_fancyindex[-join_indices.right_only_rowcount :])
+                if isinstance(left_data, Categorical) != isinstance(right_data, Categorical):
+                    # hstack can't combine a Categorical with a plain array, so use the Categorical's values.
+                    if isinstance(left_data, Categorical):
+                        left_data = left_data.expand_array
+                    else:
+                        right_data = right_data.expand_array
                 out[field] = hstack((left_data, right_data))
 
         # If we're missing one of the fancy indices, it means we can just copy the columns
-- 
2.43.0


From 4cb7018bab39ebff9d9173e5b5abcdf7cb61f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 015/140] fix: merge2/merge_lookup with copy=False raised
 AttributeError for Categorical columns

---
 riptable/rt_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index f4c2675..638acb8 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2717,7 +2717,8 @@ def merge2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = arr.view()
+        # .view() of a Categorical drops its categories, so use a shallow copy instead.
+        new_arr = arr.copy(deep=False) if isinstance(arr, Categorical) else arr.view()
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From 9951a4d8e2bff25cd56b3e833820c55a308f4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:38 +0000
Subject: [PATCH 016/140] fix: outer multi-key merge2 with keep lost or
 repeated right rows having a partially invalid key

---
 riptable/rt_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 638acb8..ed10254 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1472,6 +1472,9 @@ def _create_merge_fancy_indices(
 
                 # Get the first/last row for each group.
                 keep_ifirstlastkey = _get_keep_ifirstlastkey_with_null(right_groupby_keygroup, keep[1])
+                if len(keep_ifirstlastkey) == right_groupby_keygroup.unique_count:
+                    # There's no entry for the NA/invalid group, so the (1-based) group numbers are off by one.
+                    join_invalid_groupby_groups = join_invalid_groupby_groups - 1
                 join_invalid_groupby_rows = keep_ifirstlastkey[join_invalid_groupby_groups]
 
                 # Get the other right-only rows (those with valid join keys).
-- 
2.43.0


From 404fc6e1d64ded9f0b4b4be46005cfc0148530d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:38 +0000
Subject: [PATCH 017/140] fix: multi-key merge2 raised when every key of one
 side was invalid

---
 riptable/rt_merge.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index ed10254..f84895a 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1354,10 +1354,10 @@ def _create_merge_fancy_indices(
         # TODO: Pass 'hint_size' here to speed up the 'ismember' call?
         # WORKAROUND: Through v1.9.0 ismember() incorrectly raises an exception if one or both inputs is a multikey of
         # empty arrays. Until that's fixed, detect that case and handle it here.
-        if len(left_keygroup.ikey) == 0 or len(right_keygroup.ikey) == 0:
-            right_key_exists_in_left = zeros(right_keygroup.ikey.shape, dtype=bool)
+        if left_keygroup.unique_count == 0 or right_keygroup.unique_count == 0:
+            right_key_exists_in_left = zeros(right_keygroup.unique_count, dtype=bool)
             right_keyid_to_left_keyid_map = full(
-                right_keygroup.ikey.shape, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
+                right_keygroup.unique_count, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
             )
         else:
             right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(
@@ -1424,7 +1424,16 @@ def _create_merge_fancy_indices(
         # key will be smaller-than-or-equal to the length of the original data column, and in most
         # cases will be significantly smaller (so using ismember on the gbkeys will be significantly faster).
         # TODO: Pass 'hint_size' here to speed up the 'ismember' call?
-        right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(right_grouping_gbkey, left_grouping_gbkey)
+        # WORKAROUND: See left_or_inner_join() above.
+        if left_keygroup.unique_count == 0 or right_keygroup.unique_count == 0:
+            right_key_exists_in_left = zeros(right_keygroup.unique_count, dtype=bool)
+            right_keyid_to_left_keyid_map = full(
+                right_keygroup.unique_count, right_keygroup.ikey.inv, dtype=right_keygroup.ikey.dtype
+            )
+        else:
+            right_key_exists_in_left, right_keyid_to_left_keyid_map = ismember(
+                right_grouping_gbkey, left_grouping_gbkey
+            )
 
         # Determine which keys in 'right' are also in 'left'.
         # We can compute this relatively inexpensively from the boolean mask we created earlier
-- 
2.43.0


From d70cbcc1e1971d1cc5e8d6440d79871dc56280b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:38 +0000
Subject: [PATCH 018/140] fix: outer merge of a Categorical key with a string
 key matched category codes against strings

---
 riptable/rt_merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index f84895a..086dc8c 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -353,6 +353,12 @@ def _construct_index(
             tup = tuple([idx[idxFilter] for idx in idxList])
             return tup, tup_left, tup_right
         else:
+            # hstack can't combine a Categorical with a plain array, so use the Categorical's values.
+            if isinstance(idx_left, Categorical) != isinstance(idx_right, Categorical):
+                if isinstance(idx_left, Categorical):
+                    idx_left = idx_left.expand_array
+                else:
+                    idx_right = idx_right.expand_array
             stacked_idx = hstack((idx_left, idx_right))
             idx, _ = unique32([stacked_idx])
             idx = stacked_idx[idx]
-- 
2.43.0


From f4f42b2f5cf608c1903d9618cfe26e0ad2f835b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:37 +0000
Subject: [PATCH 019/140] fix: merge2 with keep on the left side dropped the
 row kept for invalid keys from only one of the join indices

---
 riptable/rt_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 086dc8c..f352742 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1154,7 +1154,8 @@ def _build_left_fancyindex(
     # Each row in 'left' (the original Dataset) having gbkey value K needs to be repeated in-place M times,
     # where M is the multiplicity of that row's key within the *right* Grouping. If the key K from the left Grouping
     # doesn't exist in the right Grouping, those rows get a repeat value of '1' (so they're kept as-is).
-    left_ikey = _get_keep_ikey(left_keygroup, keep_left)
+    # N.B. The rows kept for 'left' include one for the null/invalid group (if any), same as in _build_right_fancyindex().
+    left_ikey = _get_keep_ikey_with_null(left_keygroup, keep_left)
     left_repeats = right_group_multiplicity_as_left[left_ikey]
     assert all(isnotnan(left_repeats)), "Invalid entries found in 'left_repeats'."
     # assert not hasanynan(left_repeats), "Invalid entries found in 'left_repeats'."
@@ -1203,7 +1204,7 @@ def _build_left_fancyindex(
         _fused_arange_repeat(left_repeats_cumsum, left_fancyindex)
     else:
         # Get the ifirstkey/ilastkey for the left keygroup.
-        left_ikey = _get_keep_ifirstlastkey(left_keygroup, keep_left)
+        left_ikey = _get_keep_ifirstlastkey_with_null(left_keygroup, keep_left)
 
         # When dropping duplicates, we're only keeping some of the rows; so in contrast to the
         # case above where we're (potentially) keeping all of the rows from the left Dataset,
-- 
2.43.0


From 5de88795ae75bd135fb62d567265a5a0fb6a3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:52 +0000
Subject: [PATCH 020/140] fix: outer multi-key merge2 with keep and an empty
 left side dropped rows with a partially invalid key

---
 riptable/rt_merge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index f352742..f4fecb6 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1628,6 +1628,11 @@ def _create_merge_fancy_indices(
                 # Left table is empty, so this decays to a right join.
                 recursive_how = "right"
 
+                # All of the rows in the output come from the right table, so 'keep' applies to the
+                # distinct right keys in the GROUP BY sense (as for a right join).
+                if right_groupby_keygroup is not None:
+                    right_keygroup = right_groupby_keygroup
+
             join_indices = _create_merge_fancy_indices(
                 left_keygroup, right_keygroup, right_groupby_keygroup, recursive_how, keep
             )
-- 
2.43.0


From f65d1482639b7370dcff843a06471d1f1bcd215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:05 +0000
Subject: [PATCH 021/140] fix: outer merge cast right-only keys to the left
 key's dtype, truncating strings, wrapping integers and raising for
 Categoricals

---
 riptable/rt_merge.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index f4fecb6..eb585c3 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -3207,8 +3207,19 @@ def merge(
         elif how == "outer":
             in_right_not_in_left = mask_andi(isnan(p_left), isnotnan(p_right))
             for field in intersection_cols:
-                out[field] = left[field][p_left]
-                out[field][in_right_not_in_left] = right[field][p_right[in_right_not_in_left]]
+                left_data, right_data = left[field], right[field]
+                if isinstance(left_data, Categorical) != isinstance(right_data, Categorical):
+                    # hstack can't combine a Categorical with a plain array, so use the Categorical's values.
+                    if isinstance(left_data, Categorical):
+                        left_data = left_data.expand_array
+                    else:
+                        right_data = right_data.expand_array
+                # Index into the combined values, so that the values from 'right' aren't cast to the dtype of 'left'.
+                p_combined = p_left.astype(np.int64)
+                p_combined[in_right_not_in_left] = (
+                    p_right[in_right_not_in_left].astype(np.int64) + len(left_data)
+                )
+                out[field] = hstack((left_data, right_data))[p_combined]
         else:
             raise ValueError(f"The value '{how}' is not valid for the 'how' parameter.")
 
-- 
2.43.0


From ed18e3a21270ee9782a54fc7fb7510725785eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 022/140] fix: save_sds of a Dataset with name= did not add it
 to the folder's root file, so loading the folder skipped it

---
 riptable/rt_sds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 9c0670e..2d222e5 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -912,6 +912,9 @@ def save_sds(
         )
         # if it exists, add this dataset to the folder's _root.sds file for future loads
         # maybe stick rebuild in _write_to_sds... this could also take care of single array saves
+        if name is not None:
+            # the file was saved inside of the folder at filepath; only its outermost item belongs in the root file
+            filepath = _anypath_to_str(filepath) + os.sep + _parse_nested_name(name).split("!")[0]
         _rebuild_rootfile(filepath, sharename=share, bandsize=bandsize, compress=compress, complevel=complevel)
 
     elif isinstance(item, TypeRegister.Struct):
-- 
2.43.0


From f2ea4d98750898773562fe838895a84bd4513c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:25 +0000
Subject: [PATCH 023/140] fix: SDS saved a sort view's row index without an
 entry for it, so loading with include crashed and the wrong column became the
 cached sort index

---
 riptable/rt_struct.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index fa06376..78f9e92 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -1295,12 +1295,12 @@ class Struct:
                 meta_tups.append(t)
                 all_tups.append(t)
 
-        # get sorted row index (Dataset only)
-        if hasattr(self, "get_row_sort_info"):
-            sort_id = self.get_row_sort_info()
-            sort_idx = TypeRegister.SortCache.get_sorted_row_index(*sort_id)
-            if sort_idx is not None:
-                items.append(sort_idx)
+        # the sort columns and direction are enough to restore a sort view (Dataset only)
+        # the sorted row index itself is recomputed on demand by the SortCache after loading
+        ascending = self._sort_ascending
+        meta["_sort_ascending"] = (
+            [bool(a) for a in ascending] if isinstance(ascending, (list, tuple)) else bool(ascending)
+        )
 
         # get footers (currently only implemented for Accum2 result)
         if hasattr(self, "_footers"):
@@ -1593,14 +1593,13 @@ class Struct:
         Arrays will be in the following order:
         - Main arrays (or underlying FastArrays for subclasses)
         - Secondary arrays for FastArray subclasses that require additional contiguous data (e.g. Categorical)
-        - Array of fancy indices to sort by
 
         A dictionary will be constructed.
         All arrays will be inserted by name from 'item_names' in meta object.
         All (if any) meta data will be read from 'item_meta' in meta object, and FastArray subclasses will be constructed.
         The container object will be constructed from the dictionary.
         Any labels (gbkeys) will be set.
-        If sorted column names exist, they will be set, and the sorted index will be added to the SortCache.
+        If sorted column names exist, they will be set; the SortCache recomputes the sorted index when it is needed.
 
         Parameters
         ----------
@@ -1619,15 +1618,11 @@ class Struct:
             arr_idx = 0
             data.label_set_names(meta["labels"])
 
-            # send the sort index to the SortCache
-            data._col_sortlist = meta.get("_col_sortlist", None)
-            if data._col_sortlist is not None:
-                # if a sorted index exists, it's the last array in the list
-                uid = data._uniqueid
-                sortlist = [data[col] for col in data._col_sortlist]
-                sortidx = arrays[arr_idx]
-                TypeRegister.SortCache.store_sort(uid, sortlist, sortidx, data._sort_ascending)
-                arr_idx += 1
+            # restore the sort view, unless one of its columns was not loaded
+            col_sortlist = meta.get("_col_sortlist", None)
+            if col_sortlist is not None and all(col in data for col in col_sortlist):
+                data._col_sortlist = col_sortlist
+                data._sort_ascending = meta.get("_sort_ascending", True)
 
             # attach footers (accum2 operation results)
             if len(meta["footers"]) > 0:
-- 
2.43.0


From f0febfdbe9879af73591727f7f080da3478d6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:25 +0000
Subject: [PATCH 024/140] fix: save_sds with compress=False lost data around
 zero-length arrays and nested containers

---
 riptable/rt_sds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 2d222e5..1ead8b6 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2448,6 +2448,10 @@ def compress_dataset_internal(
         raise TypeError(f"Input must be list of numpy arrays. Got {type(listarrays)}")
 
     # TODO - a gateway check could go here
+    # without compression, the low-level routine misplaces the arrays around a zero-length array
+    # or around the placeholder (None) of a nested container
+    if comptype == CompressionType.Uncompressed and any(arr is None or arr.size == 0 for arr in listarrays):
+        comptype = CompressionType.ZStd
 
     if sharename is None:
         if SDSVerbose:
-- 
2.43.0


From 2f4e3d2bbb3c5217e6531c7e9010c8a7b3524159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 025/140] fix: stacking SDS files rewrote missing codes of
 mapping Categoricals to code 0, which may be a category

---
 riptable/rt_sds.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 1ead8b6..6a209b7 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1259,7 +1259,17 @@ def _multistack_categoricals(spec_name, meta_list, indices, listcats, idx_cutoff
     Assumes meta_list is a list of dictionaries
     Returns a Categorical.
     """
-    if idx_cutoffs is not None and len(idx_cutoffs) > 1:
+    mode = {m["instance_vars"]["mode"] for m in meta_list}
+    if len(mode) != 1:
+        raise TypeError(f"Categoricals had different modes! {list(mode)}")
+    mode = CategoryMode(list(mode)[0])
+
+    # in the mapping modes, 0 may be the code of a category
+    if (
+        mode not in (CategoryMode.Dictionary, CategoryMode.IntEnum)
+        and idx_cutoffs is not None
+        and len(idx_cutoffs) > 1
+    ):
         # pull the firstkey and check for invalids
         firstindex = indices[idx_cutoffs[1:] - 1]
         invalid = INVALID_DICT[firstindex.dtype.num]
@@ -1275,11 +1285,6 @@ def _multistack_categoricals(spec_name, meta_list, indices, listcats, idx_cutoff
     if SDSVerbose:
         verbose_start = VerbosePrint(f"start reconstructing categorical {spec_name}")
 
-    mode = {m["instance_vars"]["mode"] for m in meta_list}
-    if len(mode) != 1:
-        raise TypeError(f"Categoricals had different modes! {list(mode)}")
-    mode = CategoryMode(list(mode)[0])
-
     # for other properties, use the ones from the first item
     firstmeta = meta_list[0]
     ordered = firstmeta["instance_vars"]["ordered"]
-- 
2.43.0


From d9802035bbe98dfb4cd4c50d3d95f78628122b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 026/140] fix: stacking SDS files with a filter that no row
 passes raised for mapping Categoricals

---
 riptable/rt_categorical.py | 2 +-
 riptable/rt_grouping.py    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..374838e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -382,7 +382,7 @@ class Categories:
             if isinstance(args[0], dict):
                 self._int_to_str_dict = args[0]
                 self._str_to_int_dict = args[1]
-                self._max_int = max(self._int_to_str_dict.keys())
+                self._max_int = max(self._int_to_str_dict.keys(), default=0)
 
             # two numpy arrays for dictionaries (restoring from load)
             elif isinstance(args[0], np.ndarray):
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 682fe16..1cc3015 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -778,6 +778,9 @@ class Grouping:
                 isenum = True
             elif isinstance(categories, dict):
                 if len(categories) == 0:
+                    # stacking files in which no row passed the filter leaves an empty mapping
+                    if _trusted and base_index is None:
+                        return True
                     raise ValueError(f"Categories dict was empty.")
 
                 if not isinstance([*categories.values()][0], np.ndarray):
-- 
2.43.0


From aafabd7bf99a4ca75c3ea0689b398ef87b6f5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:44 +0000
Subject: [PATCH 027/140] fix: merge2 with an empty side and a 16-bit
 Categorical key reported the other side's rows as matched

---
 riptable/rt_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index eb585c3..d7cfc39 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -804,7 +804,8 @@ def _build_right_fancyindex(
             return empty(0, dtype=left_keyid_to_right_keyid_map.dtype)
         else:
             output_rowcount = len(left_ikey)
-            return full(output_rowcount, right_keygroup.ikey.inv, dtype=left_keyid_to_right_keyid_map.dtype)
+            fancyindex_dtype = left_keyid_to_right_keyid_map.dtype
+            return full(output_rowcount, INVALID_DICT[fancyindex_dtype.num], dtype=fancyindex_dtype)
 
     # Create an array with the same shape as the 'left' keygroup.
     # Populate each element with the 1-based keyid of the matching key from 'right';
-- 
2.43.0


From f07245f50f66d032e9acbac723087ac7bbfdd4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:43 +0000
Subject: [PATCH 028/140] fix: category_replace leaked into copies sharing the
 categories and truncated longer names

---
 riptable/rt_categorical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 374838e..00012c3 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1163,7 +1163,10 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        # other Categoricals may share the array, and the new value may be wider
+                        names = [*self._list]
+                        names[replace_idx] = new_value
+                        self._list = FastArray(np.array(names), unicode=self.isunicode)
                         self._ordered = False
                         self._sorted = False
                 else:
-- 
2.43.0


From 0101bfa0b44e09a0916b0234af38e693c8f61244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 029/140] fix: category edits left the grouping of a
 Categorical with the old categories

---
 riptable/rt_categorical.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 00012c3..2203830 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3867,6 +3867,27 @@ class Categorical(GroupByOps, FastArray):
             raise ValueError(f"Cannot replace mapping dictionary in a locked Categorical. Call unlock() first.")
         self.groupby_reset()
 
+    # -------------------------------------------------------
+    def _categories_edited(self):
+        """
+        Rebuild the grouping after an edit of the category array, so that both hold the same categories.
+        """
+        wrap = self._categories_wrap
+        grouping = Grouping(
+            self._fa,
+            wrap._list,
+            base_index=self.base_index,
+            ordered=bool(self._ordered),
+            sort_display=self._sort_gb,
+            categorical=True,
+            _trusted=True,
+        )
+        name = self.get_name()
+        if name is not None:
+            grouping.set_name(name)
+        wrap._grouping = grouping
+        self._grouping = grouping
+
     # -------------------------------------------------------
     def category_add(self, value):
         """
@@ -3876,6 +3897,7 @@ class Categorical(GroupByOps, FastArray):
             self._categories_wrap._array_edit(value, how="add")
             self._ordered = False
             self._sorted = False
+            self._categories_edited()
         else:
             raise ValueError(f"Cannot add category to locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -3897,6 +3919,7 @@ class Categorical(GroupByOps, FastArray):
                 self._fa[prev_match] = inv
                 gt_match = self._fa > remove_code
                 self._fa[gt_match] -= 1
+                self._categories_edited()
         else:
             raise ValueError(f"Cannot remove category from locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -3911,6 +3934,7 @@ class Categorical(GroupByOps, FastArray):
             else:
                 self._ordered = False
                 self._sorted = False
+                self._categories_edited()
         else:
             raise ValueError(f"Cannot remove category from locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -4343,8 +4367,13 @@ class Categorical(GroupByOps, FastArray):
                 # add the category, clean up the index array afterwards
                 fix_index = self._categories_wrap._possibly_add_categories(value)
                 if fix_index is not None:
-                    # must be inplace to change self
-                    self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                    # must be inplace to change self; filtered items have no category to move
+                    codes = self._fa
+                    has_category = codes >= self.base_index
+                    codes[has_category] = fix_index[codes[has_category] - self.base_index] + self.base_index
+                    self._ordered = True
+                    self._sorted = True
+                    self._categories_edited()
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
-- 
2.43.0


From 92e62f4cd32db170f988afd3bbe2d2f6f78fabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 030/140] fix: assigning a Categorical with other categories
 into a Categorical always failed

---
 riptable/rt_categorical.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 2203830..cc24ddb 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4329,6 +4329,33 @@ class Categorical(GroupByOps, FastArray):
         self.grouping.set_dirty()
 
     # -------------------------------------------------------
+    def _codes_of(self, other: "Categorical") -> np.ndarray:
+        """
+        The codes in this Categorical of the labels that `other` holds.
+        """
+        # check if already aligned, if so can use same integers
+        is_same, _ = Categorical.categories_equal([self, other])
+        if is_same and self.base_index == other.base_index:
+            return other._fa
+
+        # TODO: multikey
+        if not (self.issinglekey and other.issinglekey):
+            raise NotImplementedError("Cannot assign from a Categorical with other categories, unless both are single key.")
+
+        codes = other._fa - other.base_index
+        has_category = codes >= 0
+        found, index = ismember(other.category_array, self.category_array)
+        codes = codes[has_category]
+        missing = ~found[codes]
+        if np.any(missing):
+            raise ValueError(f"Categories {other.category_array[codes[missing]]} were not found in uniques.")
+        if self.base_index != 1 and not np.all(has_category):
+            raise ValueError("Filtered items cannot be assigned to a Categorical that is not base index 1.")
+        result = zeros(len(other), dtype=self.dtype)
+        result[has_category] = index[codes] + self.base_index
+        return result
+
+    # ------------------------------------------------------------
     def __setitem__(self, index, value):
         """
         Parameters
@@ -4343,14 +4370,7 @@ class Categorical(GroupByOps, FastArray):
         """
 
         if isinstance(value, Categorical):
-            # have to align the categoricals
-            # check if already aligned, if so can use same integers
-            is_same, catlist = Categorical.categories_equal([self, value])
-            value = catlist[1]
-            if not is_same:
-                # convert back to strings (slow)
-                # TODO: multikey will fail here
-                value = self.expand_array
+            value = self._codes_of(value)
 
         # first check if the value is string like
         # if it is, we have to convert it to an index first
-- 
2.43.0


From f0a3a6ad061b96f8ca4f01001ac4cb8c887b27b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 031/140] fix: Categorical.set_valid with a filter overwrote
 the codes of a mapped Categorical

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index cc24ddb..b288575 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3273,7 +3273,7 @@ class Categorical(GroupByOps, FastArray):
         """
         # mapped categoricals will be flipped to array
         if self.isenum:
-            ikey = self._fa
+            ikey = self._fa.copy()
             if filter is not None:
                 if filter.dtype.char == "?":
                     # set the invalids (technically filtering not allowed on an enum)
-- 
2.43.0


From fb3fc66fb57d584b14cbff1384a3427b4369ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:46 +0000
Subject: [PATCH 032/140] fix: comparing Categoricals that are not base index 1
 compared the wrong categories

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index b288575..3b91539 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4814,7 +4814,8 @@ class Categorical(GroupByOps, FastArray):
                     raise ValueError(f"Could not compare categoricals because of conflicting items in dictionaries.")
 
             else:
-                oldidx = [self._fa, other._fa]
+                # merge_cats expects base index 1
+                oldidx = [c._fa if c.base_index == 1 else c._fa.astype(np.int64) + 1 for c in (self, other)]
                 oldcats = [[self.category_array, other.category_array]]
                 newidx, _ = merge_cats(oldidx, oldcats)
                 # print('***newidx', newidx)
-- 
2.43.0


From 48ee69edfd763f8d3ac5c6d33e6ecfe3aad2cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 033/140] fix: expand_dict of a base-0 Categorical gave the
 next category

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 3b91539..f695bd1 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6212,7 +6212,7 @@ class Categorical(GroupByOps, FastArray):
         else:
             xdict = {}
             for i, col in self.category_dict.items():
-                xdict[i] = self._expand_array(col, index=self._fa)
+                xdict[i] = self._expand_array(col)
         return xdict
 
     @property
-- 
2.43.0


From b52f17dc97faeafc631cdd50020ebe2b8c0056c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 034/140] fix: filtered rows of an expanded integer Categorical
 were not the invalid of its dtype

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index f695bd1..35cc7f4 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6265,7 +6265,8 @@ class Categorical(GroupByOps, FastArray):
         # This is because the 'hstack' function will return an array of the same type as
         # the first/leftmost argument it's given, and we want this function to return
         # an array of the same type as 'arr' so the type information is preserved.
-        invarr = np.array([inv])
+        # For numeric types it must also have the same dtype, otherwise it is no longer the invalid value after 'hstack'.
+        invarr = np.array([inv], dtype=None if arr.dtype.char in "SU" else arr.dtype)
         invarr = TypeRegister.newclassfrominstance(invarr, arr)
 
         # TODO: Revisit after upgrading to numpy 1.17+ -- this might be a better approach compared to
-- 
2.43.0


From 3a2407922053a974d2ca487c197b35bfaff09b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 035/140] fix: as_singlekey and as_string_array of a multikey
 Categorical with non-ASCII labels

---
 riptable/rt_categorical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 35cc7f4..f047bb4 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5528,7 +5528,10 @@ class Categorical(GroupByOps, FastArray):
 
         elif self.ismultikey:
             # use onedict
-            name, arr = self.grouping.onedict(invalid=False, sep=sep)
+            try:
+                name, arr = self.grouping.onedict(invalid=False, sep=sep)
+            except UnicodeEncodeError:
+                name, arr = self.grouping.onedict(unicode=True, invalid=False, sep=sep)
             return Categorical(self._fa, arr, ordered=ordered)
         else:
             if self.base_index == 0:
-- 
2.43.0


From c86128d4dd04334008dc8e4e4732afb04094886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 036/140] fix: copies of a base-0 Categorical became base 1
 with other labels

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index f047bb4..e17598b 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1762,6 +1762,7 @@ class Categorical(GroupByOps, FastArray):
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
+                                base_index=base_index,
                                 categorical=True,
                                 dtype=dtype,
                                 _trusted=True,
-- 
2.43.0


From 2458cb1c1fadb8306d17aa73af6e68244fd8720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 037/140] fix: shrink with misc mislabelled rows when trailing
 new categories were absent

---
 riptable/rt_grouping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 1cc3015..ac79c29 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2006,13 +2006,15 @@ class Grouping:
             # translate old index to new index position
             mask, idx = ismember(oldcats, newcats, base_index=base_index)
 
-            # base 1 indexing
+            # base 1 indexing, with room for misc
+            idx = idx.astype(int_dtype_from_len(len(newcats[0]) + 1), copy=False)
             idx += 1
 
             if misc is not None:
                 # everything already 0 stays 0
                 zeromask = self.catinstance == 0
-                maxvalue = max(idx) + 1
+                # misc will be added after all of the new categories, whether or not they occurred before
+                maxvalue = len(newcats[0]) + 1
                 # everything filtered out gets MISC
                 idx[~mask] = maxvalue
                 idx = hstack([0, idx, maxvalue])
-- 
2.43.0


From de63abd9b88692c66e2ae839010bf6f7a66bf982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:57 +0000
Subject: [PATCH 038/140] fix: mapping edits did not reach the grouping and
 leaked into other Categoricals

---
 riptable/rt_categorical.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index e17598b..3be9ee7 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -10,6 +10,7 @@ __all__ = [
     "categorical_merge_dict",
 ]
 
+import copy as copymodule
 import logging
 import operator
 import sys
@@ -1083,6 +1084,7 @@ class Categories:
                 elif how == "replace":
                     if value is not None:
                         if exists is not False:
+                            del self.str2intdict[exists]
                             self.int2strdict[code] = value
                             self.str2intdict[value] = code
                         else:
@@ -3823,12 +3825,26 @@ class Categorical(GroupByOps, FastArray):
         self._auto_add_categories = False
         self._categories_wrap._auto_add_categories = False
 
+    # -------------------------------------------------------
+    def _own_mapping(self):
+        """
+        Called before an edit of the mapping: the categories and the grouping are given one mapping
+        which no other Categorical shares.
+        """
+        # Grouping.copy makes a copy of the mapping
+        grouping = self._grouping.copy(deep=False)
+        wrap = copymodule.copy(self._categories_wrap)
+        wrap._grouping = grouping
+        self._categories_wrap = wrap
+        self._grouping = grouping
+
     # -------------------------------------------------------
     def mapping_add(self, code, value):
         """
         Add a new code -> value mapping to categories.
         """
         if self._locked is False:
+            self._own_mapping()
             self._categories_wrap._mapping_edit(code, value=value, how="add")
         else:
             raise ValueError(f"Cannot add mapping to a locked Categorical. Call unlock() first.")
@@ -3840,6 +3856,7 @@ class Categorical(GroupByOps, FastArray):
         Remove the category associated with an integer code.
         """
         if self._locked is False:
+            self._own_mapping()
             self._categories_wrap._mapping_edit(code, how="remove")
         else:
             raise ValueError(f"Cannot remove mapping a locked Categorical. Call unlock() first.")
@@ -3851,6 +3868,7 @@ class Categorical(GroupByOps, FastArray):
         Replace a single integer code with a single value.
         """
         if self._locked is False:
+            self._own_mapping()
             self._categories_wrap._mapping_edit(code, value=value, how="replace")
         else:
             raise ValueError(f"Cannot replace mapping in a locked Categorical. Call unlock() first.")
@@ -3863,6 +3881,7 @@ class Categorical(GroupByOps, FastArray):
         new mapping, they will appear as Invalid.
         """
         if self._locked is False:
+            self._own_mapping()
             self._categories_wrap._mapping_new(mapping)
         else:
             raise ValueError(f"Cannot replace mapping dictionary in a locked Categorical. Call unlock() first.")
-- 
2.43.0


From 4f4e03054df67b10b622df9c7778b68f387596af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:58 +0000
Subject: [PATCH 039/140] fix: shrink(inplace=True) detached the grouping from
 the codes

---
 riptable/rt_categorical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 3be9ee7..9f613d1 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4202,10 +4202,14 @@ class Categorical(GroupByOps, FastArray):
         # write over own index array
         if inplace:
             self[:] = grp.catinstance
+            # the grouping must go on sharing the codes with this array, or later edits would not reach it
+            grp._set_newinstance(self._fa)
             self._grouping = grp
 
             # because not going through __init__, need to sync up new grouping uniques with categories wrap
+            auto_add = self._categories_wrap._auto_add_categories
             self._categories_wrap = Categories.from_grouping(grp, invalid_category=self.invalid_category)
+            self._categories_wrap._auto_add_categories = auto_add
             return self
 
         # return a new categorical
-- 
2.43.0


From e7eb715be48586f2f29dac0453ea6dfe9a3d0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:58 +0000
Subject: [PATCH 040/140] fix: a refused Categorical assignment left a new
 category behind

---
 riptable/rt_categorical.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9f613d1..f43dbfc 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4396,6 +4396,22 @@ class Categorical(GroupByOps, FastArray):
         if isinstance(value, Categorical):
             value = self._codes_of(value)
 
+        # an index that is not found must not leave a category behind
+        # stringlike
+        if isinstance(index, (str, bytes, float, np.floating)):
+            # convert string to index, let from_category raise error if not found
+            index = self.from_category(index)
+            index = self._fa == index
+
+        # multikey
+        elif isinstance(index, tuple):
+            if self.ismultikey:
+                cat_idx = self._categories_wrap.get_multikey_index(index)
+                if cat_idx > -1:
+                    index = self._fa == cat_idx
+                else:
+                    raise ValueError(f"Provided index {index} was not a valid multikey.")
+
         # first check if the value is string like
         # if it is, we have to convert it to an index first
         if isinstance(value, (str, bytes, float, np.floating)):
@@ -4448,21 +4464,6 @@ class Categorical(GroupByOps, FastArray):
                 else:
                     raise ValueError(f"Provided value {value} was not a valid multikey.")
 
-        # stringlike
-        if isinstance(index, (str, bytes, float, np.floating)):
-            # convert string to index, let from_category raise error if not found
-            index = self.from_category(index)
-            index = self._fa == index
-
-        # multikey
-        elif isinstance(index, tuple):
-            if self.ismultikey:
-                cat_idx = self._categories_wrap.get_multikey_index(index)
-                if cat_idx > -1:
-                    index = self._fa == cat_idx
-                else:
-                    raise ValueError(f"Provided index {index} was not a valid multikey.")
-
         # pass final index, value to underlying fast array
         super().__setitem__(index, value)
         self.groupby_reset()
-- 
2.43.0


From 5617ceb805f652606a46106578288d485bf3cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 041/140] fix: Categorical.map ignored invalid for filtered
 rows when every category was mapped

---
 riptable/rt_categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index f43dbfc..9f01796 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4119,6 +4119,9 @@ class Categorical(GroupByOps, FastArray):
                         self._fa, newcats[catidx - 1], base_index=self.base_index, categorical=True, _trusted=True
                     )
                     c = Categorical(grp)
+                    # filtered items are not in the mapping
+                    if self.base_index == 1 and invalid is not None:
+                        c, inv_mask, inv_fill = set_invalid(c, invalid)
 
             # assumes that array input corresponds to unique category array
             elif isinstance(mapper, np.ndarray):
-- 
2.43.0


From 90e7d9b187efe63cf460eac06ef3e4b785468be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 042/140] fix: Categorical.isin of another Categorical compared
 row by row

---
 riptable/rt_categorical.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9f01796..c700ba8 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4256,8 +4256,7 @@ class Categorical(GroupByOps, FastArray):
             x = list(x)
 
         if isinstance(x, Categorical):
-            if x.ismultikey:
-                return ismember(self, x)[0]
+            return ismember(self, x)[0]
 
         # handle enum + non-categorical with grouping
         elif self.isenum:
-- 
2.43.0


From 7172e47c98e7e7f533cdb7841846d760cf74a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 043/140] fix: comparing a Categorical with a float32 scalar
 compared its codes

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index c700ba8..6dab2c8 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4790,7 +4790,7 @@ class Categorical(GroupByOps, FastArray):
         func = None
 
         # COMPARE TO INTEGER (numeric array categoricals will get handled differently)
-        if isinstance(other, (int, np.integer, float, np.float64)):
+        if isinstance(other, (int, np.integer, float, np.floating)):
             # error will be raised if doesn't match categories
             if not self.isenum:
                 other = self._categories_wrap.get_category_index(other)
-- 
2.43.0


From 72c116f35e8859bb6536e0147dfe643473ada587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 044/140] fix: order comparisons of Categoricals with different
 categories

---
 riptable/rt_categorical.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 6dab2c8..e55ff8c 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4844,7 +4844,14 @@ class Categorical(GroupByOps, FastArray):
                 # merge_cats expects base index 1
                 oldidx = [c._fa if c.base_index == 1 else c._fa.astype(np.int64) + 1 for c in (self, other)]
                 oldcats = [[self.category_array, other.category_array]]
-                newidx, _ = merge_cats(oldidx, oldcats)
+                newidx, newcats = merge_cats(oldidx, oldcats)
+                if func_name not in ["__eq__", "__ne__"] and not np.array_equal(
+                    ismember(*oldcats[0])[1], arange(len(other.category_array))
+                ):
+                    # the merged categories are not in any order, compare by the rank of each
+                    rank = zeros(len(newcats[0]) + 1, dtype=np.int64)
+                    rank[argsort(newcats[0]) + 1] = arange(1, len(rank))
+                    newidx = rank[newidx]
                 # print('***newidx', newidx)
                 # merge index returns stacked
                 newidx_self = newidx[: len(self)]
-- 
2.43.0


From 75df82d6e27a461aee8daf8d9f103d718c71f4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:36 +0000
Subject: [PATCH 045/140] fix: counts of a base-0 Categorical built with
 lex=True read past the groups

---
 riptable/rt_grouping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index ac79c29..4c9276d 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -942,7 +942,11 @@ class Grouping:
 
                     # if we come from a lexsort, we are already packed
                     if lex:
-                        self._packed = True
+                        if base_index == 0:
+                            # this packing has no bin for filtered rows, as everything that uses it expects
+                            self.iGroup, self.iFirstGroup, self.nCountGroup = None, None, None
+                        else:
+                            self._packed = True
 
                 # pull and store only the uniques
                 if categorical:
-- 
2.43.0


From 35997caf1ae37af34d47609219968640f02a1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 046/140] fix: Dataset.duplicated and drop_duplicates with
 keep='last' or a Categorical key

---
 riptable/rt_dataset.py | 55 ++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 40037c3..ee93d79 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3595,38 +3595,37 @@ class Dataset(Struct):
             if not isinstance(subset, list):
                 subset = [subset]
 
-        g = self.gbu(subset).get_groupings()
-        igroup = g["iGroup"]
-        ifirstgroup = g["iFirstGroup"]
-        ncountgroup = g["nCountGroup"]
+        result = ones(self._nrows, dtype=bool)
+        if self._nrows == 0:
+            return result
 
-        result = ones(igroup.shape, dtype=bool)
+        g = self._duplicate_grouping(subset)
 
         # return row of first occurrence
         if keep == "first":
-            # remove invalid bin
-            ifirstgroup = ifirstgroup[1:]
-            result[igroup[ifirstgroup]] = False
+            result[g.ifirstkey] = False
 
-        # return row of last occurrence (however, keys will be in order of their first occurrence)
+        # return row of last occurrence
         elif keep == "last":
-            lastindex = ifirstgroup[-1] + ncountgroup[-1] - 1
-
-            # skip invalid and shift everything
-            ilast = ifirstgroup[2:]
-            ilast -= 1
-            result[igroup[ilast]] = False
-
-            # set the last one
-            result[lastindex] = False
+            result[g.ilastkey] = False
 
         # only return rows that occur once
         elif keep is False:
-            ifirstgroup = ifirstgroup[ncountgroup == 1]
-            result[igroup[ifirstgroup]] = False
+            result[g.ifirstkey[g.ncountgroup[1:] == 1]] = False
 
         return result
 
+    # -------------------------------------------------------------
+    def _duplicate_grouping(self, subset: List[str]):
+        """
+        Group the rows by the columns in `subset`, in order of first occurrence.
+
+        A Categorical is grouped by its codes: its own grouping also holds the categories
+        that don't occur, and leaves out the filtered rows.
+        """
+        cols = [self[name] for name in subset]
+        return TypeRegister.Grouping([col._fa if isinstance(col, TypeRegister.Categorical) else col for col in cols])
+
     # -------------------------------------------------------------
     def drop_duplicates(self, subset=None, keep: Union[bool, str] = "first", inplace: bool = False) -> Self:
         """
@@ -3742,28 +3741,26 @@ class Dataset(Struct):
             if not isinstance(subset, list):
                 subset = [subset]
 
-        gb = self.gbu(subset)
+        g = self._duplicate_grouping(subset)
 
         # return row of first occurrence
         if keep == "first":
-            deduplicated = gb.first()
-            deduplicated.label_remove()
+            rows = g.ifirstkey
 
         # return row of last occurrence (however, keys will be in order of their first occurrence)
         elif keep == "last":
-            deduplicated = gb.last()
-            deduplicated.label_remove()
+            rows = g.ilastkey
 
         # only return rows that occur once
         elif keep is False:
-            non_duplicated = gb.count().Count == 1
-            deduplicated = gb.first()
-            deduplicated.label_remove()
-            deduplicated = deduplicated[non_duplicated, :]
+            rows = g.ifirstkey[g.ncountgroup[1:] == 1]
 
         else:
             raise ValueError(f"Got unexpected value for keep {keep}.")
 
+        deduplicated = self[rows, :]
+        deduplicated.label_remove()
+
         # replace all columns in dictionary
         if inplace is True:
             if deduplicated._nrows != self._nrows:
-- 
2.43.0


From 17194d7bbaf5804d4ff209bbbac22c275b0605da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 047/140] fix: isin of a scalar compared inexactly

---
 riptable/rt_fastarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e65efcc..1f97820 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1746,6 +1746,9 @@ class FastArray(np.ndarray):
                     raise ValueError(
                         "isin does not currently support tuples.  In the future a tuple will be used to represent a multi-key."
                     )
+                # the smallest type that holds a scalar may not compare exactly, use the same path as a list
+                if np.isscalar(test_elements):
+                    test_elements = [test_elements]
                 test_elements = rc.AsFastArray(test_elements, dtype=min_scalar_type(test_elements))
 
         try:
-- 
2.43.0


From abe005b09db588bec21090a7d6d98d77c370d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 048/140] fix: nunique of booleans and dates

---
 riptable/rt_fastarray.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 1f97820..9f5e777 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3984,10 +3984,16 @@ class FastArray(np.ndarray):
         if count > 0:
             # unique is sorted, so check for sentinel based on dtype
             inv = INVALID_DICT[self.dtype.num]
-            if self.dtype.char in NumpyCharTypes.AllFloat:
+            # a boolean has no sentinel
+            if self.dtype.char == "?":
+                pass
+            elif self.dtype.char in NumpyCharTypes.AllFloat:
                 # check if last item is nan
                 if un[count - 1] != un[count - 1]:
                     count -= 1
+            # date types have sentinels of their own
+            elif isinstance(self, (TypeRegister.Date, TypeRegister.DateTimeNano)):
+                count -= int(un.isnan().sum())
             # unsigned int uses high number as sentinel
             elif self.dtype.char in NumpyCharTypes.UnsignedInteger:
                 if un[count - 1] == inv:
-- 
2.43.0


From 194c679e86534de72a5f5abc4d666c23191d77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 049/140] fix: ismember coerced keys to a type that cannot hold
 them

---
 riptable/rt_numpy.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 85406da..8e01b38 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -480,9 +480,12 @@ def _find_lossless_common_array_type(arr1: np.array, arr2: np.array) -> Union[np
         if not target_info["exact"]:
             return False
         np_arr = arr.view(np.ndarray)  # use np.ndarray since rt.FA is unreliable at these limits
-        if array_info["min"] < 0 and (np_arr < target_info["min"]).all():
+        if array_info["min"] < 0 and (np_arr < target_info["min"]).any():
             return False
-        if (np_arr > target_info["max"]).all():
+        if (np_arr > target_info["max"]).any():
+            return False
+        # only whole numbers (or invalids) have an exact counterpart
+        if not array_info["exact"] and ((np_arr != np.trunc(np_arr)) & (np_arr == np_arr)).any():
             return False
         return True
 
@@ -495,6 +498,22 @@ def _find_lossless_common_array_type(arr1: np.array, arr2: np.array) -> Union[np
     if _can_coerce(arr1, info1, info2):
         return dt2
 
+    # Check if all of the integers are small enough to be exact in the floating point type.
+    dtc = np.result_type(dt1, dt2)
+    if np.issubdtype(dtc, np.inexact):
+        limit = 2 ** (np.finfo(dtc).nmant + 1)
+
+        def _is_exact(arr: np.array, array_info: dict) -> bool:
+            if not array_info["exact"]:
+                return True
+            np_arr = arr.view(np.ndarray)
+            if array_info["min"] < 0 and ((np_arr < -limit) & (np_arr != array_info["min"])).any():
+                return False
+            return not (np_arr > limit).any()
+
+        if _is_exact(arr1, info1) and _is_exact(arr2, info2):
+            return dtc
+
     return None
 
 
-- 
2.43.0


From 1482c5676b1e15064137479375bad4f073e893aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 050/140] fix: unique of a mapped Categorical (inverse and
 filter)

---
 riptable/rt_numpy.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 8e01b38..ef238a4 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -912,6 +912,7 @@ def unique(
     optional_indices = return_index or return_inverse
     optional_returns = optional_indices or return_counts
     mark_readonly = False
+    un = None
 
     if isinstance(arr, TypeRegister.Categorical):
         # NOTE if the categorical is not dirty, filter should do nothing
@@ -921,15 +922,17 @@ def unique(
         # check for Dictionary mode
         if arr.category_mode == CategoryMode.Dictionary:
             if filter is not None:
-                arr = arr.set_valid(filter)
+                # group the codes of the rows that are left
+                g = TypeRegister.Grouping(arr._fa, filter=filter)
+                un = arr[g.ifirstkey].grouping.uniquelist
             else:
                 if g.isdirty:
                     arr = arr.set_valid(filter)
                 else:
                     mark_readonly = True
 
-            # get back grouping in case it changed
-            g = arr.grouping
+                # get back grouping in case it changed
+                g = arr.grouping
 
         else:
             if filter is not None:
@@ -959,7 +962,8 @@ def unique(
             # TODO: or grouping needs to obey ordered flag (then don't need to make Categorical)
             g = TypeRegister.Categorical(arr, ordered=sorted, lex=lex, filter=filter).grouping
 
-    un = g.uniquelist
+    if un is None:
+        un = g.uniquelist
 
     # check for multikey
     if len(un) == 1:
@@ -990,7 +994,8 @@ def unique(
         # an array mapping original values to their indices in the unique array
         if return_inverse:
             inv = g.ikey
-            if g.base_index == 1:
+            # the ikey of a mapped Categorical also starts at 1
+            if g.base_index == 1 or g.isenum:
                 inv = inv - 1
 
             if dtype is not None:
-- 
2.43.0


From acb9f95e12d9932bf7f2a459370675beccb1e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 051/140] fix: ismember with nothing to look in (multikey,
 base_index=1)

---
 riptable/rt_numpy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index ef238a4..a7c0e57 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1286,6 +1286,9 @@ def ismember(
 
     if len_a == 0 or len_b == 0:
         indexer_type = np.dtype(np.int32)
+        if base_index == 1:
+            # number of items not found, bins (0 when not found)
+            return len_a, zeros(len_a, dtype=indexer_type)
         indexer = full(len_a, INVALID_DICT[indexer_type.num], dtype=indexer_type)
         return zeros(len(a), dtype=bool), indexer
 
@@ -1336,6 +1339,9 @@ def ismember(
         is_multikey = True
         if all(len(x) == 0 for x in a):
             return ismember([], [])
+        # nothing to be found in
+        if len_a == len_b and all(len(x) == 0 for x in b):
+            return ismember(a[0], [])
 
     # different number of key columns
     if is_multikey:
-- 
2.43.0


From a8b95b93884f3a02858ca397081d15c994c002c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 052/140] fix: assoc_copy changed unicode values to bytes

---
 riptable/rt_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index a7c0e57..f67bc47 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1487,7 +1487,7 @@ def assoc_copy(
     if isinstance(arr, TypeRegister.Dataset):
         return arr[fancyindex, :]
     else:
-        return TypeRegister.FastArray(arr)[fancyindex]
+        return TypeRegister.FastArray(arr, unicode=True)[fancyindex]
 
 
 def unique32(list_keys: List[np.ndarray], hintSize: int = 0, filter: Optional[np.ndarray] = None) -> np.ndarray:
-- 
2.43.0


From acc64c8e9d27e21fb3c8225e3584030e3d1b6acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:54 +0000
Subject: [PATCH 053/140] fix: groupbylex with a filter that leaves no rows

---
 riptable/rt_numpy.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index f67bc47..e062df5 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2225,6 +2225,17 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             filtertrue = filtertrue[0:truecount]
             index = filtertrue
 
+            # no rows left to sort (an empty index would sort all of the rows)
+            if truecount == 0:
+                return {
+                    "iKey": zeros(totalcount, dtype=np.int32),
+                    "iFirstKey": empty(0, dtype=np.int32),
+                    "unique_count": 0,
+                    "iGroup": filterfalse.astype(np.int32),
+                    "iFirstGroup": zeros(1, dtype=np.int32),
+                    "nCountGroup": full(1, totalcount, dtype=np.int32),
+                }
+
         # lexsort
         if len(value_array) > 2e9:
             iGroup = rc.LexSort64(list_arrays, cutoffs=cutoffs, index=index)
-- 
2.43.0


From ce2d04df60bb9274f99cd3f1f4bcd11d4a9d5f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 054/140] fix: copies and column subsets of a Dataset keep the
 per-column directions of its sort view

---
 riptable/rt_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index ee93d79..4b8735d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -711,10 +711,11 @@ class Dataset(Struct):
                     ds._col_sortlist = new_sortlist
                     ds._sort_ascending = self._sort_ascending
             else:
-                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
+                # the directions are stored in the order lexsort wants them (last column first)
+                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending[::-1]) if _k in ds]
                 if len(new_sort) > 0:
                     ds._col_sortlist = [x[0] for x in new_sort]
-                    ds._sort_ascending = [x[1] for x in new_sort]
+                    ds._sort_ascending = TypeRegister.FastArray([bool(x[1]) for x in new_sort[::-1]])
 
             ds._sort_display = self._sort_display
 
-- 
2.43.0


From fdcdb15bc71c453eb90182f67f7ce6330270ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 055/140] fix: sort_view keeps its own list of columns,
 col_rename edited the caller's

---
 riptable/rt_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 4b8735d..35a3709 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4128,7 +4128,8 @@ class Dataset(Struct):
         # if drops into here, sort_view was called
 
         self._sort_ascending = ascending
-        self._col_sortlist = bylist
+        # own list: col_rename edits it
+        self._col_sortlist = list(bylist)
         self.sorts_on()
 
         # TJD New code.. once display, turn sorts_off
-- 
2.43.0


From 453545612021227b786232963b97da64efd3cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 056/140] fix: lexsort honours a list of directions

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index e062df5..ba0dcd5 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2705,6 +2705,9 @@ def lexsort(*args, **kwargs) -> FastArray:
         firstarg = firstarg[0]
 
     if isinstance(firstarg, np.ndarray):
+        # the directions must be an array, a list would be ignored
+        if isinstance(kwargs.get("ascending"), (list, tuple)):
+            kwargs["ascending"] = np.array(kwargs["ascending"], dtype=bool)
         # make sure fastarray
         # also if arraysize > 2billiom call LexSort64 instead
         if firstarg.size > 2e9:
-- 
2.43.0


From edd485ad9ed7953dc307e504a7a36ad4bd01d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 057/140] fix: the sort cache distinguishes columns of equal
 bits but different dtype

---
 riptable/rt_sort_cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_sort_cache.py b/riptable/rt_sort_cache.py
index 5490f28..b1ba5f3 100644
--- a/riptable/rt_sort_cache.py
+++ b/riptable/rt_sort_cache.py
@@ -33,7 +33,7 @@ class SortCache(object):
         """
         crcvals = []
         for c in sortlist:
-            crcvals.append(crc64(c))
+            crcvals.append((crc64(c), c.dtype))
         cls._cache[uid] = (crcvals, sortidx, len(sortidx), ascending)
 
     @classmethod
@@ -42,7 +42,8 @@ class SortCache(object):
             sortlist = list(sortdict.values())
 
             # perform a crc on known sorted values and remember the crc
-            crcvals = [crc64(vals) for vals in sortlist]
+            # (with the dtype, as the same bits order differently as another type)
+            crcvals = [(crc64(vals), vals.dtype) for vals in sortlist]
 
             def _cached():
                 if not (uid in cls._cache):
-- 
2.43.0


From 8f518c17a30d03473857decd0a62ea462d69771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:23 +0000
Subject: [PATCH 058/140] fix: a Dataset with a sort view of several directions
 can be saved and loaded

---
 riptable/rt_struct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 78f9e92..056a549 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -1299,7 +1299,7 @@ class Struct:
         # the sorted row index itself is recomputed on demand by the SortCache after loading
         ascending = self._sort_ascending
         meta["_sort_ascending"] = (
-            [bool(a) for a in ascending] if isinstance(ascending, (list, tuple)) else bool(ascending)
+            [bool(a) for a in ascending] if isinstance(ascending, (list, tuple, np.ndarray)) else bool(ascending)
         )
 
         # get footers (currently only implemented for Accum2 result)
@@ -1622,7 +1622,10 @@ class Struct:
             col_sortlist = meta.get("_col_sortlist", None)
             if col_sortlist is not None and all(col in data for col in col_sortlist):
                 data._col_sortlist = col_sortlist
-                data._sort_ascending = meta.get("_sort_ascending", True)
+                ascending = meta.get("_sort_ascending", True)
+                if isinstance(ascending, list):
+                    ascending = TypeRegister.FastArray(ascending)
+                data._sort_ascending = ascending
 
             # attach footers (accum2 operation results)
             if len(meta["footers"]) > 0:
-- 
2.43.0


From 41f239b3fc045c8b615ae76a0d83016a9431fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 059/140] fix: Dataset row assignment from a one-row Dataset
 used a Categorical's label as its code

---
 riptable/rt_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 35a3709..fb91dd9 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -1325,7 +1325,8 @@ class Dataset(Struct):
             elif isinstance(value, Dataset) and value.shape == (1, len(col_idx)):
                 # this case comes up crucially in ds[3, :] /= 2, for example
                 for colname, _cn in zip(col_idx, value):
-                    getattr(self, colname)[row_idx] = value[_cn][0]
+                    # not value[_cn][0]: the label of a Categorical is not its code
+                    getattr(self, colname)[row_idx] = value[_cn]
             elif len(value) == len(col_idx):
                 for colname, array in zip(col_idx, value):
                     getattr(self, colname)[row_idx] = array
-- 
2.43.0


From 1d041cafb85dfc61fdfaf0bcb2f5b1d7cb44b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 060/140] fix: Dataset-valued assignment with the wrong number
 of columns changed some columns before failing

---
 riptable/rt_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index fb91dd9..85ecc02 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -1345,6 +1345,9 @@ class Dataset(Struct):
                         setattr(self, colname, value)
 
             elif isinstance(value, Dataset):
+                # check before any column is changed
+                if value._ncols != ncols:
+                    raise IndexError(f"Must have same-shape Dataset when setting {ncols} columns, not {value._ncols}.")
                 # TJD 10.2018 - the row mask appears to have already been applied to value
                 # NOTE: if the row mask is a boolean, we could sum it to get the count
                 # NOTE: if the row mask is fancy indexing, we could get length
-- 
2.43.0


From 98d5edf6c805ee704e4149fac961e5a6a36bbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 061/140] fix: Dataset.tail(0) returned every row

---
 riptable/rt_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 85ecc02..5dc44f3 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3046,7 +3046,8 @@ class Dataset(Struct):
             self._nrows = 0
             return self[:0, :]
         rows = min(self._nrows, n)
-        return self[-rows:, :]
+        # -0 would be the start, not the end
+        return self[self._nrows - rows if rows >= 0 else -rows :, :]
 
     def dhead(self, n: int = 0) -> None:
         """
-- 
2.43.0


From aee9fcfdba085c627d898786b8efd75df95130eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 062/140] fix: assigning through a boolean mask on a strided
 array or mask wrote the wrong cells

---
 riptable/rt_fastarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 9f5e777..cce58b8 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1289,6 +1289,10 @@ class FastArray(np.ndarray):
                     # re-test support, just to be sure.
                     is_unsupported = self._is_not_supported(newvalue)
 
+                # the engine walks the array and the mask as if they were contiguous
+                if not (self.flags.f_contiguous and fld.flags.f_contiguous):
+                    is_unsupported = True
+
                 # if supported, call our setitem, it will return False if it fails
                 if not is_unsupported:
                     if rc.SetItem(self, fld, newvalue):
-- 
2.43.0


From 08c0c173f635f0fdc50bcc42181a7bf742df3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 063/140] fix: out-of-range index into a strided array raised
 instead of giving missing

---
 riptable/rt_fastarray.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index cce58b8..f06b26f 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1325,9 +1325,11 @@ class FastArray(np.ndarray):
 
             # if we have fancy indexing and we support the array type, make sure we do not have stride problem
             if fld.dtype.char in NumpyCharTypes.AllInteger and self.dtype.char in NumpyCharTypes.SupportedAlternate:
-                if self.flags.f_contiguous and fld.flags.f_contiguous:
-                    if len(self.shape) == 1:
-                        return TypeRegister.MathLedger._MBGET(self, fld)
+                if len(self.shape) == 1:
+                    arr = self if self.flags.f_contiguous else self.copy()
+                    if not fld.flags.f_contiguous:
+                        fld = fld.copy()
+                    return TypeRegister.MathLedger._MBGET(arr, fld)
 
             # Workaround for indexing a 2d FastArray with invalid indices (eg produced by merge functions)
             # At each invalid index, give a row of NaN's / Inv's
-- 
2.43.0


From 0ddd398675a9cde96778c627e13c39450fa579dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 064/140] fix: astype of a strided array lost the missing
 values

---
 riptable/rt_fastarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index f06b26f..a7ccf0d 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1421,8 +1421,8 @@ class FastArray(np.ndarray):
         # 19 = UNICODE string
         to_num = np.dtype(dtype).num
 
-        # check for contiguous in one or two dimensions
-        if self.flags.f_contiguous or self.flags.c_contiguous:
+        # check for contiguous in two dimensions or more (one dimension may have any stride)
+        if self.flags.f_contiguous or self.flags.c_contiguous or self.ndim == 1:
             if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
                 # perform a safe conversion understanding sentinels
                 return TypeRegister.MathLedger._AS_FA_TYPE(self, to_num)
-- 
2.43.0


From ff7b7f2d44b77d87f50d44712ee7f2c5c8873474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 065/140] fix: putmask with strided operands wrote the wrong
 cells

---
 riptable/rt_numpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index ba0dcd5..aa7cc2d 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -4763,8 +4763,10 @@ def putmask(a, mask, values) -> FastArray:
         # BUG what about categoricals, etc
         return a.putmask(mask, values)
     except:
+        # the engine walks the arrays as if they were contiguous
+        contiguous = all(arr.flags.f_contiguous for arr in (a, mask, values) if isinstance(arr, np.ndarray))
         # false is returned on failure
-        if not rc.PutMask(a, mask, values):
+        if not contiguous or not rc.PutMask(a, mask, values):
             # final attempt use numpy
             return np.putmask(a, mask, values)
 
-- 
2.43.0


From ded18593a59a41b5a3bf5ed9b372561117619595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:51 +0000
Subject: [PATCH 066/140] fix: bool_to_fancy of a strided mask gave the wrong
 rows

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index aa7cc2d..092ae5c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5537,6 +5537,9 @@ def bool_to_fancy(arr: np.ndarray, both: bool = False) -> FastArray:
     """
     if isinstance(arr, np.ndarray):
         if arr.dtype.char == "?":
+            # the engine walks the array as if it was contiguous
+            if not arr.flags.f_contiguous:
+                arr = arr.copy()
             return rc.BooleanToFancy(arr, both=both)
         else:
             raise TypeError(f"Input array must be boolean. Got {arr.dtype}")
-- 
2.43.0


From e852ac8e0e5d6d595d55b90527d343ab61be1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:27 +0000
Subject: [PATCH 067/140] fix: outer merge with keep gave wrong rows when the
 table had more rows than the result's index type holds

---
 riptable/rt_merge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index d7cfc39..fad6606 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1562,8 +1562,10 @@ def _create_merge_fancy_indices(
 
                 # Create an extended version of the fancy index for 'left'; for the new elements representing
                 # rows with right-only keys, write invalid/NA values into them since they don't match any left rows.
+                # The dtype has to hold any row of 'left', even when fewer rows are kept.
                 extended_left_fancy_index = empty(
-                    extended_left_rowcount, dtype=int_dtype_from_len(extended_left_rowcount)
+                    extended_left_rowcount,
+                    dtype=int_dtype_from_len(max(extended_left_rowcount, len(left_keygroup.ikey))),
                 )
                 extended_left_fancy_index[: len(left_fancy_index)] = left_fancy_index
                 extended_left_fancy_index[len(left_fancy_index) :] = extended_left_fancy_index.inv
@@ -1585,8 +1587,10 @@ def _create_merge_fancy_indices(
 
                 # Create an extended version of the fancy index for 'right'; for the new elements representing
                 # rows with right-only keys, we write in the indices of those rows (which we extracted earlier).
+                # The dtype has to hold any row of 'right', even when fewer rows are kept.
                 extended_right_fancy_index = empty(
-                    extended_right_rowcount, dtype=int_dtype_from_len(extended_right_rowcount)
+                    extended_right_rowcount,
+                    dtype=int_dtype_from_len(max(extended_right_rowcount, len(right_keygroup.ikey))),
                 )
                 extended_right_fancy_index[: len(right_fancy_index)] = right_fancy_index
                 extended_right_fancy_index[len(right_fancy_index) :] = right_only_group_rows
-- 
2.43.0


From 32ae2f156ac74ebd990a9e2d4f687197ddf69a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 068/140] fix: grouping, membership, uniques, search and other
 engine calls on strided arrays read the wrong elements or raised

---
 riptable/rt_numpy.py | 95 +++++++++++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 32 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 092ae5c..16bcab6 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -175,6 +175,24 @@ def _is_array_container(arg):
     return isinstance(arg, (tuple, list)) and len(arg) and not np.isscalar(arg[0])
 
 
+def _contiguous(arg):
+    """
+    The engine walks an array as if it was contiguous. Return `arg`, an array or a list or tuple of them,
+    with a copy in place of every array that is not.
+    """
+    if isinstance(arg, (list, tuple)):
+        return type(arg)([_contiguous(item) for item in arg])
+    if isinstance(arg, np.ndarray):
+        # the stride of a single element counts too, which the flags do not show
+        if arg.ndim == 1:
+            is_contiguous = arg.strides[0] == arg.itemsize
+        else:
+            is_contiguous = arg.flags.c_contiguous or arg.flags.f_contiguous
+        if not is_contiguous:
+            return arg.copy()
+    return arg
+
+
 def _cast_to_fa(
     arr: Union[np.ndarray, List[np.ndarray], Tuple[np.ndarray], Mapping[str, np.ndarray], "Dataset"]
 ) -> Union["FastArray", List["FastArray"]]:
@@ -699,11 +717,11 @@ def _searchsorted(array, v, side="left", sorter=None):
         try:
             res = None
             if side == "leftplus":
-                res = rc.BinsToCutsBSearch(v, array, 0)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 0)
             elif side == "left":
-                res = rc.BinsToCutsBSearch(v, array, 1)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 1)
             else:
-                res = rc.BinsToCutsBSearch(v, array, 2)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 2)
 
             if is_scalar and not np.isscalar(res):
                 res = res[0]
@@ -767,7 +785,7 @@ def issorted(*args) -> bool:
     >>> rt.issorted(dtn)
     False
     """
-    return LedgerFunction(rc.IsSorted, *args)
+    return LedgerFunction(rc.IsSorted, *_contiguous(args))
 
 
 # -------------------------------------------------------
@@ -1327,7 +1345,7 @@ def ismember(
         # arg5 - a base index
         # arg6 - b base index
         b, f = rc.IsMemberCategoricalFixup(
-            a._fa, b._fa, on_unique.astype(np.int32), int(num_unique_b), a.base_index, b.base_index
+            _contiguous(a._fa), _contiguous(b._fa), on_unique.astype(np.int32), int(num_unique_b), a.base_index, b.base_index
         )
         return b, f
 
@@ -1352,7 +1370,7 @@ def ismember(
 
             a, b = _ismember_align_multikey(a, b)
 
-            return rc.MultiKeyIsMember32((a,), (b,), hint_size)
+            return rc.MultiKeyIsMember32((_contiguous(a),), (_contiguous(b),), hint_size)
         else:
             raise ValueError(
                 f"Multikey ismember must have the same number of keys in each item. a had {len_a}, b had {len_b}"
@@ -1416,9 +1434,9 @@ def ismember(
 
     # send to fastmath
     if base_index == 1:
-        return rc.IsMemberCategorical(a, b, h, hint_size)
+        return rc.IsMemberCategorical(_contiguous(a), _contiguous(b), h, hint_size)
     elif base_index is None or base_index == 0:
-        return rc.IsMember32(a, b, h, hint_size)
+        return rc.IsMember32(_contiguous(a), _contiguous(b), h, hint_size)
     else:
         raise ValueError(f"base_index must be 0, 1, or None not {base_index!r}")
 
@@ -1512,7 +1530,7 @@ def unique32(list_keys: List[np.ndarray], hintSize: int = 0, filter: Optional[np
         the array contains the INDEX to the first occurence of the unique value.
         the second array contains the INDEX to the last occurence of the unique value.
     """
-    return rc.MultiKeyUnique32(list_keys, hintSize, filter)
+    return rc.MultiKeyUnique32(_contiguous(list_keys), hintSize, _contiguous(filter))
 
 
 # -------------------------------------------------------
@@ -1535,7 +1553,7 @@ def combine_filter(key, filter) -> FastArray:
     -----
     This routine can run in parallel.
     """
-    return rc.CombineFilter(key, filter)
+    return rc.CombineFilter(_contiguous(key), _contiguous(filter))
 
 
 # -------------------------------------------------------
@@ -1570,7 +1588,7 @@ def combine_accum1_filter(key1, unique_count1: int, filter=None):
      'unique_count': 5}
 
     """
-    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(key1, unique_count1, filter)
+    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(_contiguous(key1), unique_count1, _contiguous(filter))
     mkdict = {"iKey": iKey, "iFirstKey": iFirstKey, "unique_count": unique_count}
     return mkdict
 
@@ -1597,7 +1615,9 @@ def combine_accum2_filter(key1, key2, unique_count1: int, unique_count2: int, fi
     bin is a 1 based index array with each False value setting the index to 0
     nCountGroup is INT32 array with size = to (unique_count1 + 1)*(unique_count2 + 1)
     """
-    return rc.CombineAccum2Filter(key1, key2, unique_count1, unique_count2, filter)
+    return rc.CombineAccum2Filter(
+        _contiguous(key1), _contiguous(key2), unique_count1, unique_count2, _contiguous(filter)
+    )
 
 
 # -------------------------------------------------------
@@ -1622,7 +1642,9 @@ def combine2keys(key1, key2, unique_count1: int, unique_count2: int, filter=None
     bin is a 1 based index array with each False value setting the index to 0
     nCountGroup is INT32 array with size = to (unique_count1 + 1)*(unique_count2 + 1)
     """
-    iKey, nCountGroup = rc.CombineAccum2Filter(key1, key2, unique_count1, unique_count2, filter)
+    iKey, nCountGroup = rc.CombineAccum2Filter(
+        _contiguous(key1), _contiguous(key2), unique_count1, unique_count2, _contiguous(filter)
+    )
     mkdict = {"iKey": iKey, "nCountGroup": nCountGroup}
     return mkdict
 
@@ -1818,7 +1840,7 @@ def makeifirst(key, unique_count: int, filter=None) -> np.ndarray:
     If an invalid is used as a riptable fancy index, it will pull in another invalid, for example '' empty string
     """
 
-    return rc.MakeiFirst(key, unique_count, filter, 0)
+    return rc.MakeiFirst(_contiguous(key), unique_count, _contiguous(filter), 0)
 
 
 # -------------------------------------------------------
@@ -1846,7 +1868,7 @@ def makeilast(key, unique_count: int, filter=None) -> np.ndarray:
     If an invalid is used as a riptable fancy index, it will pull in another invalid, for example '' empty string
     """
 
-    return rc.MakeiFirst(key, unique_count, filter, 1)
+    return rc.MakeiFirst(_contiguous(key), unique_count, _contiguous(filter), 1)
 
 
 # -------------------------------------------------------
@@ -1864,7 +1886,7 @@ def makeinext(key, unique_count: int) -> np.ndarray:
     An index array of the same dtype and length of the next row
     The index array will have -MAX_INT set to any locations it could not find a next
     """
-    return rc.MakeiNext(key, unique_count, 0)
+    return rc.MakeiNext(_contiguous(key), unique_count, 0)
 
 
 # -------------------------------------------------------
@@ -1881,7 +1903,7 @@ def makeiprev(key, unique_count: int) -> np.ndarray:
     -------
     The index array will have -MAX_INT set to any locations it could not find a previous
     """
-    return rc.MakeiNext(key, unique_count, 1)
+    return rc.MakeiNext(_contiguous(key), unique_count, 1)
 
 
 # -------------------------------------------------------
@@ -1898,7 +1920,7 @@ def _groupbycalculateall(*args):
     Each array has the length of unique_rows (Arg3)
     The returned arrays have the cells(accum operation) filled in
     """
-    return LedgerFunction(rc.GroupByAll32, *args)
+    return LedgerFunction(rc.GroupByAll32, *_contiguous(args))
 
 
 # -------------------------------------------------------
@@ -1918,7 +1940,7 @@ def _groupbycalculateallpack(*args):
     The returned arrays have the cells(accum operation) filled in
     """
 
-    return LedgerFunction(rc.GroupByAllPack32, *args)
+    return LedgerFunction(rc.GroupByAllPack32, *_contiguous(args))
 
 
 # -------------------------------------------------------
@@ -1972,6 +1994,8 @@ def groupbypack(ikey, ncountgroup, unique_count=None, cutoffs=None) -> dict:
     if dnum not in [1, 3, 5, 7, 9]:
         raise ValueError("ikey must be int8, int16, int32, or int64")
 
+    ikey = _contiguous(ikey)
+    ncountgroup = _contiguous(ncountgroup)
     if cutoffs is None:
         #
         # new routine written Oct, 2019
@@ -2101,7 +2125,7 @@ def groupbyhash(
             common_len = common_len.pop()
             if common_len != 0:
                 iKey, iFirstKey, unique_count = rc.MultiKeyGroupBy32(
-                    list_arrays, hint_size, filter, hash_mode, cutoffs=cutoffs
+                    _contiguous(list_arrays), hint_size, _contiguous(filter), hash_mode, cutoffs=cutoffs
                 )
             else:
                 iKey = TypeRegister.FastArray([], dtype=np.int32)
@@ -2238,14 +2262,14 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
 
         # lexsort
         if len(value_array) > 2e9:
-            iGroup = rc.LexSort64(list_arrays, cutoffs=cutoffs, index=index)
+            iGroup = rc.LexSort64(_contiguous(list_arrays), cutoffs=cutoffs, index=index)
         else:
-            iGroup = rc.LexSort32(list_arrays, cutoffs=cutoffs, index=index)
+            iGroup = rc.LexSort32(_contiguous(list_arrays), cutoffs=cutoffs, index=index)
 
         # make a record array if we did not already because GroupFromLexSort can only handle that
         if isinstance(value_array, list):
             value_array = np.core.records.fromarrays(list_arrays)
-        retval = rc.GroupFromLexSort(iGroup, value_array, cutoffs=cutoffs, base_index=base_index)
+        retval = rc.GroupFromLexSort(iGroup, _contiguous(value_array), cutoffs=cutoffs, base_index=base_index)
 
         if len(retval) == 3:
             iKey, iFirstKey, nCountGroup = retval
@@ -2548,7 +2572,7 @@ def crc32c(arr: np.ndarray) -> int:
     TODO: Warn when the array has non-default striding, as that is not currently respected by
         the implementation of this function.
     """
-    return rc.CalculateCRC(arr)
+    return rc.CalculateCRC(_contiguous(arr))
 
 
 # -------------------------------------------------------
@@ -2711,8 +2735,8 @@ def lexsort(*args, **kwargs) -> FastArray:
         # make sure fastarray
         # also if arraysize > 2billiom call LexSort64 instead
         if firstarg.size > 2e9:
-            return rc.LexSort64(*args, **kwargs)
-        return rc.LexSort32(*args, **kwargs)
+            return rc.LexSort64(*_contiguous(args), **kwargs)
+        return rc.LexSort32(*_contiguous(args), **kwargs)
     else:
         return LedgerFunction(np.lexsort, *args, **kwargs)
 
@@ -3176,7 +3200,7 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
 
         # call down into C++ version of where.
         # result will be None if operation is not supported.
-        result = rc.Where(condition, (x, y), common_dtype.num, common_dtype.itemsize)
+        result = rc.Where(_contiguous(condition), (_contiguous(x), _contiguous(y)), common_dtype.num, common_dtype.itemsize)
         if result is not None:
             return result
 
@@ -3610,7 +3634,7 @@ def nanmin(*args, **kwargs):
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
         if isinstance(firstarg, TypeRegister.FastArray):
-            result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMIN)
+            result = TypeRegister.MathLedger._REDUCE(_contiguous(firstarg), REDUCE_FUNCTIONS.REDUCE_NANMIN)
         else:
             result = LedgerFunction(np.nanmin, *args, **kwargs)
 
@@ -3652,7 +3676,7 @@ def nanmax(*args, **kwargs):
     else:
         # Call the implementation of this function in riptable_cpp via the Ledger class/dispatcher.
         if isinstance(firstarg, TypeRegister.FastArray):
-            result = TypeRegister.MathLedger._REDUCE(firstarg, REDUCE_FUNCTIONS.REDUCE_NANMAX)
+            result = TypeRegister.MathLedger._REDUCE(_contiguous(firstarg), REDUCE_FUNCTIONS.REDUCE_NANMAX)
         else:
             result = LedgerFunction(np.nanmax, *args, **kwargs)
 
@@ -5426,7 +5450,7 @@ def interp(x, xp, fp):
         warnings.warn("rt.interp is downcasting to a float32 to match first array", stacklevel=2)
         xp = xp.astype(np.float32)
         fp = fp.astype(np.float32)
-    return rc.InterpExtrap2d(x, xp, fp, 1)
+    return rc.InterpExtrap2d(_contiguous(x), _contiguous(xp), _contiguous(fp), 1)
 
 
 # -------------------------------------------------------
@@ -5448,7 +5472,7 @@ def interp_extrap(x, xp, fp):
     * riptable version handles floats or doubles, wheras np is always a double
     * 2d mode is auto-detected based on `xp`/`fp`
     """
-    return rc.InterpExtrap2d(x, xp, fp, 0)
+    return rc.InterpExtrap2d(_contiguous(x), _contiguous(xp), _contiguous(fp), 0)
 
 
 # -------------------------------------------------------
@@ -5636,6 +5660,9 @@ def _mask_op(bool_list, funcNum, inplace=False):
             raise ValueError(f"Cannot perform mask_op {funcNum}")
         return result
 
+    first = bool_list[0]
+    bool_list = _contiguous(bool_list)
+
     if inplace:
         # assume first value can be reused
         result = bool_list[0]
@@ -5648,6 +5675,10 @@ def _mask_op(bool_list, funcNum, inplace=False):
             # this will do inplace
             func((result, bool_list[i], result), funcNum, 0)
             i += 1
+
+        if result is not first:
+            first[...] = result
+            result = first
     else:
         result = func((bool_list[0], bool_list[1]), funcNum, 0)
         i = 2
@@ -5698,7 +5729,7 @@ def hstack(tup: Sequence[np.ndarray], dtype: Optional[Union[str, type, np.dtype]
             dtypenum = np.dtype(dtype).num
 
     try:
-        hstack_result = rc.HStack(tup, dtypenum)
+        hstack_result = rc.HStack(_contiguous(tup), dtypenum)
     except:
         hstack_result = np.hstack(tup)
 
-- 
2.43.0


From ddb26f0130ee988852e855d47f84af61ac7c99b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 069/140] fix: reductions of strided arrays raised or gave 0

---
 riptable/rt_fastarray.py | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index a7ccf0d..5a78d92 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -43,6 +43,7 @@ from .rt_grouping import Grouping
 from .rt_misc import _use_autocomplete_placeholder
 from .rt_mlutils import normalize_minmax, normalize_zscore
 from .rt_numpy import (
+    _contiguous,
     _searchsorted,
     asanyarray,
     bool_to_fancy,
@@ -2147,6 +2148,8 @@ class FastArray(np.ndarray):
         """
         Arg2: npFunc pass in None if no numpy equivalent function
         """
+        # the engine only reduces a contiguous array
+        self = _contiguous(self)
         if npFunc is not None and (self._kwarg_check(*args, **kwargs) or len(self.shape) != 1):
             # TODO: add to math ledger
             # set ddof=1 if NOT set which is FastArray default to match matlab/pandas
@@ -2308,25 +2311,25 @@ class FastArray(np.ndarray):
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.argmax)
     def _argmax(a, axis=None, out=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_ARGMAX, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_ARGMAX, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nanargmax)
     def _nanargmax(a, axis=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANARGMAX, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANARGMAX, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.argmin)
     def _argmin(a, axis=None, out=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_ARGMIN, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_ARGMIN, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nanargmin)
     def _nanargmin(a, axis=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANARGMIN, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANARGMIN, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
@@ -2345,7 +2348,7 @@ class FastArray(np.ndarray):
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.max)
     def _max(a, axis=None, out=None, keepdims=None, initial=None, where=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_MAX, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_MAX, 0)
         if result is not None:
             return a.dtype.type(result)
         return result
@@ -2353,7 +2356,7 @@ class FastArray(np.ndarray):
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nanmax)
     def _nanmax(a, axis=None, out=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANMAX, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANMAX, 0)
         if result is not None:
             return a.dtype.type(result)
         return result
@@ -2361,19 +2364,19 @@ class FastArray(np.ndarray):
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.mean)
     def _mean(a, axis=None, dtype=None, out=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_MEAN, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_MEAN, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nanmean)
     def _nanmean(a, axis=None, dtype=None, out=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANMEAN, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANMEAN, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.min)
     def _min(a, axis=None, out=None, keepdims=None, initial=None, where=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_MIN, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_MIN, 0)
         if result is not None:
             return a.dtype.type(result)
         return result
@@ -2381,7 +2384,7 @@ class FastArray(np.ndarray):
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nanmin)
     def _nanmin(a, axis=None, out=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANMIN, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANMIN, 0)
         if result is not None:
             return a.dtype.type(result)
         return result
@@ -2389,13 +2392,13 @@ class FastArray(np.ndarray):
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.std)
     def _std(a, axis=None, dtype=None, out=None, ddof=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_STD, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_STD, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nanstd)
     def _nanstd(a, axis=None, dtype=None, out=None, ddof=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANSTD, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANSTD, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
@@ -2433,25 +2436,25 @@ class FastArray(np.ndarray):
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.sum)
     def _sum(a, axis=None, dtype=None, out=None, keepdims=None, initial=None, where=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_SUM, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_SUM, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nansum)
     def _nansum(a, axis=None, dtype=None, out=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANSUM, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANSUM, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.var)
     def _var(a, axis=None, dtype=None, out=None, ddof=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_VAR, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_VAR, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     @staticmethod
     @_ArrayFunctionHelper.register_array_function(np.nanvar)
     def _nanvar(a, axis=None, dtype=None, out=None, ddof=None, keepdims=None):
-        result = rc.Reduce(a, REDUCE_FUNCTIONS.REDUCE_NANVAR, 0)
+        result = rc.Reduce(_contiguous(a), REDUCE_FUNCTIONS.REDUCE_NANVAR, 0)
         return FastArray._py_number_to_np_dtype(result, a.dtype)
 
     #############################################
@@ -2652,7 +2655,7 @@ class FastArray(np.ndarray):
         FastArray([ 0,  1,  3,  6, 10, 15, 21, 27, 33, 39], dtype=int64)
 
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
+        return rc.TimeWindow(_contiguous(self), _contiguous(time_array), TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
 
     def timewindow_prod(self, time_array, time_dist):
         """
@@ -2670,7 +2673,7 @@ class FastArray(np.ndarray):
         >>> a.timewindow_prod(a,5)
         FastArray([    0,     0,     0,     0,     0,     0,   720,  5040, 20160, 60480], dtype=int64)
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
+        return rc.TimeWindow(_contiguous(self), _contiguous(time_array), TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
 
     #############################################
     # Bottleneck section (only handles int32/int64/float32/float64)
@@ -4582,7 +4585,7 @@ class FastArray(np.ndarray):
         if reduceFunc is not None and len(kwargs) == 0:
             # speed path (todo add call to ledger)
             # default to ddof=0 when no kwargs passed
-            result = rc.Reduce(args[0], reduceFunc, 0)
+            result = rc.Reduce(_contiguous(args[0]), reduceFunc, 0)
 
             if result is not None:
                 # TypeRegister.MathLedger._REDUCE(args[0], newfunc)
-- 
2.43.0


From cd8c0d1ce3544a7a465e0fc172eab8817df3f452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 070/140] fix: counts and cumulative operations by group of
 strided arrays read the wrong elements or crashed

---
 riptable/rt_grouping.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 4c9276d..b2a2832 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -39,6 +39,7 @@ from .rt_enum import (
 )
 from .rt_misc import _use_autocomplete_placeholder
 from .rt_numpy import (
+    _contiguous,
     _groupbycalculateall,
     _groupbycalculateallpack,
     arange,
@@ -1684,7 +1685,7 @@ class Grouping:
         """
         if self.nCountGroup is None:
             if len(self.ikey):
-                self.nCountGroup = rc.BinCount(self.ikey, self.unique_count + 1)
+                self.nCountGroup = rc.BinCount(_contiguous(self.ikey), self.unique_count + 1)
             else:
                 self.nCountGroup = zeros((self.unique_count + 1), dtype=np.int32)
 
@@ -3436,7 +3437,9 @@ class Grouping:
             elif funcNum >= GB_FUNCTIONS.GB_CUMSUM:
                 # NOTE: filter is the third argument of the func_param tuple
                 # TODO: do you want to merge with iKey?
-                accum = rc.EmaAll32(values, ikey, unique_rows, funcNum, func_param)
+                accum = rc.EmaAll32(
+                    _contiguous(values), _contiguous(ikey), unique_rows, funcNum, _contiguous(func_param)
+                )
 
             # basic not packed
             elif funcNum >= GB_FUNCTIONS.GB_SUM and funcNum < GB_FUNCTIONS.GB_FIRST:
@@ -3540,7 +3543,7 @@ class Grouping:
             ikey = where(filter, self.ikey, 0)
             ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         elif self._packedwithfilter:
-            ncountkey = rc.BinCount(self.ikey, self.unique_count + 1)
+            ncountkey = rc.BinCount(_contiguous(self.ikey), self.unique_count + 1)
         else:
             # ncountgroup will call BinCount if it needs to
             ncountkey = self.ncountgroup
-- 
2.43.0


From b7eaf46e907239507ce8a2dde2b4cd0e2d857a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 071/140] fix: stacking a one-row slice of a Categorical or
 date array raised

---
 riptable/rt_hstack.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c4cb7a7..ec90bdd 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -9,7 +9,7 @@ import riptide_cpp as rc
 
 from .rt_enum import CategoryMode, NumpyCharTypes, TypeRegister, int_dtype_from_len
 from .rt_grouping import hstack_groupings, merge_cats
-from .rt_numpy import arange, empty, hstack
+from .rt_numpy import _contiguous, arange, empty, hstack
 
 
 def hstack_any(
@@ -658,7 +658,7 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
     # todo: see _multistack_categoricals int rt_sds.py
     # stack indices
     # this will stack the fastarrays
-    indices = rc.HStack(cats)
+    indices = rc.HStack(_contiguous(cats))
     idx_cutoffs = TypeRegister.FastArray([len(c._fa) for c in cats], dtype=np.int64).cumsum()
 
     # ------------------------- start rebuild here
@@ -748,7 +748,7 @@ def _hstack_datetimenano(dtlist, destroy=False):
         return dtlist
 
     # hstack int64 utc nano arrays
-    arr = rc.HStack(dtlist)
+    arr = rc.HStack(_contiguous(dtlist))
 
     # reconstruct with first item
     return TypeRegister.DateTimeNano.newclassfrominstance(arr, dtlist[0])
@@ -761,7 +761,7 @@ def _hstack_timespan(tspans, destroy=False):
     This is a very simple class, rewrap the hstack result in class.
     NOTE: destroy ignored
     """
-    ts = rc.HStack(tspans)
+    ts = rc.HStack(_contiguous(tspans))
     return TypeRegister.TimeSpan(ts)
 
 
@@ -808,7 +808,7 @@ def _hstack_date_internal(dates, subclass=TypeRegister.Date):
     if len(dates) == 1:
         return dates
 
-    stacked = rc.HStack(dates)
+    stacked = rc.HStack(_contiguous(dates))
     return subclass.newclassfrominstance(stacked, dates[0])
 
 
-- 
2.43.0


From 9a2595708eee1ae33fbe3f9c94079df6983eb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 072/140] fix: saving a one-row slice of an array raised

---
 riptable/rt_sds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 6a209b7..94ef4ff 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -55,7 +55,7 @@ from .rt_enum import (
     TypeRegister,
 )
 from .rt_grouping import merge_cats
-from .rt_numpy import arange, empty, ismember, zeros
+from .rt_numpy import _contiguous, arange, empty, ismember, zeros
 from .rt_timers import utcnow
 from .rt_utils import h5io_to_struct
 from .Utils.rt_metadata import MetaData
@@ -2452,6 +2452,8 @@ def compress_dataset_internal(
     if not isinstance(listarrays, list):
         raise TypeError(f"Input must be list of numpy arrays. Got {type(listarrays)}")
 
+    listarrays = _contiguous(listarrays)
+
     # TODO - a gateway check could go here
     # without compression, the low-level routine misplaces the arrays around a zero-length array
     # or around the placeholder (None) of a nested container
-- 
2.43.0


From 2833aa04ca756dad72a53ab379a33e9486f6cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 073/140] fix: alignmk and merge_prebinned of strided arrays
 gave wrong rows

---
 riptable/rt_utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index ff89ee1..d3ff575 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -31,7 +31,7 @@ import numpy as np
 import riptide_cpp as rc
 
 from .rt_enum import INVALID_DICT, NumpyCharTypes, TypeRegister
-from .rt_numpy import arange, bool_to_fancy, crc32c, empty, get_common_dtype, tile
+from .rt_numpy import _contiguous, arange, bool_to_fancy, crc32c, empty, get_common_dtype, tile
 
 # Type-checking-only imports.
 if TYPE_CHECKING:
@@ -390,7 +390,9 @@ def merge_prebinned(key1: np.ndarray, key2: np.ndarray, val1, val2, totalUniqueS
     if not isinstance(val2, np.ndarray):
         raise TypeError("val2 must be ndarray")
 
-    return rc.MergeBinnedAndSorted(key1, key2, val1, val2, totalUniqueSize)
+    return rc.MergeBinnedAndSorted(
+        _contiguous(key1), _contiguous(key2), _contiguous(val1), _contiguous(val2), totalUniqueSize
+    )
 
 
 def possibly_convert(arr: Union[np.ndarray, FastArray], common_dtype: np.dtype | str):
@@ -581,7 +583,14 @@ def alignmk(
             raise ValueError("unsupported direction in alignmk")
 
         # TODO: Update C++ code to take a list
-        result = rc.MultiKeyAlign32((key1,), (key2,), time1, time2, isForward, allow_exact_matches)
+        result = rc.MultiKeyAlign32(
+            (_contiguous(key1),),
+            (_contiguous(key2),),
+            _contiguous(time1),
+            _contiguous(time2),
+            isForward,
+            allow_exact_matches,
+        )
     if verbose:
         print("result", result)
     return result
-- 
2.43.0


From 9584c4ed0f80e2da626fa3cd5e2a399edca91dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 074/140] fix: parsing a strided array of date or time strings
 gave wrong dates

---
 riptable/rt_datetime.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e549427..00a9eb3 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -46,6 +46,7 @@ from .rt_enum import (
 from .rt_fastarray import FastArray
 from .rt_hstack import hstack_any
 from .rt_numpy import (
+    _contiguous,
     arange,
     empty,
     full,
@@ -356,7 +357,7 @@ def strptime_to_nano(dtstrings, format, from_tz=None, to_tz="NYC"):
     if isinstance(format, str):
         format = format.encode()
 
-    nano_times = rc.StrptimeToNanos(dtstrings, format)
+    nano_times = rc.StrptimeToNanos(_contiguous(dtstrings), format)
     return DateTimeNano(nano_times, from_tz=from_tz, to_tz=to_tz)
 
 
@@ -402,7 +403,7 @@ def datetimestring_to_nano(dtstring, from_tz=None, to_tz="NYC"):
     DateTimeNano([20121212 12:34:56.001002000, 20130303 01:14:15.000000000, 20080706 15:14:13.000000000])
 
     """
-    nano_times = rc.DateTimeStringToNanos(dtstring)
+    nano_times = rc.DateTimeStringToNanos(_contiguous(dtstring))
     return DateTimeNano(nano_times, from_tz=from_tz, to_tz=to_tz)
 
 
@@ -441,13 +442,13 @@ def datestring_to_nano(datestring, time=None, from_tz=None, to_tz="NYC"):
     DateTimeNano([20180101 09:30:00.000000000, 20180102 09:30:00.000000000, 20180103 09:30:00.000000000])
     """
 
-    nano_dates = rc.DateStringToNanos(datestring)
+    nano_dates = rc.DateStringToNanos(_contiguous(datestring))
     if time is None:
         result = nano_dates
     else:
         if isinstance(time, (str, bytes)):
             time = TypeRegister.FastArray([time])
-        time = rc.TimeStringToNanos(time)
+        time = rc.TimeStringToNanos(_contiguous(time))
 
         result = nano_dates + time
 
@@ -500,14 +501,14 @@ def timestring_to_nano(timestring, date=None, from_tz=None, to_tz="NYC"):
     DateTimeNano([20180201 01:23:45.000000000, 20180207 12:34:56.000000000, 20180512 23:22:21.000000000])
 
     """
-    nano_times = rc.TimeStringToNanos(timestring)
+    nano_times = rc.TimeStringToNanos(_contiguous(timestring))
     if date is None:
         result = TimeSpan(nano_times)
     else:
         if isinstance(date, (str, bytes)):
             date = TypeRegister.FastArray([date])
 
-        date = rc.DateStringToNanos(date)
+        date = rc.DateStringToNanos(_contiguous(date))
         result = date + nano_times
         result = DateTimeNano(result, from_tz=from_tz, to_tz=to_tz)
 
-- 
2.43.0


From 337dc067c8b2cb5fc08b37df3fcf2fe1dc3e3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 075/140] fix: daylight saving time starts and ends at the
 exact transition instant

---
 riptable/rt_timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 50e920a..325e3c8 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1191,7 +1191,7 @@ class TimeZone:
         # is_dst = (FastArray(np.searchsorted(DST_CUTOFFS, arr)) & 1).astype(bool)
         # is_dst = (rc.BinsToCutsBSearch(arr, cutoffs, 0) & 1).astype(bool)
 
-        is_dst = (searchsorted(cutoffs, arr) & 1).astype(np.bool_)
+        is_dst = (searchsorted(cutoffs, arr, side="right") & 1).astype(np.bool_)
         return is_dst
 
     # ------------------------------------------------------------
-- 
2.43.0


From 5f068efd236b0dcccb2d894668bf12b336320f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 076/140] fix: Europe/Dublin daylight saving tables for
 1970-1980

---
 riptable/rt_timezone.py | 58 ++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 325e3c8..fa21388 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -311,24 +311,26 @@ NYC_OFFSET_NS = 5 * NANOS_PER_HOUR
 
 DST_CUTOFFS_DUBLIN = FastArray(
     [
+        "1970-01-01 00:00:00",
+        "1971-10-31 03:00:00",
         "1972-03-19 02:00:00",
-        "1972-10-29 02:00:00",
+        "1972-10-29 03:00:00",
         "1973-03-18 02:00:00",
-        "1973-10-28 02:00:00",
+        "1973-10-28 03:00:00",
         "1974-03-17 02:00:00",
-        "1974-10-27 02:00:00",
+        "1974-10-27 03:00:00",
         "1975-03-16 02:00:00",
-        "1975-10-26 02:00:00",
+        "1975-10-26 03:00:00",
         "1976-03-21 02:00:00",
-        "1976-10-24 02:00:00",
+        "1976-10-24 03:00:00",
         "1977-03-20 02:00:00",
-        "1977-10-23 02:00:00",
+        "1977-10-23 03:00:00",
         "1978-03-19 02:00:00",
-        "1978-10-29 02:00:00",
+        "1978-10-29 03:00:00",
         "1979-03-18 02:00:00",
-        "1979-10-28 02:00:00",
+        "1979-10-28 03:00:00",
         "1980-03-16 02:00:00",
-        "1980-10-26 02:00:00",
+        "1980-10-26 03:00:00",
         "1981-03-29 02:00:00",
         "1981-10-25 02:00:00",
         "1982-03-28 02:00:00",
@@ -454,24 +456,26 @@ DST_CUTOFFS_DUBLIN = FastArray(
 
 DST_REVERSE_DUBLIN = FastArray(
     [
-        "1972-03-19 01:00:00",
-        "1972-10-29 01:00:00",
-        "1973-03-18 01:00:00",
-        "1973-10-28 01:00:00",
-        "1974-03-17 01:00:00",
-        "1974-10-27 01:00:00",
-        "1975-03-16 01:00:00",
-        "1975-10-26 01:00:00",
-        "1976-03-21 01:00:00",
-        "1976-10-24 01:00:00",
-        "1977-03-20 01:00:00",
-        "1977-10-23 01:00:00",
-        "1978-03-19 01:00:00",
-        "1978-10-29 01:00:00",
-        "1979-03-18 01:00:00",
-        "1979-10-28 01:00:00",
-        "1980-03-16 01:00:00",
-        "1980-10-26 01:00:00",
+        "1970-01-01 00:00:00",
+        "1971-10-31 02:00:00",
+        "1972-03-19 02:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-18 02:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-17 02:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-16 02:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-21 02:00:00",
+        "1976-10-24 02:00:00",
+        "1977-03-20 02:00:00",
+        "1977-10-23 02:00:00",
+        "1978-03-19 02:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-18 02:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-16 02:00:00",
+        "1980-10-26 02:00:00",
         "1981-03-29 01:00:00",
         "1981-10-25 01:00:00",
         "1982-03-28 01:00:00",
-- 
2.43.0


From ff1267980faaccbe6d294b14b541d198eedbbb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 077/140] fix: Australia/Sydney daylight saving tables before
 2008

---
 riptable/rt_timezone.py | 297 +++++++++++++++++++---------------------
 1 file changed, 142 insertions(+), 155 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index fa21388..f6725aa 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -607,88 +607,79 @@ DUBLIN_OFFSET_NS = 0 * NANOS_PER_HOUR
 
 DST_CUTOFFS_Australia__Sydney = FastArray(
     [
-        # Prefix the array with one additional entry compared to timezones in the northern hemisphere.
-        # Code below in the TimeZone class assumes even-indexed entries represent start-of-DST transition times
-        # (local date/time within this timezone) and odd-numbered entries represent end-of-DST transition times.
-        # Timezones in the southern hemisphere start DST later in the year and end earlier in the year,
-        # so this one additional entry fixes the DST calculations below.
-        "1969-10-26 02:00:00",
-        "1970-04-05 03:00:00",
-        "1970-10-04 02:00:00",
-        "1971-04-04 03:00:00",
-        "1971-10-03 02:00:00",
-        "1972-04-02 03:00:00",
-        "1972-10-01 02:00:00",
-        "1973-04-01 03:00:00",
-        "1973-10-07 02:00:00",
-        "1974-04-07 03:00:00",
-        "1974-10-06 02:00:00",
-        "1975-04-06 03:00:00",
-        "1975-10-05 02:00:00",
-        "1976-04-04 03:00:00",
-        "1976-10-03 02:00:00",
-        "1977-04-03 03:00:00",
-        "1977-10-02 02:00:00",
-        "1978-04-02 03:00:00",
-        "1978-10-01 02:00:00",
-        "1979-04-01 03:00:00",
-        "1979-10-07 02:00:00",
-        "1980-04-06 03:00:00",
-        "1980-10-05 02:00:00",
-        "1981-04-05 03:00:00",
-        "1981-10-04 02:00:00",
+        "1971-10-31 02:00:00",
+        "1972-02-27 03:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-04 03:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-03 03:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-02 03:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-07 03:00:00",
+        "1976-10-31 02:00:00",
+        "1977-03-06 03:00:00",
+        "1977-10-30 02:00:00",
+        "1978-03-05 03:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-04 03:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-02 03:00:00",
+        "1980-10-26 02:00:00",
+        "1981-03-01 03:00:00",
+        "1981-10-25 02:00:00",
         "1982-04-04 03:00:00",
-        "1982-10-03 02:00:00",
-        "1983-04-03 03:00:00",
-        "1983-10-02 02:00:00",
-        "1984-04-01 03:00:00",
-        "1984-10-07 02:00:00",
-        "1985-04-07 03:00:00",
-        "1985-10-06 02:00:00",
-        "1986-04-06 03:00:00",
-        "1986-10-05 02:00:00",
-        "1987-04-05 03:00:00",
-        "1987-10-04 02:00:00",
-        "1988-04-03 03:00:00",
-        "1988-10-02 02:00:00",
-        "1989-04-02 03:00:00",
-        "1989-10-01 02:00:00",
-        "1990-04-01 03:00:00",
-        "1990-10-07 02:00:00",
-        "1991-04-07 03:00:00",
-        "1991-10-06 02:00:00",
-        "1992-04-05 03:00:00",
-        "1992-10-04 02:00:00",
-        "1993-04-04 03:00:00",
-        "1993-10-03 02:00:00",
-        "1994-04-03 03:00:00",
-        "1994-10-02 02:00:00",
-        "1995-04-02 03:00:00",
-        "1995-10-01 02:00:00",
-        "1996-04-07 03:00:00",
-        "1996-10-06 02:00:00",
-        "1997-04-06 03:00:00",
-        "1997-10-05 02:00:00",
-        "1998-04-05 03:00:00",
-        "1998-10-04 02:00:00",
-        "1999-04-04 03:00:00",
-        "1999-10-03 02:00:00",
-        "2000-04-02 03:00:00",
-        "2000-10-01 02:00:00",
-        "2001-04-01 03:00:00",
-        "2001-10-07 02:00:00",
-        "2002-04-07 03:00:00",
-        "2002-10-06 02:00:00",
-        "2003-04-06 03:00:00",
-        "2003-10-05 02:00:00",
-        "2004-04-04 03:00:00",
-        "2004-10-03 02:00:00",
-        "2005-04-03 03:00:00",
-        "2005-10-02 02:00:00",
+        "1982-10-31 02:00:00",
+        "1983-03-06 03:00:00",
+        "1983-10-30 02:00:00",
+        "1984-03-04 03:00:00",
+        "1984-10-28 02:00:00",
+        "1985-03-03 03:00:00",
+        "1985-10-27 02:00:00",
+        "1986-03-16 03:00:00",
+        "1986-10-19 02:00:00",
+        "1987-03-15 03:00:00",
+        "1987-10-25 02:00:00",
+        "1988-03-20 03:00:00",
+        "1988-10-30 02:00:00",
+        "1989-03-19 03:00:00",
+        "1989-10-29 02:00:00",
+        "1990-03-04 03:00:00",
+        "1990-10-28 02:00:00",
+        "1991-03-03 03:00:00",
+        "1991-10-27 02:00:00",
+        "1992-03-01 03:00:00",
+        "1992-10-25 02:00:00",
+        "1993-03-07 03:00:00",
+        "1993-10-31 02:00:00",
+        "1994-03-06 03:00:00",
+        "1994-10-30 02:00:00",
+        "1995-03-05 03:00:00",
+        "1995-10-29 02:00:00",
+        "1996-03-31 03:00:00",
+        "1996-10-27 02:00:00",
+        "1997-03-30 03:00:00",
+        "1997-10-26 02:00:00",
+        "1998-03-29 03:00:00",
+        "1998-10-25 02:00:00",
+        "1999-03-28 03:00:00",
+        "1999-10-31 02:00:00",
+        "2000-03-26 03:00:00",
+        "2000-08-27 02:00:00",
+        "2001-03-25 03:00:00",
+        "2001-10-28 02:00:00",
+        "2002-03-31 03:00:00",
+        "2002-10-27 02:00:00",
+        "2003-03-30 03:00:00",
+        "2003-10-26 02:00:00",
+        "2004-03-28 03:00:00",
+        "2004-10-31 02:00:00",
+        "2005-03-27 03:00:00",
+        "2005-10-30 02:00:00",
         "2006-04-02 03:00:00",
-        "2006-10-01 02:00:00",
-        "2007-04-01 03:00:00",
-        "2007-10-07 02:00:00",
+        "2006-10-29 02:00:00",
+        "2007-03-25 03:00:00",
+        "2007-10-28 02:00:00",
         "2008-04-06 03:00:00",
         "2008-10-05 02:00:00",
         "2009-04-05 03:00:00",
@@ -760,83 +751,79 @@ DST_CUTOFFS_Australia__Sydney = FastArray(
 
 DST_REVERSE_Australia__Sydney = FastArray(
     [
-        "1969-10-25 16:00:00",
-        "1970-04-04 16:00:00",
-        "1970-10-03 16:00:00",
-        "1971-04-03 16:00:00",
-        "1971-10-02 16:00:00",
-        "1972-04-01 16:00:00",
-        "1972-09-30 16:00:00",
-        "1973-03-31 16:00:00",
-        "1973-10-06 16:00:00",
-        "1974-04-06 16:00:00",
-        "1974-10-05 16:00:00",
-        "1975-04-05 16:00:00",
-        "1975-10-04 16:00:00",
-        "1976-04-03 16:00:00",
-        "1976-10-02 16:00:00",
-        "1977-04-02 16:00:00",
-        "1977-10-01 16:00:00",
-        "1978-04-01 16:00:00",
-        "1978-09-30 16:00:00",
-        "1979-03-31 16:00:00",
-        "1979-10-06 16:00:00",
-        "1980-04-05 16:00:00",
-        "1980-10-04 16:00:00",
-        "1981-04-04 16:00:00",
-        "1981-10-03 16:00:00",
+        "1971-10-30 16:00:00",
+        "1972-02-26 16:00:00",
+        "1972-10-28 16:00:00",
+        "1973-03-03 16:00:00",
+        "1973-10-27 16:00:00",
+        "1974-03-02 16:00:00",
+        "1974-10-26 16:00:00",
+        "1975-03-01 16:00:00",
+        "1975-10-25 16:00:00",
+        "1976-03-06 16:00:00",
+        "1976-10-30 16:00:00",
+        "1977-03-05 16:00:00",
+        "1977-10-29 16:00:00",
+        "1978-03-04 16:00:00",
+        "1978-10-28 16:00:00",
+        "1979-03-03 16:00:00",
+        "1979-10-27 16:00:00",
+        "1980-03-01 16:00:00",
+        "1980-10-25 16:00:00",
+        "1981-02-28 16:00:00",
+        "1981-10-24 16:00:00",
         "1982-04-03 16:00:00",
-        "1982-10-02 16:00:00",
-        "1983-04-02 16:00:00",
-        "1983-10-01 16:00:00",
-        "1984-03-31 16:00:00",
-        "1984-10-06 16:00:00",
-        "1985-04-06 16:00:00",
-        "1985-10-05 16:00:00",
-        "1986-04-05 16:00:00",
-        "1986-10-04 16:00:00",
-        "1987-04-04 16:00:00",
-        "1987-10-03 16:00:00",
-        "1988-04-02 16:00:00",
-        "1988-10-01 16:00:00",
-        "1989-04-01 16:00:00",
-        "1989-09-30 16:00:00",
-        "1990-03-31 16:00:00",
-        "1990-10-06 16:00:00",
-        "1991-04-06 16:00:00",
-        "1991-10-05 16:00:00",
-        "1992-04-04 16:00:00",
-        "1992-10-03 16:00:00",
-        "1993-04-03 16:00:00",
-        "1993-10-02 16:00:00",
-        "1994-04-02 16:00:00",
-        "1994-10-01 16:00:00",
-        "1995-04-01 16:00:00",
-        "1995-09-30 16:00:00",
-        "1996-04-06 16:00:00",
-        "1996-10-05 16:00:00",
-        "1997-04-05 16:00:00",
-        "1997-10-04 16:00:00",
-        "1998-04-04 16:00:00",
-        "1998-10-03 16:00:00",
-        "1999-04-03 16:00:00",
-        "1999-10-02 16:00:00",
-        "2000-04-01 16:00:00",
-        "2000-09-30 16:00:00",
-        "2001-03-31 16:00:00",
-        "2001-10-06 16:00:00",
-        "2002-04-06 16:00:00",
-        "2002-10-05 16:00:00",
-        "2003-04-05 16:00:00",
-        "2003-10-04 16:00:00",
-        "2004-04-03 16:00:00",
-        "2004-10-02 16:00:00",
-        "2005-04-02 16:00:00",
-        "2005-10-01 16:00:00",
+        "1982-10-30 16:00:00",
+        "1983-03-05 16:00:00",
+        "1983-10-29 16:00:00",
+        "1984-03-03 16:00:00",
+        "1984-10-27 16:00:00",
+        "1985-03-02 16:00:00",
+        "1985-10-26 16:00:00",
+        "1986-03-15 16:00:00",
+        "1986-10-18 16:00:00",
+        "1987-03-14 16:00:00",
+        "1987-10-24 16:00:00",
+        "1988-03-19 16:00:00",
+        "1988-10-29 16:00:00",
+        "1989-03-18 16:00:00",
+        "1989-10-28 16:00:00",
+        "1990-03-03 16:00:00",
+        "1990-10-27 16:00:00",
+        "1991-03-02 16:00:00",
+        "1991-10-26 16:00:00",
+        "1992-02-29 16:00:00",
+        "1992-10-24 16:00:00",
+        "1993-03-06 16:00:00",
+        "1993-10-30 16:00:00",
+        "1994-03-05 16:00:00",
+        "1994-10-29 16:00:00",
+        "1995-03-04 16:00:00",
+        "1995-10-28 16:00:00",
+        "1996-03-30 16:00:00",
+        "1996-10-26 16:00:00",
+        "1997-03-29 16:00:00",
+        "1997-10-25 16:00:00",
+        "1998-03-28 16:00:00",
+        "1998-10-24 16:00:00",
+        "1999-03-27 16:00:00",
+        "1999-10-30 16:00:00",
+        "2000-03-25 16:00:00",
+        "2000-08-26 16:00:00",
+        "2001-03-24 16:00:00",
+        "2001-10-27 16:00:00",
+        "2002-03-30 16:00:00",
+        "2002-10-26 16:00:00",
+        "2003-03-29 16:00:00",
+        "2003-10-25 16:00:00",
+        "2004-03-27 16:00:00",
+        "2004-10-30 16:00:00",
+        "2005-03-26 16:00:00",
+        "2005-10-29 16:00:00",
         "2006-04-01 16:00:00",
-        "2006-09-30 16:00:00",
-        "2007-03-31 16:00:00",
-        "2007-10-06 16:00:00",
+        "2006-10-28 16:00:00",
+        "2007-03-24 16:00:00",
+        "2007-10-27 16:00:00",
         "2008-04-05 16:00:00",
         "2008-10-04 16:00:00",
         "2009-04-04 16:00:00",
-- 
2.43.0


From 2e5cff03f8667bbdd40900aa91b7910c260f6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 078/140] fix: strftime of DateTimeNano and TimeSpan must not
 round up to the next microsecond

---
 riptable/rt_datetime.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 00a9eb3..66c66f7 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -542,6 +542,13 @@ def parse_epoch(etime, to_tz="NYC"):
     return dtn.days_since_epoch, dtn.millis_since_midnight()
 
 
+# ------------------------------------------------------------
+def _nano_to_datetime(nanos, tzinfo):
+    """Convert nanoseconds since the epoch to a datetime, dropping the digits below a microsecond."""
+    seconds, nanos = divmod(int(nanos), NANOS_PER_SECOND)
+    return dt.fromtimestamp(seconds, tzinfo).replace(microsecond=nanos // NANOS_PER_MICROSECOND)
+
+
 # ------------------------------------------------------------
 def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=None):
     """Preserve NaN date and time values in the final result of date/time class operations.
@@ -4157,27 +4164,19 @@ class DateTimeCommon:
         >>> dtn[0].strftime('%c')
         'Fri Jan  1 09:31:15 2021'
         """
-        in_seconds = self / NANOS_PER_SECOND
         to_tz = self._timezone._to_tz
         if to_tz in ["GMT", "UTC"]:
-            if isinstance(in_seconds, np.ndarray):
-                return np.asarray(
-                    [dt.fromtimestamp(timestamp, timezone.utc).strftime(format) for timestamp in in_seconds],
-                    dtype=dtype,
-                )
-            else:
-                return dt.strftime(dt.fromtimestamp(in_seconds, timezone.utc), format)
-
+            localzone = timezone.utc
         else:
             # Choose timezone from to_tz
             localzone = tz.gettz(self._timezone._timezone_str)
 
-            if isinstance(in_seconds, np.ndarray):
-                return np.asarray(
-                    [dt.fromtimestamp(timestamp, localzone).strftime(format) for timestamp in in_seconds], dtype=dtype
-                )
-            else:
-                return dt.strftime(dt.fromtimestamp(in_seconds, localzone), format)
+        if isinstance(self, np.ndarray):
+            return np.asarray(
+                [_nano_to_datetime(nanos, localzone).strftime(format) for nanos in self._fa],
+                dtype=dtype,
+            )
+        return _nano_to_datetime(self._np, localzone).strftime(format)
 
 
 # ========================================================
@@ -6533,8 +6532,8 @@ class TimeSpanBase:
         if isinstance(self, np.ndarray):
             result = np.asarray(
                 [
-                    dt.fromtimestamp(timestamp, timezone.utc).strftime(format)
-                    for timestamp in self._fa.abs() / 1_000_000_000.0
+                    _nano_to_datetime(nanos, timezone.utc).strftime(format)
+                    for nanos in self._fa.abs()
                 ],
                 dtype=dtype,
             )
@@ -6547,7 +6546,7 @@ class TimeSpanBase:
                     negcol[isnegative] = "-"
                 result = negcol + result
         else:
-            result = dt.strftime(dt.fromtimestamp(abs(self) / 1_000_000_000.0, timezone.utc), format)
+            result = _nano_to_datetime(abs(self._np), timezone.utc).strftime(format)
             if isnegative:
                 # check dtype 'S'
                 if dtype == "S":
-- 
2.43.0


From ddd2e3d0a7bb78e68967de85f04b298de4637b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 079/140] fix: Date.seconds_since_epoch overflowed int32 after
 2038

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 66c66f7..7846c41 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2102,7 +2102,7 @@ class Date(DateBase, TimeStampBase):
         Many existing python datetime routines expect seconds since epoch.
         This call is to eliminate "magic numbers" like 3600 from code.
         """
-        return _apply_inv_mask(self, self._fa * SECONDS_PER_DAY)
+        return _apply_inv_mask(self, self._fa.astype(np.int64) * SECONDS_PER_DAY)
 
     # ------------------------------------------------------------
     @classmethod
-- 
2.43.0


From cd361ef000acc2b1326c86a32dec1463131ae6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 080/140] fix: DateTimeNano calendar and clock fields: local
 date in zones without DST, half-hour offsets, missing values, scalars

---
 riptable/rt_datetime.py | 103 +++++++++++++++++++++++-----------------
 1 file changed, 60 insertions(+), 43 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 7846c41..1a971d4 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3134,8 +3134,8 @@ class DateTimeCommon:
         int64 array
 
         """
-        arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_DAY
+        arr = self._timezone.fix_dst(self._fa)
+        return _apply_inv_mask(self, arr // NANOS_PER_DAY)
 
     # ------------------------------------------------------------
     @property
@@ -3153,8 +3153,8 @@ class DateTimeCommon:
         -------
         int64 array
         """
-        arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_SECOND
+        arr = self._timezone.fix_dst(self._fa)
+        return _apply_inv_mask(self, arr // NANOS_PER_SECOND)
 
     # ------------------------------------------------------------
     def nanos_since_midnight(self):
@@ -3288,18 +3288,14 @@ class DateTimeCommon:
 
 
         """
-        if self._timezone._dst_reverse is not None:
-            arr = self._timezone.fix_dst(self._fa)
-            arr = arr - (arr % NANOS_PER_DAY)
-        else:
-            arr = self._fa
-            arr = arr - (arr % NANOS_PER_DAY)
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("date")
+        arr = self._timezone.fix_dst(self._fa)
+        arr = arr - (arr % NANOS_PER_DAY)
+        putmask(arr, self.isnan(), DateTimeBase.NAN_TIME)
         # from_tz needs to match to_tz (similar to from_matlab_days, except can't force 'GMT' because of DST fixup)
         # return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz='UTC')
-        result = DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
-        if isinstance(self, DateTimeNanoScalar):
-            return result[0]
-        return result
+        return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
 
     # ------------------------------------------------------------
     @property
@@ -3323,6 +3319,8 @@ class DateTimeCommon:
         this routine is very similar to day_of_month - can probably internal routines to avoid repeating code
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("yyyymmdd")
         arr = self._fa
         arr = self._timezone.fix_dst(arr)
         year = self._year(arr, fix_dst=False)
@@ -3351,7 +3349,7 @@ class DateTimeCommon:
         final += monthnum.astype(np.int32) * 100
         final += (monthtime // NANOS_PER_DAY) + 1
 
-        return final
+        return _apply_inv_mask(self, final)
 
     # ------------------------------------------------------------
     @property
@@ -3407,6 +3405,8 @@ class DateTimeCommon:
         int32 array
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("month")
         return _apply_inv_mask(self, self._month(fix_dst=True))
 
     # ------------------------------------------------------------
@@ -3420,6 +3420,8 @@ class DateTimeCommon:
         >>> d.monthyear()
         FastArray([ 'Feb2000','Dec2018'])
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("monthyear")
         month = self.month()
         yearstr = self.year().astype("S")
         return MONTH_STR_ARRAY[month - 1] + yearstr
@@ -3441,6 +3443,8 @@ class DateTimeCommon:
         int32 array
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("day_of_year")
         result = self.nanos_since_start_of_year()
         if isinstance(result, np.ndarray):
             np.floor_divide(result, NANOS_PER_DAY, out=result)
@@ -3448,7 +3452,7 @@ class DateTimeCommon:
             result = result // NANOS_PER_DAY
         result += 1
 
-        return result
+        return _apply_inv_mask(self, result)
 
     # ------------------------------------------------------------
     @property
@@ -3469,8 +3473,10 @@ class DateTimeCommon:
         int32 array
 
         """
-        arr = self._fa
-        year = self._year(arr, fix_dst=True)
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("day_of_month")
+        arr = self._timezone.fix_dst(self._fa)
+        year = self._year(arr, fix_dst=False)
 
         # subtract the nanos from start of year so all times are in MM-DD HH:MM:SS, etc.
         startyear = arr - self._year_splits[year - 1970]
@@ -3491,7 +3497,7 @@ class DateTimeCommon:
             monthtime = monthtime // NANOS_PER_DAY
         monthtime += 1
 
-        return monthtime
+        return _apply_inv_mask(self, monthtime)
 
     # ------------------------------------------------------------
     @property
@@ -3513,6 +3519,8 @@ class DateTimeCommon:
         int32 array
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("day_of_week")
         arr = self.days_since_epoch
         arr += EPOCH_DAY_OF_WEEK
 
@@ -3521,7 +3529,7 @@ class DateTimeCommon:
             np.mod(arr, 7, out=arr)
         else:
             arr = arr % 7
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     @property
@@ -3530,16 +3538,16 @@ class DateTimeCommon:
         Return the Monday for the week the TimeStamp is in
         Returns a Date or DateScalar
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("start_of_week")
         arr = self.days_since_epoch
         arr += EPOCH_DAY_OF_WEEK
         adjust = arr % 7
         arr -= adjust
         arr -= EPOCH_DAY_OF_WEEK
+        arr = _apply_inv_mask(self, arr, fillval=DateBase.NAN_DATE)
 
-        result = Date(arr)
-        if not isinstance(arr, np.ndarray):
-            return result[0]
-        return result
+        return Date(arr)
 
     # ------------------------------------------------------------
     @property
@@ -3567,6 +3575,8 @@ class DateTimeCommon:
         bool array
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("is_dst")
         return self._timezone._is_dst(self._fa)
 
     # ------------------------------------------------------------
@@ -3594,6 +3604,8 @@ class DateTimeCommon:
         -------
         int32 array
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("tz_offset")
         return self._timezone._tz_offset(self._fa)
 
     # -----------------------------------------------------
@@ -3602,13 +3614,25 @@ class DateTimeCommon:
         scalar or array putmask
         """
         if isinstance(arr1, np.ndarray):
-            return putmask(arr1, filter, arr2)
+            putmask(arr1, filter, arr2)
+            return arr1
         else:
             if filter:
                 return arr2
             else:
                 return arr1
 
+    # -----------------------------------------------------
+    def _scalar_field(self, name):
+        """
+        Field of a scalar, computed as the field of an array holding just that value.
+        """
+        arr = DateTimeNano(FastArray([self._np]), from_tz="GMT", to_tz=self._timezone._to_tz)
+        field = getattr(arr, name)
+        if callable(field):
+            field = field()
+        return field[0]
+
     # ------------------------------------------------------------
     @property
     def is_weekday(self):
@@ -3629,8 +3653,7 @@ class DateTimeCommon:
         """
         inv_mask = self.isnan()
         isweekday = self.day_of_week < 5
-        self.putmask(isweekday, inv_mask, False)
-        return isweekday
+        return self.putmask(isweekday, inv_mask, False)
 
     # ------------------------------------------------------------
     @property
@@ -3652,8 +3675,7 @@ class DateTimeCommon:
         """
         inv_mask = self.isnan()
         isweekend = self.day_of_week > 4
-        self.putmask(isweekend, inv_mask, False)
-        return isweekend
+        return self.putmask(isweekend, inv_mask, False)
 
     # ------------------------------------------------------------
     @property
@@ -3680,8 +3702,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         arr = arr % NANOS_PER_DAY
         arr = arr / NANOS_PER_DAY
-        self.putmask(arr, inv_mask, np.nan)
-        return arr
+        return self.putmask(arr, inv_mask, np.nan)
 
     # ------------------------------------------------------------
     @property
@@ -3735,17 +3756,16 @@ class DateTimeCommon:
             result = TypeRegister.TimeSpan(arr)
         else:
             result = arr / NANOS_PER_HOUR
-        self.putmask(result, inv_mask, np.nan)
-        return result
+        return self.putmask(result, inv_mask, np.nan)
 
     # ------------------------------------------------------------
     def _time_fraction(self, modulo, divisor, span=False):
         """
         Internal routine for minute, second, millisecond, microsecond, nanosecond (+span) properties.
-        None of these need to account for timezone.
+        The offset of a timezone may be a fraction of an hour (e.g. Asia/Kolkata).
         """
         inv_mask = self.isnan()
-        arr = self._fa % modulo
+        arr = (self._fa - self._timezone._offset) % modulo
         if span:
             if isinstance(self, DateTimeNano):
                 result = TypeRegister.TimeSpan(arr)
@@ -3753,8 +3773,7 @@ class DateTimeCommon:
                 result = TypeRegister.TimeSpanScalar(arr)
         else:
             result = arr / divisor
-        self.putmask(result, inv_mask, np.nan)
-        return result
+        return self.putmask(result, inv_mask, np.nan)
 
     # ------------------------------------------------------------
     @property
@@ -3989,7 +4008,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         year = self._year(arr, fix_dst=False)
         arr = arr - self._year_splits[year - 1970]
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     def time_since_start_of_year(self):
@@ -4015,11 +4034,9 @@ class DateTimeCommon:
         Nanosecond precision will be lost after ~52 days
         """
 
-        result = TimeSpan(self.nanos_since_start_of_year())
-
-        if isinstance(self, DateTimeNano):
-            return result
-        return result[0]
+        if not isinstance(self, np.ndarray):
+            return self._scalar_field("time_since_start_of_year")
+        return self.putmask(TimeSpan(self.nanos_since_start_of_year()), self.isnan(), np.nan)
 
     # ------------------------------------------------------------
     def time_since_midnight(self):
-- 
2.43.0


From ac882d6acd1be28247ebfde85e24e418bf1719ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:50 +0000
Subject: [PATCH 081/140] fix: mask missing values of date/time results
 broadcast from one item

---
 riptable/rt_datetime.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 1a971d4..1f3149f 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -555,33 +555,28 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     Called by time fraction properties and math operations.
     """
     if isinstance(arr1, np.ndarray):
-        if len(arr1) == 1:
-            # broadcast array of 1 path
-            if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]])
-            return arr2
-        else:
-            if arr1_inv_mask is None:
-                arr1_inv_mask = arr1.isnan()
-
-            if fillval is None:
-                # use the sentinel or nan for the return array type, e.g. year() returns int32
-                fillval = INVALID_DICT[arr2.dtype.num]
-            putmask(arr2, arr1_inv_mask, fillval)
-
-            # apply the invalid mask from an operation with another array
-            if arr2_inv_mask is not None:
-                # return invalid fill, fixes broadcasting if math operations
-                # was with a scalar or single item array
-                if np.isscalar(arr2_inv_mask):
-                    if arr2_inv_mask:
-                        arr2[:] = fillval
-                elif len(arr2_inv_mask) == 1:
-                    if arr2_inv_mask[0]:
-                        arr2[:] = fillval
-                else:
-                    putmask(arr2, arr2_inv_mask, fillval)
-            return arr2
+        if arr1_inv_mask is None:
+            arr1_inv_mask = arr1.isnan()
+
+        if fillval is None:
+            # use the sentinel or nan for the return array type, e.g. year() returns int32
+            fillval = INVALID_DICT[arr2.dtype.num]
+
+        # also apply the invalid mask from an operation with another array
+        for inv_mask in (arr1_inv_mask, arr2_inv_mask):
+            if inv_mask is None:
+                continue
+            # return invalid fill, fixes broadcasting if math operations
+            # was with a scalar or single item array
+            if np.isscalar(inv_mask):
+                if inv_mask:
+                    arr2[:] = fillval
+            elif len(inv_mask) == 1:
+                if inv_mask[0]:
+                    arr2[:] = fillval
+            else:
+                putmask(arr2, inv_mask, fillval)
+        return arr2
     else:
         # scalar path
         if arr1 <= 0:
-- 
2.43.0


From 44ba3ba74178831a0ac4570331c901eb3420abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:50 +0000
Subject: [PATCH 082/140] fix: keep the meaning of date/time scalars and
 strided views in subtraction

---
 riptable/rt_datetime.py | 45 +++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 1f3149f..0c8f852 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -584,6 +584,35 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
         return arr2
 
 
+# ------------------------------------------------------------
+def _math_two_inputs(arr1, arr2, op):
+    """Perform a date/time math operation in the engine, which refuses views with strides and
+    arrays it cannot broadcast: those are retried as contiguous arrays of the same length.
+    """
+    func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
+    result = func((arr1, arr2), op, 0)
+    if result is None:
+        arr1, arr2 = np.broadcast_arrays(np.asarray(arr1), np.asarray(arr2))
+        result = func((np.ascontiguousarray(arr1), np.ascontiguousarray(arr2)), op, 0)
+    return result
+
+
+# ------------------------------------------------------------
+def _scalar_to_array(value):
+    """Turn a date or time scalar into an array of one item, which keeps its meaning in operations with other arrays.
+    Any other value is returned as is.
+    """
+    if isinstance(value, DateTimeNanoScalar):
+        return DateTimeNano(FastArray([value._np]), from_tz="GMT", to_tz=value._timezone._to_tz)
+    if isinstance(value, TimeSpanScalar):
+        return TimeSpan(FastArray([value._np]))
+    if isinstance(value, DateScalar):
+        return Date(FastArray([value._np]))
+    if isinstance(value, DateSpanScalar):
+        return DateSpan(FastArray([value._np]))
+    return value
+
+
 # ========================================================
 class DateTimeBase(FastArray):
     """Base class for DateTimeNano and TimeSpan.
@@ -2322,15 +2351,11 @@ class Date(DateBase, TimeStampBase):
 
         All other operands will be treated as DateSpan and return Date.
         """
+        value = _scalar_to_array(value)
         if isinstance(value, Date):
-            func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
             # need routine for int32 - int32 => int32 (operands have 0 as invalid, result has sentinel as invalid)
             # right now, using the double return, gets recasted in the constructor
-            op = MATH_OPERATION.SUBDATETIMES
-
-            functup = (self, value)
-            result = func(functup, op, 0)
-            return DateSpan(result)
+            return DateSpan(_math_two_inputs(self, value, MATH_OPERATION.SUBDATETIMES))
 
         elif isinstance(value, DateTimeNano):
             caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=value._timezone._from_tz)
@@ -4089,7 +4114,7 @@ class DateTimeCommon:
         """
         input1 = self
         if not isinstance(self, np.ndarray):
-            input1 = DateTimeNano(self)
+            input1 = _scalar_to_array(self)
 
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
         if call_super:
@@ -4108,11 +4133,9 @@ class DateTimeCommon:
             )
         else:
             if inplace:
-                functup = (input1, other, input1)
+                result = func((input1, other, input1), op, 0)
             else:
-                functup = (input1, other)
-
-            result = func(functup, op, 0)
+                result = _math_two_inputs(input1, other, op)
             if result is None:
                 raise RuntimeError(
                     f"Could not perform {funcname} operation with DateTimeNano and {type(other)} {other}"
-- 
2.43.0


From 4894a2af0dc64813b3597dd5ede5d1b1230fc392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:50 +0000
Subject: [PATCH 083/140] fix: refuse date math before an in-place operation,
 keep zone and class of the result

---
 riptable/rt_datetime.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 0c8f852..a609077 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1063,6 +1063,7 @@ class DateBase(FastArray):
         if funcname in self.forbidden_mathops:
             raise TypeError(f"Cannot perform {funcname} on {self.__class__.__name__} object.")
 
+        operand = value = _scalar_to_array(value)
         inv_mask = self.isnan()
         other_inv_mask = None
         return_type = None
@@ -1073,10 +1074,8 @@ class DateBase(FastArray):
             funcname, value, other_inv_mask, return_type, caller
         )
 
-        # perform main math operation on fast array
-        func = getattr(caller, funcname)
-        result = func(value)
         # set return type, preserve invalids for non-nano operands
+        # this may refuse the operation, so an inplace operation cannot be performed before
         if return_type is None:
             return_type, other_inv_mask = self._check_mathops(funcname, value)
 
@@ -1084,8 +1083,12 @@ class DateBase(FastArray):
         if return_type is None:
             return other_inv_mask
 
+        # perform main math operation on fast array
+        func = getattr(caller, funcname)
+        result = func(value)
+
         # apply invalid mask(s) and wrap result in final return type
-        result = self._build_mathops_result(value, result, inv_mask, other_inv_mask, return_type)
+        result = self._build_mathops_result(operand, result, inv_mask, other_inv_mask, return_type)
         return result
 
     # ------------------------------------------------------------
@@ -1098,17 +1101,22 @@ class DateBase(FastArray):
         # print('other_inv_mask',other_inv_mask)
         # print('return type',return_type)
 
-        result = _apply_inv_mask(
-            self, result, fillval=self.NAN_DATE, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
-        )
+        if return_type == TimeSpan:
+            fillval = np.nan
+        elif return_type == DateTimeNano:
+            fillval = DateTimeBase.NAN_TIME
+        else:
+            fillval = return_type.NAN_DATE
+
+        result = _apply_inv_mask(self, result, fillval=fillval, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask)
 
         if not isinstance(result, return_type):
             if return_type == DateTimeNano:
-                try:
-                    # base on original to_tz
-                    # use a try, because this may be hit by TimeSpan operand (no timezone)
+                # base on original to_tz
+                # this may be hit by TimeSpan operand (no timezone)
+                if isinstance(value, DateTimeNano):
                     to_tz = value._timezone._to_tz
-                except:
+                else:
                     to_tz = "GMT"
                 result = DateTimeNano(result, from_tz="GMT", to_tz=to_tz)
 
-- 
2.43.0


From 22c8118fa7cd9824f0a39e58594c6604d9be8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:50 +0000
Subject: [PATCH 084/140] fix: DateSpan added to a plain number

---
 riptable/rt_datetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index a609077..c712511 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3030,6 +3030,9 @@ class DateSpan(DateBase):
     def __iadd__(self, value):
         return self._funnel_mathops("__iadd__", value)
 
+    def __radd__(self, value):
+        return self._funnel_mathops("__add__", value)
+
     def __sub__(self, value):
         return self._funnel_mathops("__sub__", value)
 
-- 
2.43.0


From 805cc2c56f0dcc42b7c85b3f3fb9a59e7854545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:02 +0000
Subject: [PATCH 085/140] fix: date/time comparisons with scalars and missing
 right operands

---
 riptable/rt_datetime.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index c712511..1755c91 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -853,16 +853,19 @@ class TimeStampBase:
         return smonth.astype(np.int32, copy=False).view(FastArray)
 
     # ------------------------------------------------------------
-    def _preserve_invalid_comparison(self, caller, other, funcname):
+    def _preserve_invalid_comparison(self, caller, other, funcname, other_inv_mask=None):
         """Date and DateTimeNano have multiple values for nan (0 and integer sentinel).
         Both of their compare checks need to preserve nans in the result the same way.
         """
         func = getattr(caller, funcname)
         result = func(other)
+        inv_mask = self.isnan()
+        if other_inv_mask is not None:
+            inv_mask = inv_mask | other_inv_mask
         if funcname == "__ne__":
-            result += self.isnan()
+            result += inv_mask
         else:
-            result *= self.isnotnan()
+            result *= ~inv_mask
         return result
 
 
@@ -2282,8 +2285,9 @@ class Date(DateBase, TimeStampBase):
         """
 
         caller = self._fa
+        other = _scalar_to_array(other)
 
-        if isinstance(other, (DateSpan, TimeSpan, DateSpanScalar, TimeSpanScalar)):
+        if isinstance(other, (DateSpan, TimeSpan)):
             raise TypeError(f"Cannot perform {funcname} comparison operation between {type(self)} and {type(other)}.")
 
         elif isinstance(other, DateTimeNano):
@@ -2294,7 +2298,7 @@ class Date(DateBase, TimeStampBase):
 
         # looks weird now, saving explicit branchesfor if any forbidden types appear
         elif isinstance(other, Date):
-            other = other._fa
+            pass
 
         elif isinstance(other, (str, bytes)):
             other = Date(other)
@@ -2304,8 +2308,14 @@ class Date(DateBase, TimeStampBase):
             other = Date(other)
         # let everything else fall through for FastArray to catch
 
+        other_inv_mask = None
+        if isinstance(other, (Date, DateTimeNano)):
+            other_inv_mask = other.isnan()
+        if isinstance(other, Date):
+            other = other._fa
+
         # restore invalids
-        return self._preserve_invalid_comparison(caller, other, funcname)
+        return self._preserve_invalid_comparison(caller, other, funcname, other_inv_mask)
 
     # -------------------COMPARISONS------------------------------
     # ------------------------------------------------------------
@@ -3047,6 +3057,7 @@ class DateSpan(DateBase):
         """
 
         caller = self._fa
+        other = _scalar_to_array(other)
 
         if isinstance(other, (Date, DateTimeNano, TypeRegister.Categorical)):
             # Date allows categorical comparisons, DateSpan does not
@@ -5601,23 +5612,27 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
     # -------------------------------------------------------------
     def _datetimenano_compare_check(self, funcname, other):
         caller = self._fa
+        other = _scalar_to_array(other)
+        other_inv_mask = None
 
-        if isinstance(other, (DateTimeNano, DateTimeNanoScalar)):
+        if isinstance(other, DateTimeNano):
+            other_inv_mask = other.isnan()
             if other._timezone._to_tz != self._timezone._to_tz:
                 warnings.warn(
                     f"DateTimeNano objects are being displayed in different timezones. Results may not appear to be correct for {funcname}",
                     stacklevel=2,
                 )
 
-        elif isinstance(other, (Date, DateScalar)):
+        elif isinstance(other, Date):
+            other_inv_mask = other.isnan()
             other = DateTimeNano(other._fa * NANOS_PER_DAY, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
 
-        elif isinstance(other, (TimeSpan, DateSpan, TimeSpanScalar, DateSpanScalar)):
+        elif isinstance(other, (TimeSpan, DateSpan)):
             raise TypeError(f"Cannot compare DateTimeNano with {type(other)}")
         # let everything else fall through to fast array
 
         # restore invalids
-        return self._preserve_invalid_comparison(caller, other, funcname)
+        return self._preserve_invalid_comparison(caller, other, funcname, other_inv_mask)
 
     # -------------------COMPARISONS------------------------------
     # ------------------------------------------------------------
@@ -7108,6 +7123,8 @@ class TimeSpanBase:
         if isinstance(other, (str, bytes)):
             other = TimeSpan(other)[0]
 
+        if not isinstance(other, TimeSpanScalar):
+            other = _scalar_to_array(other)
         if isinstance(other, (DateTimeNano, Date)):
             raise TypeError(f"Cannot compare TimeSpan with {type(other)}")
         # upcast DateSpan to nanoseconds
-- 
2.43.0


From b731e86066eb12f545ae44772172d07fd792f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:02 +0000
Subject: [PATCH 086/140] fix: missing values in Date.diff and
 DateTimeNano.diff

---
 riptable/rt_datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 1755c91..8a9a0b3 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1437,6 +1437,7 @@ class Date(DateBase, TimeStampBase):
         DateSpan
         """
         result = self._fa.diff(periods=periods)
+        putmask(result, self.isnan() | self.shift(periods).isnan(), DateSpan.NAN_DATE)
         return DateSpan(result)
 
     # ------------------------------------------------------------
@@ -5791,7 +5792,9 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         >>> dtn.diff(periods=6)
         TimeSpan(['Inv', 'Inv', 'Inv', 'Inv', 'Inv', 'Inv'])
         """
-        return TimeSpan(self._fa.diff(periods=periods).astype(np.float64))
+        result = self._fa.diff(periods=periods).astype(np.float64)
+        putmask(result, self.isnan() | self.shift(periods).isnan(), np.nan)
+        return TimeSpan(result)
 
     # -------------------------------------------------------------
     def __radd__(self, other):
-- 
2.43.0


From 88773e7b087274424a2942967e4f565a8d37b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:02 +0000
Subject: [PATCH 087/140] fix: missing and DateSpan operands in TimeSpan and
 DateTimeNano math

---
 riptable/rt_datetime.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8a9a0b3..9b75ffe 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -5899,11 +5899,12 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
                 if inplace:
                     raise TypeError(f"__sub__ returns TimeSpan. Cannot perform inplace.")
                 # upcast Date
-                other = other.astype(np.int64) * NANOS_PER_DAY
+                other = _scalar_to_array(other).astype(np.int64) * NANOS_PER_DAY
 
             elif isinstance(other, (TimeSpan, TimeSpanScalar)):
                 # apply our own mask during this track
                 return_type = DateTimeNano
+                other_inv_mask = isnan(other)
                 # upcast TimeSpan to preserve precision
                 other = other.astype(np.int64)
                 call_super = True
@@ -6832,6 +6833,8 @@ class TimeSpanBase:
     # -------------------------------------------------------------
     def __add__(self, value):
         other_inv_mask = None
+        if not isinstance(value, TimeSpanScalar):
+            value = _scalar_to_array(value)
 
         # TimeSpan add
         if not isinstance(value, np.ndarray):
@@ -6858,12 +6861,19 @@ class TimeSpanBase:
 
     # -------------------------------------------------------------
     def __sub__(self, value):
-        if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
+        other_inv_mask = None
+        if not isinstance(value, TimeSpanScalar):
+            value = _scalar_to_array(value)
+        if isinstance(value, (DateTimeNano, Date)):
             return value.__rsub__(self)
-        return self._fix_binary_ops(value, "__sub__")
+        elif isinstance(value, DateSpan):
+            other_inv_mask = isnan(value)
+            value = value._fa * NANOS_PER_DAY
+        return self._fix_binary_ops(value, "__sub__", other_inv_mask=other_inv_mask)
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
+        other_inv_mask = None
         if not isinstance(value, np.ndarray):
             value = FastArray(value).astype(np.float64)
 
@@ -6881,7 +6891,7 @@ class TimeSpanBase:
                 value = value.view(FastArray)
                 value = value.astype(np.float64, copy=False)
 
-        return self._fix_binary_ops(value, "__rsub__")
+        return self._fix_binary_ops(value, "__rsub__", other_inv_mask=other_inv_mask)
 
     # -------------------------------------------------------------
     def __mul__(self, value):
@@ -6941,8 +6951,8 @@ class TimeSpanBase:
             else:
                 # possible nan fill
                 if len(other_inv_mask) == 1:
-                    if isnan(other_inv_mask)[0]:
-                        result = TimeSpan(full(len(self), np.nan, dtype=np.float64))
+                    if other_inv_mask[0]:
+                        result[:] = np.nan
                 else:
                     result[other_inv_mask] = np.nan
             result = TimeSpan(result)
-- 
2.43.0


From aa41d463c9769574fd70e4c5343a61af853bf21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:02 +0000
Subject: [PATCH 088/140] fix: pass filter to the reductions of TimeSpan

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 9b75ffe..0687b6f 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7122,7 +7122,7 @@ class TimeSpanBase:
         ]:
             func_string = []
             func_string.append("def " + name + "(self, **kwargs):")
-            func_string.append("    r = self._fa." + name + "()")
+            func_string.append("    r = self._fa." + name + "(**kwargs)")
             func_string.append("    r = FastArray(r, dtype=np.float64)")
             func_string.append("    return TimeSpan(r)")
             func_string.append("setattr(cls, '" + name + "', " + name + ")")
-- 
2.43.0


From 22cb3b4afeccaffb865e830b777448273d58d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:28 +0000
Subject: [PATCH 089/140] fix: merge_asof nearest picks the wrong row when an
 integer distance wraps

---
 riptable/rt_merge.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index fad6606..9c0f08b 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4224,9 +4224,15 @@ class _AsOfMerge:
             #     f_forward &= isnotnan(forward_distance)
             f_forward_closer = full(len(right_fancyindex_backward), False, dtype=bool)
 
+            def distance(upper: FastArray, lower: FastArray) -> FastArray:
+                """Distance between two columns, where ``lower <= upper`` for the matched rows (so it can't underflow)."""
+                result = upper - lower
+                # The difference of two signed integers may not fit their type but always fits the unsigned type of that size.
+                if type(result) is FastArray and result.dtype.kind == "i":
+                    result = result.view(f"u{result.dtype.itemsize}")
+                return result
+
             # Determine the distance between the left_on and right_on columns in both the forward and backwards directions.
-            # TODO: What should we do when the 'on' columns are integers and operations below underflow/overflow?
-            #       This is especially problematic if the 'on' columns are unsigned integer dtypes.
             # NOTE: Indexing into an ndarray/FastArray with None returns the original data but reshaped; so handle that case specially here.
             left_on_backward = (
                 left_on_col if left_fancyindex_backward is None else left_on_col[left_fancyindex_backward]
@@ -4236,7 +4242,7 @@ class _AsOfMerge:
                 right_on_col if right_fancyindex_backward is None else right_on_col[right_fancyindex_backward]
             )
             f_forward_closer |= isnan(right_on_backward)
-            backward_distance = abs(left_on_backward - right_on_backward)
+            backward_distance = distance(left_on_backward, right_on_backward)
             del left_on_backward
             del right_on_backward
             f_forward_closer |= isnan(backward_distance)
@@ -4245,7 +4251,7 @@ class _AsOfMerge:
             right_on_forward = (
                 right_on_col if right_fancyindex_forward is None else right_on_col[right_fancyindex_forward]
             )
-            forward_distance = abs(left_on_forward - right_on_forward)
+            forward_distance = distance(right_on_forward, left_on_forward)
 
             f_forward_closer |= forward_distance < backward_distance
             del backward_distance
-- 
2.43.0


From f3eb62dad0b152a4cb1d711c5a1f36689ac2e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:28 +0000
Subject: [PATCH 090/140] fix: merge_asof and merge_asof2 keep the type of
 Unicode columns with copy=False

---
 riptable/rt_merge.py      | 3 ++-
 riptable/rt_merge_asof.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 9c0f08b..27f724b 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4300,7 +4300,8 @@ class _AsOfMerge:
 
         def readonly_array_wrapper(arr: FastArray) -> FastArray:
             """Create a read-only view of an array."""
-            new_arr = FastArray(arr)
+            # .view() of a Categorical drops its categories, so use a shallow copy instead.
+            new_arr = arr.copy(deep=False) if isinstance(arr, Categorical) else arr.view()
             new_arr.flags.writeable = False
             return new_arr
 
diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 1b19f6c..edba491 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -17,6 +17,7 @@ import numba as nb
 from .config import get_global_settings
 from .numba.indexing import scalar_or_lookup
 from .numba.invalid_values import get_invalid, get_max_valid, get_min_valid, is_valid
+from .rt_categorical import Categorical
 from .rt_fastarray import FastArray
 from .rt_grouping import Grouping
 from .rt_datetime import Date, DateTimeNano, DateTimeNanoScalar, TimeSpanScalar
@@ -1660,7 +1661,8 @@ def merge_asof2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = FastArray(arr)
+        # .view() of a Categorical drops its categories, so use a shallow copy instead.
+        new_arr = arr.copy(deep=False) if isinstance(arr, Categorical) else arr.view()
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From 052d92ecdbd99aa2b9b85a6f1e662616f3687882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:28 +0000
Subject: [PATCH 091/140] fix: merge_asof2 with by columns and an empty Dataset

---
 riptable/rt_merge_asof.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index edba491..3759e95 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1002,6 +1002,12 @@ def _create_merge_asof_grouped_fancy_indices(
           as the number of groups (or keys?) in the ``left`` dataset. That allows a per-group tolerance to be specified
           if needed.
     """
+    # If either side is empty there are no keys to group or match, so no row on the left has a match.
+    if len(left_on) == 0 or len(right_on) == 0:
+        right_fancyindex = empty(left_on.shape, dtype=_fancyindex_dtype_from_shape(right_on.shape))
+        right_fancyindex[:] = right_fancyindex.inv
+        return JoinIndices(None, right_fancyindex)
+
     # Get the unique values from the Groupings.
     # TODO: If any of the keys in the tuples below are Categorical, need to expand them back;
     #       current rt.ismember() won't handle it correctly, at least if they are one of
-- 
2.43.0


From 4402c4374d51ba0c27ada754e3c7a40a28f4b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:28 +0000
Subject: [PATCH 092/140] fix: merge_asof2 accepts the TimeSpanScalar tolerance
 it documents

---
 riptable/rt_merge_asof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 3759e95..a614c27 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1173,8 +1173,10 @@ def _validate_and_normalize_tolerance(
     # If 'tolerance' is a value of a signed type, don't allow negative values;
     # the 'as-of' logic won't work correctly if given a negative value.
     negative_tol_errmsg = "Negative tolerance values not supported for as-of merges."
-    if isinstance(tolerance, float) or (
-        isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating)
+    # N.B. TimeSpanScalar derives from np.float64 but is handled separately below.
+    if not isinstance(tolerance, TimeSpanScalar) and (
+        isinstance(tolerance, float)
+        or (isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating))
     ):
         if tolerance < 0 or isnan(tolerance):
             raise ValueError(negative_tol_errmsg)
-- 
2.43.0


From c76daf45b89a0e4d02f38ecf74016e9c9b7f3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:15 +0000
Subject: [PATCH 093/140] fix: transitions and differs of a non-contiguous
 array returned uninitialised memory

---
 riptable/rt_fastarray.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 5a78d92..49dd82c 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4150,15 +4150,18 @@ class FastArray(np.ndarray):
         if periods == 0:
             raise ValueError("periods of 0 is invalid for transitions")
 
+        # the result is only written to for contiguous input
+        source = self if self.flags.c_contiguous else self.copy()
+
         if periods > 0:
             TypeRegister.MathLedger._BASICMATH_TWO_INPUTS(
-                (self[periods:], self[:-periods], result[periods:]), math_op, 0
+                (source[periods:], source[:-periods], result[periods:]), math_op, 0
             )
             # fill upfront with invalids
             result[:periods] = False
         else:
             TypeRegister.MathLedger._BASICMATH_TWO_INPUTS(
-                (self[:periods], self[-periods:], result[:periods]), math_op, 0
+                (source[:periods], source[-periods:], result[:periods]), math_op, 0
             )
             # fill back with invalids (periods is negative)
             result[periods:] = False
-- 
2.43.0


From 4003fd51a9e4412ebf0b6e5388c3cde03e0fb850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:15 +0000
Subject: [PATCH 094/140] fix: fill_forward/fill_backward did not treat the
 missing value of Date and DateTimeNano as missing

---
 riptable/rt_fastarraynumba.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarraynumba.py b/riptable/rt_fastarraynumba.py
index 7a1b9be..c345b3f 100644
--- a/riptable/rt_fastarraynumba.py
+++ b/riptable/rt_fastarraynumba.py
@@ -12,7 +12,7 @@ import numba as nb
 import numpy as np
 
 from .config import get_global_settings
-from .rt_enum import INVALID_DICT
+from .rt_enum import INVALID_DICT, TypeRegister
 from .rt_fastarray import FastArray
 from .rt_numpy import empty_like
 
@@ -134,6 +134,10 @@ def _check_fill_values(arr, fill_val, inplace: bool, limit: int):
     inv = INVALID_DICT[dtype.num]
     inv = np.array([inv], dtype=dtype)[0]
 
+    if isinstance(arr, (TypeRegister.DateBase, TypeRegister.DateTimeBase)) and dtype.num <= 10:
+        # zero is also missing for dates and times
+        arr._np[arr.isnan()] = inv
+
     if fill_val is None:
         # optionally could raise error
         fill_val = inv
-- 
2.43.0


From 1d45c535f611cde44eed2444b2cb8759422095a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:15 +0000
Subject: [PATCH 095/140] fix: cummin/cummax with skipna=False recovered after
 a missing integer

---
 riptable/rt_fastarraynumba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarraynumba.py b/riptable/rt_fastarraynumba.py
index c345b3f..eab2bbc 100644
--- a/riptable/rt_fastarraynumba.py
+++ b/riptable/rt_fastarraynumba.py
@@ -350,7 +350,7 @@ def nb_cummin_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_min = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val < running_min:
+            if running_min != inv and (val == inv or val < running_min):
                 running_min = val
             ret[i] = running_min
 
@@ -398,7 +398,7 @@ def nb_cummax_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_max = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val > running_max:
+            if running_max != inv and (val == inv or val > running_max):
                 running_max = val
             ret[i] = running_max
 
-- 
2.43.0


From 53915e9bf2742b2f140d33d7ed35d23f27288c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:15 +0000
Subject: [PATCH 096/140] fix: where of an int8 array and a float scalar lost
 the missing values

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 16bcab6..7df872c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3117,6 +3117,9 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
         return LedgerFunction(np.where, condition, x, y)
 
     common_dtype = get_common_dtype(x, y)
+    if common_dtype == np.float16:
+        # int8 with a python float: half precision is not supported and would lose invalids
+        common_dtype = np.dtype(np.float32)
 
     if not isinstance(condition, np.ndarray):
         if condition is False or condition is True:
-- 
2.43.0


From 0b5d6d5eccd15cf825800ad10b0b784485e056cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:15 +0000
Subject: [PATCH 097/140] fix: where with a one character bytes scalar used its
 character code

---
 riptable/rt_numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 7df872c..c370c1f 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3171,7 +3171,8 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
 
             # check if can make like a scalar
             try:
-                if len(arr) == 1:
+                # a one character string scalar is not an array of one item
+                if len(arr) == 1 and not isinstance(arr, (bytes, str)):
                     # print("array len1 detected")
                     if common_dtype.char in NumpyCharTypes.AllFloat:
                         arr = float(arr[0])
-- 
2.43.0


From 7a1ba1932ddff0224c8f6923b4b08d630c953e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:07 +0000
Subject: [PATCH 098/140] fix: cut, qcut and quantile of a one element view
 with a step failed

---
 riptable/rt_bin.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 637e0d2..f5bc5cc 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -10,7 +10,7 @@ import riptide_cpp as rc
 
 from .rt_categorical import Categorical
 from .rt_enum import CLIPPED_LONG_NAME, NumpyCharTypes, TypeRegister
-from .rt_numpy import lexsort, unique, where
+from .rt_numpy import _contiguous, isnan, lexsort, unique, where
 
 
 # ------------------------------------------------------------------------------------
@@ -53,8 +53,7 @@ def quantile(x, q, interpolation_method: str = "fraction"):
         x = TypeRegister.FastArray(x)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _contiguous(x)
 
     # indirect sort and pass this back...
     # print("lexsort", x, x.shape)
@@ -225,8 +224,7 @@ def qcut(x, q, labels=True, retbins=False, precision=3, duplicates="raise", filt
         x = where(filter, x, np.nan)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _contiguous(x)
 
     dtype = x.dtype
 
@@ -627,8 +625,7 @@ def cut(
         x = where(filter, x, np.nan)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _contiguous(x)
 
     if not np.iterable(bins):
         if np.isscalar(bins) and bins < 1:
-- 
2.43.0


From 8b967f11dc1567ec1f3687be2148ee5ce4033326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:07 +0000
Subject: [PATCH 099/140] fix: rt_bin.quantile with interpolation_method lower
 or higher raised

---
 riptable/rt_bin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index f5bc5cc..0e2415b 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -114,9 +114,9 @@ def quantile(x, q, interpolation_method: str = "fraction"):
             if interpolation_method == "fraction":
                 score = _interpolate(_val(int(idx)), _val(int(idx) + 1), idx % 1)
             elif interpolation_method == "lower":
-                score = _val(np.floor(idx))
+                score = _val(int(np.floor(idx)))
             elif interpolation_method == "higher":
-                score = _val(np.ceil(idx))
+                score = _val(int(np.ceil(idx)))
             else:
                 raise ValueError("interpolation_method can only be 'fraction', 'lower' or 'higher'")
 
-- 
2.43.0


From 6eeedcf5378a6917d78aa12cbc56ea1b8b92f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:07 +0000
Subject: [PATCH 100/140] fix: cut of integers truncated fractional and
 negative edges and binned missing values with right=False

---
 riptable/rt_bin.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 0e2415b..cd49bae 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -364,10 +364,15 @@ def _bins_to_cuts_new(
         ids = rc.BinsToCutsSorted(x, bins, lsort, counts, mode)
         # print("bins sorted",ids, x, bins)
     else:
-        # check for int compaing to inf, if so force upcast
-        if bins[0] == -np.inf or bins[-1] == np.inf:
-            x = x.astype(np.float64)
+        # the edges are compared as the type of an integer array: upcast if that would change them
+        if x.dtype.kind in "iu":
+            info = np.iinfo(x.dtype)
+            if ((bins != np.floor(bins)) | (bins < info.min) | (bins > info.max)).any():
+                x = x.view(TypeRegister.FastArray).astype(np.float64)
         ids = rc.BinsToCutsBSearch(x, bins, mode)
+        if not right:
+            # missing values lie in no bin, neither beyond the last one
+            ids[isnan(x)] = 0
         # print("bins bsearch",ids, x, bins)
 
     # if include_lowest:
-- 
2.43.0


From 7f574b96c9472f1726dbe60fc1621c29af92dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:16 +0000
Subject: [PATCH 101/140] fix: Dataset.nanmin/nanmax with a text or Categorical
 column raised

---
 riptable/rt_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 5dc44f3..55054bf 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6671,11 +6671,13 @@ class Dataset(Struct):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmedian, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmin(self, axis=0, as_dataset=True, fill_value=min):
+    # a plain `min` would be the method of this class here
+    def nanmin(self, axis=0, as_dataset=True, fill_value=lambda col, **kwargs: min(col, **kwargs)):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmin, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmax(self, axis=0, as_dataset=True, fill_value=max):
+    # a plain `max` would be the method of this class here
+    def nanmax(self, axis=0, as_dataset=True, fill_value=lambda col, **kwargs: max(col, **kwargs)):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmax, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-- 
2.43.0


From e5e6f7a00cff878bd233355c1bd604941d3a588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:16 +0000
Subject: [PATCH 102/140] fix: mean, var and std with a filter counted missing
 integers as numbers

---
 riptable/rt_fastarray.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 49dd82c..e973b7d 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -208,11 +208,18 @@ def _fsumhelper(x, filter):
     return (ret, length)
 
 
+def _selects_missing(x, filter):
+    # floats carry their nans through the arithmetic, integer sentinels must be looked for
+    return x.dtype.kind in "iu" and bool((x.isnan() & filter).any())
+
+
 def _fsum(x, filter):
     return _fsumhelper(x, filter)[0]
 
 
 def _fmean(x, filter):
+    if _selects_missing(x, filter):
+        return np.nan
     (tot, n) = _fsumhelper(x, filter)
     return tot / n
 
@@ -242,8 +249,14 @@ def _fvar(x, filter):
         raise ValueError("Tried to take the variance of an empty array.")
 
 
+def _fvar_missing(x, filter):
+    if _selects_missing(x, filter):
+        return np.nan
+    return _fvar(x, filter)
+
+
 def _fstd(x, filter):
-    return math.sqrt(_fvar(x, filter))
+    return math.sqrt(_fvar_missing(x, filter))
 
 
 # --------------------------------------------------------------
@@ -3552,7 +3565,7 @@ class FastArray(np.ndarray):
         kwargs = self._fa_keyword_wrapper(filter=filter, dtype=dtype, axis=axis, keepdims=keepdims, ddof=ddof, **kwargs)
 
         if filter is not None:
-            return self._fa_filter_wrapper(_fvar, filter=filter, dtype=dtype)
+            return self._fa_filter_wrapper(_fvar_missing, filter=filter, dtype=dtype)
 
         return self._reduce_check(REDUCE_FUNCTIONS.REDUCE_VAR, np.var, **kwargs)
 
-- 
2.43.0


From e41743b45c79541067bd349a453ed7c0a3b2e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:16 +0000
Subject: [PATCH 103/140] fix: sum, min and max of a non contiguous array
 ignored missing integers

---
 riptable/rt_fastarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e973b7d..f6e940e 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4783,6 +4783,9 @@ class FastArray(np.ndarray):
         args: List[Any] = []
         for input in inputs:
             if isinstance(input, np.ndarray):
+                if method == "reduce" and input.ndim == 1:
+                    # the engine only reduces a contiguous array, and numpy does not know the integer sentinels
+                    input = _contiguous(input)
                 is_not_supported = self._is_not_supported(input)
                 if is_not_supported:
                     # TODO enable this warning in a future minor release
-- 
2.43.0


From c71d68531a716791d19a0b65c365190348ef5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:16 +0000
Subject: [PATCH 104/140] fix: quantile and describe of integers with missing
 values dropped the wrong values

---
 riptable/rt_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index d3ff575..72c5aa5 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -840,8 +840,8 @@ def quantile(arr: Optional[np.ndarray], q: List[float] = None):
         else:
             # pick a subset removing the invalid
             notvalid = count - cvalid
-            if arr_sort.dtype.char in NumpyCharTypes.Integer:
-                valid = arr_sort[notvalid:-1]
+            if arr_sort.dtype.kind == "i":
+                valid = arr_sort[notvalid:]
             else:
                 valid = arr_sort[0:cvalid]
 
@@ -903,7 +903,7 @@ def describe_helper(arr: Optional[np.ndarray], q: Optional[List[float]] = None)
         else:
             # pick a subset removing the invalid
             notvalid = count - cvalid
-            if arr_sort.dtype.char in NumpyCharTypes.Integer:
+            if arr_sort.dtype.kind == "i":
                 valid = arr_sort[notvalid:]
             else:
                 valid = arr_sort[0:cvalid]
-- 
2.43.0


From 273a8634646392fbb5cdc1cf5d34a18cbf10e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:16 +0000
Subject: [PATCH 105/140] fix: where with one row lost a missing integer when
 the types differ

---
 riptable/rt_numpy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index c370c1f..8a6a09c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3129,8 +3129,15 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
         condition = TypeRegister.FastArray(condition)
 
     if len(condition) == 1:
+
+        def _keep_missing(arr):
+            # numpy does not know the missing integers, convert them first
+            if type(arr) in (np.ndarray, TypeRegister.FastArray) and arr.dtype.kind in "iu" and common_dtype.kind in "iuf":
+                arr = arr.view(TypeRegister.FastArray).astype(common_dtype)
+            return arr
+
         # punt to normal numpy since an array of 1
-        return delegate_to_numpy(condition, x, y)
+        return delegate_to_numpy(condition, _keep_missing(x), _keep_missing(y))
 
     if len(condition) == 0:
         return TypeRegister.FastArray([], dtype=common_dtype)
-- 
2.43.0


From 8674002c128001076be53e17feadcb162c4b0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 106/140] fix: .str accepts arrays that are not contiguous

---
 riptable/rt_str.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index fa46d3d..63dbfb6 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -23,7 +23,7 @@ from numba.core.dispatcher import Dispatcher
 from .config import get_global_settings
 from .rt_enum import TypeRegister
 from .rt_fastarray import FastArray
-from .rt_numpy import empty, ones, unique, where, zeros
+from .rt_numpy import _contiguous, empty, ones, unique, where, zeros
 from .Utils.common import cached_property
 from .numba.indexing import scalar_or_lookup
 
@@ -134,6 +134,9 @@ class FAString(FastArray):
             else:
                 arr = np.asanyarray(arr)
 
+        # the characters are viewed as one run of integers
+        arr = _contiguous(arr)
+
         intype = arr.dtype.char
         if intype == "O":
             # try to convert to string (might have come from pandas)
-- 
2.43.0


From d536929a5f4193c796be1db701fc8bfcbf6d252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 107/140] fix: startswith and endswith raise for several search
 texts instead of returning the error

---
 riptable/rt_str.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 63dbfb6..c7cc63a 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -853,7 +853,7 @@ class FAString(FastArray):
 
             str2 = self.possibly_convert_tostr(str2)
             if len(str2) != 1:
-                return TypeError(f"A single string must be passed for str2 not {str2!r}")
+                raise TypeError(f"A single string must be passed for str2 not {str2!r}")
             str2 = FAString(str2)
 
         return self._apply_func(self.nb_startswith, self.nb_startswith_par, str2, dtype=bool)
@@ -901,7 +901,7 @@ class FAString(FastArray):
 
             str2 = self.possibly_convert_tostr(str2)
             if len(str2) != 1:
-                return TypeError(f"A single string must be passed for str2 not {str2!r}")
+                raise TypeError(f"A single string must be passed for str2 not {str2!r}")
             str2 = FAString(str2)
 
         return self._apply_func(self.nb_endswith, self.nb_endswith_par, str2, dtype=bool)
-- 
2.43.0


From 26b4b50eb63a810e3efe83215d1ab3d28a0f12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 108/140] fix: regex_match and regex_replace of an empty column

---
 riptable/rt_str.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index c7cc63a..b33e8bb 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -957,7 +957,7 @@ class FAString(FastArray):
         if self._intype == "S":
             regex = _maybe_encode(regex)
         regex = re.compile(regex)
-        vmatch = np.vectorize(lambda x: bool(regex.search(x)))
+        vmatch = np.vectorize(lambda x: bool(regex.search(x)), otypes=[bool])
         bools = vmatch(self.backtostring)
 
         return bools
@@ -1026,7 +1026,7 @@ class FAString(FastArray):
         if self._intype == "S":
             regex, repl = map(_maybe_encode, (regex, repl))
         regex = re.compile(regex)
-        vmatch = np.vectorize(lambda x: regex.sub(repl, x))
+        vmatch = np.vectorize(lambda x: regex.sub(repl, x), otypes=[self._intype])
         return vmatch(self.backtostring)
 
     @_handle_apply_unique
-- 
2.43.0


From a84bc211f48ce0dc72ee46006be527e2ca97f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 109/140] fix: extract of a pattern without a group on a
 unicode column

---
 riptable/rt_str.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index b33e8bb..acab6df 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1125,7 +1125,9 @@ class FAString(FastArray):
         ngroups = compiled.groups
         if ngroups == 0:
             # convenience where we treat the entire pattern as a capture group
-            return self.extract(f"({regex.decode()})", **kwargs)
+            if isinstance(regex, bytes):
+                regex = regex.decode()
+            return self.extract(f"({regex})", **kwargs)
 
         # expand defaults to False if we have one capture group and do not specify names
         if expand is None:
-- 
2.43.0


From 4581717fe2470b13fb84949eab3239b728ab0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 110/140] fix: extract gives the fill text for a group that
 took no part in the match

---
 riptable/rt_str.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index acab6df..72e97ba 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1153,7 +1153,9 @@ class FAString(FastArray):
             if result is not None:
                 result = result.groups()
                 for s, arr in zip(result, out_arrs):
-                    arr[i] = s
+                    # a group the match did not use has no text
+                    if s is not None:
+                        arr[i] = s
 
         if expand:
             out = TypeRegister.Dataset(dict(zip(names, out_arrs)))
-- 
2.43.0


From 960e35817a3ef84589f4535e1378fe6ee374507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 111/140] fix: substr_char_stop(inclusive=True) includes the
 whole stop text

---
 riptable/rt_str.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 72e97ba..a020e4c 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1260,7 +1260,7 @@ class FAString(FastArray):
         int_stop = self.index(stop)
         int_stop[int_stop == -1] = self._itemsize  # return full string if stop not found
         if inclusive:
-            int_stop += 1
+            int_stop += len(stop)
         return self.substr(int_stop)
 
     def _nb_char(src, position, itemsize, strlen, out):
-- 
2.43.0


From 7b4745235d56756ca80af5fb9a3647849e7ddef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:52 +0000
Subject: [PATCH 112/140] fix: substr[i:] on a Categorical cuts each category
 at its own end

---
 riptable/rt_str.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index a020e4c..4ec4a9d 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -12,6 +12,7 @@ if TYPE_CHECKING:
 
 import inspect
 import re
+import sys
 import warnings
 from functools import wraps
 
@@ -1438,7 +1439,7 @@ class _SubStrAccessor:
             if y.step is not None:
                 raise NotImplementedError("slicing with step in substr is not supported")
             if y.stop is None:
-                stop = self.fastring.strlen
+                stop = sys.maxsize  # to the end of each string
             else:
                 stop = y.stop
             return self.fastring._substr(y.start, stop)
-- 
2.43.0


From c00bb5e338360c515d5a87b23e68c7e7468d1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:36 +0000
Subject: [PATCH 113/140] fix: stacking two-dimensional columns of different
 types keeps missing values missing

---
 riptable/rt_hstack.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index ec90bdd..bc332e8 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -360,7 +360,7 @@ def _hstack_struct(struct_list, destroy: bool = False):
             if dims == 1:
                 stack_func = hstack
             elif dims == 2:
-                stack_func = np.vstack
+                stack_func = _vstack_arrays
             else:
                 raise ValueError(f"Can only stack arrays of one or two dimensions. Got {dims} dimensions.")
         else:
@@ -534,7 +534,7 @@ def _hstack_dataset(ds_list: Union[list, tuple], destroy: bool = False):
             stackfunc = hstack
         else:
             # NOTE: if riptable takes over vstack, remove the dtype fixup that happens in _possibly_add_concat_gap
-            stackfunc = np.vstack
+            stackfunc = _vstack_arrays
 
         # add to final dataset dict
         newcols[name] = stackfunc(column_list)
@@ -559,6 +559,16 @@ def _hstack_dataset(ds_list: Union[list, tuple], destroy: bool = False):
 
 
 # --------------------------------------------------------------------------
+def _vstack_arrays(arrays):
+    """Stack two dimensional arrays. Where their types differ, missing values stay missing."""
+    dtypes = {arr.dtype for arr in arrays}
+    if len(dtypes) > 1:
+        common = np.result_type(*dtypes)
+        if common.num <= 13:
+            arrays = [arr.view(TypeRegister.FastArray).astype(common) for arr in arrays]
+    return np.vstack(arrays)
+
+
 def _possibly_add_concat_gap(coldim: int, inv_count, col, column_list, types):
     """
     Called by _hstack_dataset
-- 
2.43.0


From 5140c180427212536ece0777f7ce00b8c431cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:36 +0000
Subject: [PATCH 114/140] fix: Struct.hstack stacks two-dimensional arrays row
 under row

---
 riptable/rt_hstack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index bc332e8..1aa7d22 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -374,6 +374,8 @@ def _hstack_struct(struct_list, destroy: bool = False):
 
     # hstack lists of the same type - rt.hstack will route these to the correct routine
     for typename, typedict in alldicts.items():
+        if typename == "Array":
+            continue  # stacked above, by their dimension
         for name, itemlist in typedict.items():
             final_dict[name] = hstack(itemlist)
 
-- 
2.43.0


From 11a233c0bb4028808fa283649d045bfaca2401f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 115/140] fix: Accum2 shows the Filtered column in the order of
 the rows

---
 riptable/rt_accum2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index c0b2183..d2c033e 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -402,7 +402,8 @@ class Accum2(GroupByOps, FastArray):
 
         # add showfilter column first if we have to
         if showfilter:
-            newds[FILTERED_LONG_NAME] = arr[0:offsety]
+            filtered_col = arr[0:offsety]
+            newds[FILTERED_LONG_NAME] = filtered_col[sort_idx] if row_keys.sort_gb_data else filtered_col
 
         # skip showfilter row for loop below (already added or not added above)
         offset = offsety
-- 
2.43.0


From 6eb213b989dc70be976328e16787a6cb13d872f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 116/140] fix: Accum2 margins of base 0 categoricals are not
 shifted

---
 riptable/rt_accum2.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index d2c033e..25cfd1b 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -507,12 +507,9 @@ class Accum2(GroupByOps, FastArray):
             return accum_tuple[0]
 
         else:
+            # always 1 based, even if the categorical is zero based
             ikey = cat.grouping.ikey
 
-            # if zero base, we need 1 base for these calculations
-            if cat.grouping.base_index == 0:
-                ikey = ikey + 1
-
             # Optimization: combine_filter was previously called
             if filter is not None:
                 # N.B. We are going to change ikey, make a copy instead of changing the input. The input
@@ -638,9 +635,9 @@ class Accum2(GroupByOps, FastArray):
             # should we check showfilter?
             badslots = badslots + 1
             if len(badslots) == 1:
-                newfilter = cat._fa != badslots[0]
+                newfilter = cat.grouping.ikey != badslots[0]
             else:
-                newfilter, _ = ismember(cat._fa, badslots)
+                newfilter, _ = ismember(cat.grouping.ikey, badslots)
                 # inplace logical not (this is a negative filter)
                 np.logical_not(newfilter, out=newfilter)
         else:
-- 
2.43.0


From c42f57c85c97137283c130a20d43811c309148d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 117/140] fix: Accum2 margins hold the values of the shown
 cells, in the order of the labels

---
 riptable/rt_accum2.py | 150 ++++++++++++++++++++++++++----------------
 1 file changed, 95 insertions(+), 55 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 25cfd1b..0712cb9 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -517,36 +517,43 @@ class Accum2(GroupByOps, FastArray):
                 # zero out anything not in the filter
                 ikey = where(filter, ikey, 0)
 
-            numkeys = cat.unique_count
+            return cls._accum1_ikey(ikey, cat.unique_count, origarr, funcNum, basebin, func_param)
 
-            funcList = [funcNum]
+    # ---------------------------------------------------------------
+    @classmethod
+    def _accum1_ikey(cls, ikey, numkeys, origarr, funcNum, basebin, func_param=0):
+        """
+        internal call to calculate one summary axis (or, with one key, the total of totals)
+        ikey is 1-based, 0 is for the values that are filtered out
+        """
+        funcList = [funcNum]
 
-            binLowList = [basebin]
-            binHighList = [numkeys + 1]
+        binLowList = [basebin]
+        binHighList = [numkeys + 1]
 
-            if funcNum >= GB_FUNCTIONS.GB_SUM and funcNum < GB_FUNCTIONS.GB_FIRST:
-                accum_tuple = _groupbycalculateall(
-                    [origarr], ikey, numkeys, funcList, binLowList, binHighList, func_param
-                )
+        if funcNum >= GB_FUNCTIONS.GB_SUM and funcNum < GB_FUNCTIONS.GB_FIRST:
+            accum_tuple = _groupbycalculateall(
+                [origarr], ikey, numkeys, funcList, binLowList, binHighList, func_param
+            )
 
-            elif funcNum >= GB_FUNCTIONS.GB_FIRST and funcNum < GB_FUNCTIONS.GB_CUMSUM:
-                # TODO break out as function
-                packing = groupbypack(ikey, None, numkeys + 1)
-                iGroup = packing["iGroup"]
-                iFirstGroup = packing["iFirstGroup"]
-                nCountGroup = packing["nCountGroup"]
-                accum_tuple = _groupbycalculateallpack(
-                    [origarr],
-                    ikey,
-                    iGroup,
-                    iFirstGroup,
-                    nCountGroup,
-                    numkeys,
-                    funcList,
-                    binLowList,
-                    binHighList,
-                    func_param,
-                )
+        elif funcNum >= GB_FUNCTIONS.GB_FIRST and funcNum < GB_FUNCTIONS.GB_CUMSUM:
+            # TODO break out as function
+            packing = groupbypack(ikey, None, numkeys + 1)
+            iGroup = packing["iGroup"]
+            iFirstGroup = packing["iFirstGroup"]
+            nCountGroup = packing["nCountGroup"]
+            accum_tuple = _groupbycalculateallpack(
+                [origarr],
+                ikey,
+                iGroup,
+                iFirstGroup,
+                nCountGroup,
+                numkeys,
+                funcList,
+                binLowList,
+                binHighList,
+                func_param,
+            )
 
         # whether or not they want to see the filter
         if basebin != 0:
@@ -654,6 +661,42 @@ class Accum2(GroupByOps, FastArray):
         # return a new filter
         return newfilter
 
+    # ---------------------------------------------------------------
+    @classmethod
+    def _filter_shown(cls, cat, filter):
+        """
+        internal routine
+        combines the filter with the rows of cat that are in a bin that is shown
+
+        if all the rows are in such a bin, the filter is returned
+        """
+        if cat.base_index == 0:
+            return filter
+        shown = cat._fa > 0
+        if shown.all():
+            return filter
+        return shown if filter is None else shown & filter
+
+    # ---------------------------------------------------------------
+    @classmethod
+    def _sort_totals(cls, cat_cols, cat_rows, totalsX, totalsY, showfilter):
+        """
+        internal routine
+        puts the totals in the order in which the rows and columns are displayed
+        """
+        if cat_rows.gb_keychain.sort_gb_data:
+            sort_idx = cat_rows.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totalsY = totalsY[sort_idx]
+
+        if cat_cols.gb_keychain.sort_gb_data:
+            sort_idx = cat_cols.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totalsX = totalsX[sort_idx]
+        return totalsX, totalsY
+
     # ---------------------------------------------------------------
     @classmethod
     def _calc_multipass(
@@ -701,20 +744,22 @@ class Accum2(GroupByOps, FastArray):
         newfilterX = cls._calc_badslots(cat_cols, badcols, filter, False)
         newfilterY = cls._calc_badslots(cat_rows, badrows, filter, False)
 
-        newfilter = None
-        # first check for any row and col filters
-        if badrows is not None or badcols is not None:
-            # the common filter is already merged into the row or col filter
-            if badrows is not None and badcols is not None:
-                # both col and row filter are in use so combine the filters
-                newfilter = newfilterX & newfilterY
-            else:
-                if badrows is not None:
-                    newfilter = newfilterY
-                else:
-                    newfilter = newfilterX
+        if not showfilter:
+            # values whose row or column is not shown are not part of any total
+            newfilterX = cls._filter_shown(cat_cols, newfilterX)
+            newfilterY = cls._filter_shown(cat_rows, newfilterY)
+
+        # the common filter is already merged into the row and col filter
+        if newfilterX is newfilterY:
+            newfilter = newfilterX
+        elif newfilterX is None or newfilterY is None:
+            newfilter = newfilterY if newfilterX is None else newfilterX
         else:
-            newfilter = filter
+            newfilter = newfilterX & newfilterY
+
+        if showfilter and badrows is None and badcols is None:
+            # values that are filtered out are shown in the Filtered row and column, and are part of the total
+            newfilter = None
 
         # if there is not filter, the value will be None
         if Accum2.DebugMode:
@@ -737,9 +782,9 @@ class Accum2(GroupByOps, FastArray):
             totalsY = cls._accum1_pass(cat_rows, origarr, funcNum, showfilter=showfilter, filter=newfilter, **kwargs)
 
         # calculate total of totals
-        if func is not None:
-            # we can have common filters, row filters, and col filters
-
+        # we can have common filters, row filters, and col filters
+        if callable(funcNum):
+            # from apply_reduce
             try:
                 if newfilter is not None:
                     totalOfTotals = func(origarr[newfilter])
@@ -754,9 +799,14 @@ class Accum2(GroupByOps, FastArray):
                 else:
                     totalOfTotals = func(origarr, func_param)
         else:
-            # todo, get invalid
-            totalOfTotals = 0
+            # same calculation as for the cells, with all the values in one bin
+            if newfilter is not None:
+                ikey = where(newfilter, 1, 0).astype(np.int8)
+            else:
+                ikey = ones(len(origarr), dtype=np.int8)
+            totalOfTotals = cls._accum1_ikey(ikey, 1, origarr, funcNum, 1, kwargs.get("func_param", 0))[0]
 
+        totalsX, totalsY = cls._sort_totals(cat_cols, cat_rows, totalsX, totalsY, showfilter)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
     # ---------------------------------------------------------------
@@ -898,17 +948,7 @@ class Accum2(GroupByOps, FastArray):
             # calc totals with both rows and cols removed
             totalOfTotals = func(im)
 
-        if cat_rows.gb_keychain.sort_gb_data:
-            sort_idx = cat_rows.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsY = totalsY[sort_idx]
-
-        if cat_cols.gb_keychain.sort_gb_data:
-            sort_idx = cat_cols.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsX = totalsX[sort_idx]
+        totalsX, totalsY = cls._sort_totals(cat_cols, cat_rows, totalsX, totalsY, showfilter)
         # push calculations to dataset (newds)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
-- 
2.43.0


From 8ea34cd90be0b8b8b0ac065cfd56dcb3f4a7e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 118/140] fix: Accum2.apply_reduce honours the filter and
 showfilter of the constructor

---
 riptable/rt_accum2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 0712cb9..5412400 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -1184,9 +1184,16 @@ class Accum2(GroupByOps, FastArray):
 
         args, kwargs, origdict, tups = self._pop_gb_data("apply_reduce", userfunc, *args, **kwargs, dataset=dataset)
         # temp pop showfilter
-        realshowfilter = kwargs.get("showfilter", False)
+        realshowfilter = kwargs.get("showfilter", self._showfilter)
         kwargs["showfilter"] = True
 
+        # the cells know about the filter from Accum2 init, the totals do not
+        if self._myfilter is not None:
+            if kwargs.get("filter", None) is not None:
+                kwargs["filter"] = self._myfilter & kwargs["filter"]
+            else:
+                kwargs["filter"] = self._myfilter
+
         accum_dict = self.grouping.apply_helper(
             True, origdict, userfunc, *args, tups=tups, label_keys=None, func_param=func_param, dtype=dtype, **kwargs
         )
-- 
2.43.0


From 9371f631435f7e0ab4730bbc5d77156197dbbf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 119/140] fix: Accum2.count is not spoiled by the filter of an
 earlier operation

---
 riptable/rt_accum2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 5412400..6804233 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -1231,6 +1231,9 @@ class Accum2(GroupByOps, FastArray):
             # re-calc with filter
             ikey = where(filter, self.ikey, 0)
             ncountgroup = rc.BinCount(ikey, self.grouping.unique_count + 1)
+        elif self.grouping._packedwithfilter:
+            # an earlier calculation left behind the counts of its own filter
+            ncountgroup = rc.BinCount(self.ikey, self.grouping.unique_count + 1)
 
         result = self._stack_dataset(ncountgroup, ncountgroup[1:], GB_FUNC_COUNT, **kwargs)
         if self._totals:
-- 
2.43.0


From 45c9809ff06acaf083ce7d1e92564b518cca1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:45 +0000
Subject: [PATCH 120/140] fix: Accum2 sum, min and max margins are computed
 from the values, not from cells that may be missing

---
 riptable/rt_accum2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 6804233..f255ed5 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -1333,12 +1333,12 @@ class Accum2(GroupByOps, FastArray):
 # for sum we only need to make one pass (calc_onepass)
 # for mean we need to make multiple passes
 apply_dict_total = {
-    GB_FUNCTIONS.GB_SUM: ("Total", np.sum, Accum2._calc_onepass),
+    GB_FUNCTIONS.GB_SUM: ("Total", np.sum, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANSUM: ("Nansum", np.nansum, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_onepass),
+    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_MEAN: ("Mean", np.mean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANMEAN: ("Nanmean", np.nanmean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_VAR: ("Var", np.var, Accum2._calc_multipass),
-- 
2.43.0


From 5764b029e32e89eea01bc64f3f588821ca0aeb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 121/140] fix: from_pandas reads datetime and timedelta columns
 of any unit

---
 riptable/Utils/pandas_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index 4774ba7..b7f5299 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -146,9 +146,11 @@ def pandas_series_to_riptable(series: Union["pd.Series", "pd.Categorical"], tz:
             _tz = str(dtype.tz)
         except AttributeError:
             _tz = tz
-        return TypeRegister.DateTimeNano(np.asarray(series, dtype="i8"), from_tz="UTC", to_tz=_tz)
+        # N.B. convert the unit first, it is not always nanoseconds
+        arr = np.asarray(series, dtype="M8[ns]").view("i8")
+        return TypeRegister.DateTimeNano(arr, from_tz="UTC", to_tz=_tz)
     elif dtype_kind == "m":
-        arr = TypeRegister.FastArray(series, dtype="i8")
+        arr = TypeRegister.FastArray(np.asarray(series, dtype="m8[ns]").view("i8"))
         arr = TypeRegister.TimeSpan(arr)
         arr[arr == pd.NaT.value] = arr.inv
         return arr
-- 
2.43.0


From 9a6b71340cbec4b61ccfd40be2789d46e1375de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 122/140] fix: from_pandas turns null text into the empty
 string

---
 riptable/Utils/pandas_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index b7f5299..246ec71 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -158,12 +158,18 @@ def pandas_series_to_riptable(series: Union["pd.Series", "pd.Categorical"], tz:
         if len(series) > 0:
             notnull = np.where(series.notnull())[0]
             all_null = len(notnull) == 0
-            first_element = np.nan if all_null else series.iloc[notnull[0]]
+            if all_null:
+                first_element = "" if isinstance(dtype, getattr(pd, "StringDtype", ())) else np.nan
+            else:
+                first_element = series.iloc[notnull[0]]
             if isinstance(first_element, (int, float, np.number)):
                 # An object array with number (int or float) in it probably means there is
                 # NaN in it so convert to float64.
                 new_col = np.asarray(series, dtype="f8")
             else:
+                if len(notnull) != len(series):
+                    # the invalid string is the empty string
+                    series = series.astype(object).where(series.notnull(), "")
                 try:
                     new_col = np.asarray(series, dtype="S")
                 except UnicodeEncodeError:
-- 
2.43.0


From 7cfbbe5b2ceb1e8cd17a4e4d22b873d3f8ae8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 123/140] fix: to_pandas shows missing DateTimeNano and Date
 values as missing

---
 riptable/Utils/pandas_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index 246ec71..7f6cf69 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -215,7 +215,8 @@ def fastarray_to_pandas_series(
         categories = _to_unicode_if_string(arr.category_array) if unicode else arr.category_array
         out = pd.Series(pd.Categorical.from_codes(codes, categories=categories))
     elif isinstance(arr, TypeRegister.DateTimeNano):
-        utc_datetime = pd.DatetimeIndex(arr._np, tz="UTC")
+        # N.B. zero is an invalid DateTimeNano, but not an invalid Timestamp
+        utc_datetime = pd.DatetimeIndex(np.where(arr.isnan()._np, pd.NaT.value, arr._np), tz="UTC")
         tz_datetime = utc_datetime.tz_convert(arr._timezone._to_tz)
         out = pd.Series(tz_datetime)
     elif isinstance(arr, TypeRegister.TimeSpan):
@@ -224,7 +225,11 @@ def fastarray_to_pandas_series(
     elif use_nullable and np.issubdtype(dtype, np.integer):
         # N.B. Has to use the same dtype for `isin` otherwise riptable will convert the dtype
         #      and the invalid value.
-        is_invalid = arr.isin(TypeRegister.FastArray([INVALID_DICT[dtype.num]], dtype=dtype))
+        if isinstance(arr, TypeRegister.Date):
+            # zero is an invalid Date, too
+            is_invalid = arr.isnan()
+        else:
+            is_invalid = arr.isin(TypeRegister.FastArray([INVALID_DICT[dtype.num]], dtype=dtype))
         # N.B. Have to make a copy of the array to numpy array otherwise pandas seg
         #      fault in DataFrame.
         # NOTE: not all versions of pandas have pd.arrays
-- 
2.43.0


From 05839c8dffcc8683679fee311272707bb52fb207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 124/140] fix: Dataset(df) converts nullable and timedelta
 columns

---
 riptable/rt_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 55054bf..b475f20 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -632,7 +632,9 @@ class Dataset(Struct):
                 pass
             # series column (added with underlying array)
             elif hasattr(col, "values"):
-                col = col.values
+                # nullable columns and timedeltas are not plain arrays, they will be converted in _possibly_convert
+                if isinstance(col.values, np.ndarray) and col.values.dtype.kind != "m":
+                    col = col.values
             else:
                 raise TypeError(f"Cannot initialize column of type {type(col)}")
             # col = self._possibly_convert(k, col, unicode=unicode)
-- 
2.43.0


From b2c39e1f8e5e8f0bb282bcf50dde33345de4376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 125/140] fix: from_arrow fills nulls of a widened integer
 column with the widened invalid

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index f6e940e..c73dac1 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5831,6 +5831,8 @@ class FastArray(np.ndarray):
                     # Widen the dtype of the output array.
                     output_dtype = min_scalar_type(arr_rt_inv, promote_invalid=True)
                     arr_pa_dtype_widened = pa.from_numpy_dtype(output_dtype)
+                    # nulls are filled with the invalid value of the widened dtype
+                    arr_rt_inv = INVALID_DICT[np.dtype(output_dtype).num]
 
             # Create the output array, performing a widening conversion + filling in nulls with the riptable invalid if necessary.
             # TODO: This could be faster -- if there's a way to get a numpy boolean array from a pyarrow array's null-mask,
-- 
2.43.0


From bb98e2fc13bae2daab93fd7aa41011000abc49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 126/140] fix: from_arrow respects the window of a sliced
 fixed-size binary array

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index c73dac1..022756d 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5928,6 +5928,8 @@ class FastArray(np.ndarray):
                 arr.buffers()[1],
                 dtype="S" + str(arr.type.byte_width),
             )
+            # The array may be a slice of the buffer.
+            buf = buf[arr.offset : arr.offset + len(arr)]
 
             if writable and arr.null_count == 0:  # already made a copy if null_count != 0
                 result = FastArray(np.copy(buf))
-- 
2.43.0


From 6529a46f9d46640d28ae89d6a801b7bc024deff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 127/140] fix: Arrow timestamps with a time zone are UTC
 instants

---
 riptable/rt_datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 0687b6f..5689030 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6443,8 +6443,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             raise ValueError("The input array is timezone-naive, which is not supported by riptable.")
 
         # Convert the pyarrow array's timezone (id from tz database) to a riptable TZ string,
-        # then set that on the output array.
-        from_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
+        # then set that on the output array. The timestamps themselves are always UTC.
+        to_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
 
         # Create a view of the underlying data as int64 epoch-nanoseconds.
         arr_int64 = arr.view(pa.int64())
@@ -6453,7 +6453,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         # depending on which options the caller has specified.
         if arr.null_count == 0:
             arr_int64_np = arr_int64.to_numpy(zero_copy_only=not writable, writable=writable)
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
         elif zero_copy_only:
             raise RuntimeError("Unable to perform zero-copy conversion from an input array containing nulls.")
         else:
@@ -6476,7 +6476,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             # TODO: If writable=True here, it seems like we'll do a 2nd copy of the data? Is there any way to avoid it?
             arr_int64_np = arr_int64_filled.to_numpy(zero_copy_only=not writable, writable=writable)
 
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
 
     def to_arrow(
         self,
@@ -6504,7 +6504,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         import pyarrow as pa
 
         # Get the tz db / ICU timezone name.
-        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._from_tz)
+        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._to_tz)
 
         # Create the corresponding pyarrow type.
         arr_type = pa.timestamp("ns", tz=tz_name)
-- 
2.43.0


From aaccab145f6dd0db24c52bbc8f48d11a59f5bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 128/140] fix: from_arrow accepts chunked arrays without chunks

---
 riptable/rt_categorical.py | 2 ++
 riptable/rt_datetime.py    | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index e55ff8c..510db59 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5618,6 +5618,8 @@ class Categorical(GroupByOps, FastArray):
             # and recursively processing it.
             if arr.num_chunks == 1:
                 return Categorical._from_arrow(arr.chunk(0), zero_copy_only=zero_copy_only, writable=writable)
+            elif arr.num_chunks == 0:
+                return Categorical._from_arrow(arr.combine_chunks(), zero_copy_only=zero_copy_only, writable=writable)
             else:
                 # TODO: Benchmark this vs. using ChunkedArray.combine_chunks() then converting.
                 # TODO: Look at `zero_copy_only` and `writable` -- the converted arrays could be destroyed while hstacking
diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5689030..30f55e2 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2671,6 +2671,8 @@ class Date(DateBase, TimeStampBase):
             # and recursively processing it.
             if arr.num_chunks == 1:
                 return Date._from_arrow(arr.chunk(0), zero_copy_only=zero_copy_only, writable=writable)
+            elif arr.num_chunks == 0:
+                return Date._from_arrow(arr.combine_chunks(), zero_copy_only=zero_copy_only, writable=writable)
             else:
                 # TODO: Benchmark this vs. using ChunkedArray.combine_chunks() then converting.
                 # TODO: Look at `zero_copy_only` and `writable` -- the converted arrays could be destroyed while hstacking
@@ -6418,6 +6420,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             # and recursively processing it.
             if arr.num_chunks == 1:
                 return DateTimeNano._from_arrow(arr.chunk(0), zero_copy_only=zero_copy_only, writable=writable)
+            elif arr.num_chunks == 0:
+                return DateTimeNano._from_arrow(arr.combine_chunks(), zero_copy_only=zero_copy_only, writable=writable)
             else:
                 # TODO: Benchmark this vs. using ChunkedArray.combine_chunks() then converting.
                 # TODO: Look at `zero_copy_only` and `writable` -- the converted arrays could be destroyed while hstacking
@@ -7445,6 +7449,8 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
             # and recursively processing it.
             if arr.num_chunks == 1:
                 return TimeSpan._from_arrow(arr.chunk(0), zero_copy_only=zero_copy_only, writable=writable)
+            elif arr.num_chunks == 0:
+                return TimeSpan._from_arrow(arr.combine_chunks(), zero_copy_only=zero_copy_only, writable=writable)
             else:
                 # TODO: Benchmark this vs. using ChunkedArray.combine_chunks() then converting.
                 # TODO: Look at `zero_copy_only` and `writable` -- the converted arrays could be destroyed while hstacking
-- 
2.43.0


From 59eaeb6fe9cb70c859e177ce9348d732aeaeff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 129/140] fix: TimeSpan.from_arrow keeps durations beyond 2^53
 nanoseconds

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 30f55e2..7240a63 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -7464,7 +7464,7 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
 
         arr_int64_view = arr.view(pa.int64())
         # Convert from int64 ns representation to float64 representation, which in this case requires creating a new array.
-        f64_copy_pa = arr_int64_view.cast(pa.float64())
+        f64_copy_pa = arr_int64_view.cast(pa.float64(), safe=False)
 
         if f64_copy_pa.null_count != 0:
             f64_inv = pa.scalar(INVALID_DICT[np.dtype(np.float64).num], type=pa.float64())
-- 
2.43.0


From 944a1005830a4b401e6e97a3db0a5a3a6f40b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 130/140] fix: copy.copy and copy.deepcopy of a Categorical
 keep its categories

---
 riptable/rt_categorical.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 510db59..06c3a65 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3314,6 +3314,13 @@ class Categorical(GroupByOps, FastArray):
         self._copy_extra(result)
         return result
 
+    # ------------------------------------------------------------------------------
+    def __copy__(self):
+        return self.copy()
+
+    def __deepcopy__(self, memo):
+        return self.copy()
+
     # ------------------------------------------------------------------------------
     @classmethod
     def newclassfrominstance(cls, instance, origin):
-- 
2.43.0


From 3231234c0eb81f56cf04a25df35601b42621a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 131/140] fix: an unnamed multi-key Categorical can be pickled

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 022756d..edbc400 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -869,6 +869,8 @@ class FastArray(np.ndarray):
                 name = self._name
             except:
                 name = "unknown"
+            if name is None:
+                name = "unknown"
 
             tups = self._build_sds_meta_data(name)
             return (cls._load_from_sds_meta_data, (name, self.view(FastArray), tups[1], tups[0]))
-- 
2.43.0


From e14e103e4294dac931a7fb018b38bfc8d6ac2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:37 +0000
Subject: [PATCH 132/140] fix: pickling an array of one element ignores its
 stride

---
 riptable/rt_fastarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index edbc400..ae6e991 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -878,7 +878,9 @@ class FastArray(np.ndarray):
         # set to true to turn compression on
         if cls.CompressPickle and len(self) > 0:
             # create a single compressed array of uint8
-            carr = rc.CompressDecompressArrays([self], 0)[0]
+            # N.B. an array with one element may have any stride, which the compression does not support
+            arr = self.copy() if self.size == 1 else self
+            carr = rc.CompressDecompressArrays([arr], 0)[0]
             return (FA_FROM_UINT8, (carr.view(np.ndarray),))
         else:
             return (
-- 
2.43.0


From 0af01f3451213f5a97d995a60e49e9e4828eddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:37 +0000
Subject: [PATCH 133/140] fix: to_arrow of a base-0 Categorical uses its
 0-based codes

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 06c3a65..0303b5c 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5846,7 +5846,8 @@ class Categorical(GroupByOps, FastArray):
 
             # For self.base_index == 0, we can use iKey directly;
             # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
-            indices = self.grouping.ikey
+            # N.B. the iKey of the grouping is 1-based, even when self.base_index == 0.
+            indices = self._fa
             if self.base_index != 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
-- 
2.43.0


From 229eaa5c3720b03f00c5cf397fdd62fe5cdefe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 134/140] fix: codes of a base-0 Categorical leave room for the
 shift by one

---
 riptable/rt_grouping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index b2a2832..6849eae 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -625,6 +625,10 @@ class Grouping:
         if filter is not None:
             ikey = combine_filter(ikey, filter)
 
+        # base-0 indices are shifted by one to make room for the invalid bin, the largest one must not overflow
+        if base_index == 0 and arr_len > np.iinfo(ikey.dtype).max:
+            ikey = self.possibly_recast(ikey, arr_len)
+
         # always return in the base_index requested
         return ikey, ordered
 
-- 
2.43.0


From 45555412b2f30c01bed46ffba80afc7af5d94c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:54 +0000
Subject: [PATCH 135/140] fix: refuse a new category whose code does not fit
 the code type of a Categorical

---
 riptable/rt_categorical.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 0303b5c..d845c11 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3921,6 +3921,7 @@ class Categorical(GroupByOps, FastArray):
         New category will always be added to the end of the category array.
         """
         if self._locked is False:
+            self._check_category_room(value)
             self._categories_wrap._array_edit(value, how="add")
             self._ordered = False
             self._sorted = False
@@ -3929,6 +3930,17 @@ class Categorical(GroupByOps, FastArray):
             raise ValueError(f"Cannot add category to locked Categorical. Call unlock() first.")
         self.groupby_reset()
 
+    # -------------------------------------------------------
+    def _check_category_room(self, value):
+        """
+        The index array is edited inplace and keeps its dtype: refuse a new category whose index it cannot hold.
+        """
+        if self.issinglekey and len(self._categories_wrap) >= np.iinfo(self.dtype).max:
+            if len(self._categories_wrap.get_category_match_index(value)) == 0:
+                raise ValueError(
+                    f"Cannot add category {value!r}: the index array of type {self.dtype} cannot hold more than {np.iinfo(self.dtype).max} categories."
+                )
+
     # -------------------------------------------------------
     def category_remove(self, value):
         """
@@ -4434,6 +4446,7 @@ class Categorical(GroupByOps, FastArray):
 
             else:
                 # add the category, clean up the index array afterwards
+                self._check_category_room(value)
                 fix_index = self._categories_wrap._possibly_add_categories(value)
                 if fix_index is not None:
                     # must be inplace to change self; filtered items have no category to move
-- 
2.43.0


From 14e81bdff620f15e1d764f0dd67e7e4deedef846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:28 +0000
Subject: [PATCH 136/140] fix: Dataset.melt keeps the class and type of id
 columns

---
 riptable/rt_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index b475f20..7a8be7c 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6853,7 +6853,8 @@ class Dataset(Struct):
                 # note: multikey categorical expands to a tuple of arrays
                 # previously raised an error on expand array
                 id_data = id_data.expand_array
-            mdata[col] = np.tile(id_data._np, K)
+            # fancy index to keep the class and the string type of the column
+            mdata[col] = id_data[np.tile(np.arange(N), K)]
 
         mdata[var_name] = FastArray(list(tempdict.keys())).repeat(N)
         mdata[value_name] = hstack(list(tempdict.values()))
-- 
2.43.0


From 3aeae33ffe4959f2f24260d5639475cd433801d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:28 +0000
Subject: [PATCH 137/140] fix: Dataset.trim returns an empty Dataset when every
 column is removed

---
 riptable/rt_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 7a8be7c..68c5c1a 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7944,7 +7944,9 @@ class Dataset(Struct):
 
         # remove cols that are not in list
         # remove rows that are all False
-        if applyrowmask is not None:
+        if len(col_filter) == 0:
+            newds = type(self)({})
+        elif applyrowmask is not None:
             newds = self[applyrowmask, col_filter]
         else:
             newds = self[col_filter]
-- 
2.43.0


From 0851349ea956fa62dcd1dda7f670c69a1013ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:28 +0000
Subject: [PATCH 138/140] fix: Dataset.pivot without labels uses the label
 columns

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 68c5c1a..20906f2 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8052,7 +8052,7 @@ class Dataset(Struct):
         """
         if labels is None:
             # see if existing labels exist
-            labels = self.labels_get_names()
+            labels = self.label_get_names()
         elif np.isscalar(labels):
             labels = [labels]
 
-- 
2.43.0


From a32185fc69a0c82488d8c79d7b6f4f7108a9cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:28 +0000
Subject: [PATCH 139/140] fix: Dataset.pivot does not count rows left out by
 the filter as duplicates

---
 riptable/rt_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 20906f2..9ee5435 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8098,8 +8098,8 @@ class Dataset(Struct):
         # +1 to include the filter (0 bin) since used combine2groups
         row_len = len(ds_crd) + 1
 
-        # check for duplicates
-        ncountgroup = g.ncountgroup
+        # check for duplicates (any number of rows may have been left out by the filter, bin 0)
+        ncountgroup = g.ncountgroup[1:]
         pos = ncountgroup.argmax()
         if ncountgroup[pos] > 1:
             # find out where a duplicate is
-- 
2.43.0


From 5dfe03853324d4be1a194174ff2402478a9abf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:28 +0000
Subject: [PATCH 140/140] fix: Dataset.pivot names columns by Categorical
 labels with several column keys

---
 riptable/rt_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 9ee5435..ec71e5a 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8111,7 +8111,10 @@ class Dataset(Struct):
         # sub function to slice up original arrays
         def make_dataset(coldict, val, newds):
             # colnames must be unicode
-            colnames = [colstr.astype("U") for colstr in coldict.values()]
+            colnames = [
+                (colstr.as_string_array if isinstance(colstr, TypeRegister.Categorical) else colstr).astype("U")
+                for colstr in coldict.values()
+            ]
             innerloop = len(colnames)
             outerloop = len(colnames[0])
 
-- 
2.43.0

