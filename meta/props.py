"""Source of properties.jsonl and MANIFEST.json (bin/gen-meta writes both)."""
TRUST = " Trusts: the compiled riptide_cpp engine and NumPy behave deterministically; projections in drivers/ are faithful. Bounded: small tables, value pools and options enumerated/sampled per DESIGN.md."


def P(id, title, statement, over, qtext, why, files, mech, note, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
             anchors={"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech], "observe_at": kw.pop("observe", []), "hook_needed": None},
             note=note + TRUST)
    d.update(kw)
    return d


PROPERTIES = [
    P("C01", "A Dataset/Struct is an ordered map of equally long, uniquely named columns",
      "After any sequence of column operations (set, add, delete, rename, map, reorder, swap, prefix/suffix, string-replace, filter, remove, pop, copy, label, lock) the names are unique, in the documented order and paired with the values last assigned to them; a Dataset's columns all have its row count. An operation that is refused leaves names, order, values and labels exactly as they were. A locked container refuses every change of its columns.",
      ["histories"], "all histories of column operations over all name/value/label combinations, on Dataset and Struct",
      "unit tests run a few fixed operation sequences; the guarantee is over every interleaving of ~25 operations with clashing names, reserved names, labels, locks and refused operations",
      ["riptable/rt_struct.py", "riptable/rt_dataset.py", "riptable/rt_itemcontainer.py"],
      [("ItemContainer ordered dict with per-item attributes", "riptable/rt_itemcontainer.py"), ("Struct.col_* / __setattr__ / __setitem__ / __delitem__", "riptable/rt_struct.py"), ("Dataset length check on assignment", "riptable/rt_dataset.py")],
      "Exhaustive TLC exploration of the container state machine to depth 2 (3 in thorough); every explored behaviour is replayed into the real classes, plus random long histories, each step judged by TLC.",
      observe=["keys(), values(), items(), iteration, indexing, attribute access, labels, shape, after every operation"]),
    P("C02", "Selecting or assigning cells touches exactly the named rows and columns",
      "ds[rows, cols] gives exactly the cells named, in the order named: rows by integer, slice, boolean mask, index list/array (out-of-range entries of an index array give missing) or label, columns by name, list, position, slice or mask. Assigning to such a selection changes exactly those cells to the given values (the last one wins where a cell is named twice, missing stays missing whatever the dtypes or memory layout) and no other cell of any table; a refused assignment changes nothing. Slices, column selections, shallow copies and bound columns share memory with their source, so edits are seen through both; masks, index lists, filter and deep copies do not. head, tail, sample, filter in place and putmask follow the same rules.",
      ["inputs", "histories"], "all tables over every column kind, all row/column selector forms and value forms, all histories of selections, assignments, copies and bindings over several tables sharing columns, strided and reversed memory layouts",
      "tests assign to a few fixed selections; the frame condition over every selector/value/dtype form and the aliasing between tables after a history of selections are not sampled",
      ["riptable/rt_dataset.py", "riptable/rt_struct.py", "riptable/rt_fastarray.py", "riptable/rt_numpy.py"],
      [("Dataset.__getitem__/__setitem__/_copy/filter/head/tail/sample", "riptable/rt_dataset.py"), ("Struct._extract_indexing", "riptable/rt_struct.py"), ("FastArray.__getitem__/__setitem__/astype", "riptable/rt_fastarray.py"), ("putmask, bool_to_fancy, mbget", "riptable/rt_numpy.py")],
      "Cells.tla is a state machine of tables whose columns are views into shared blocks; TLC checks frame, last-wins, aliasing and refusal laws over all histories of 2 (3) steps; about 4.2k (16.5k thorough) histories on the real library are judged step by step with every table's full contents.",
      observe=["all cells of all tables after each step", "refusals", "memory sharing through later edits"]),
    P("C03", "Column operations give every row what its own cells imply, missing included",
      "For columns of every type (all integer and float sizes, strings, Date, DateTimeNano, TimeSpan, DateSpan) the row-by-row operations give, in every row, what the definition says about that row's cells: isnan/isnotnan/isfinite/isinf/isnanorzero recognise the missing value of each type (also with fancy=True, as positions); fillna, replacena, fill_forward/fill_backward (with fill value, limit, in place, on a Dataset) replace exactly the missing cells by the right neighbour; shift, diff, transitions and differs look exactly `periods` rows back or ahead; between, clip, where, putmask, abs, sign, cumsum, cummin/cummax, arithmetic and comparisons, astype between numeric types (missing stays missing), map by dict, mask_or/and/xor/andnot (also in place), bool_to_fancy, filter, repeat, tile, hstack/concatenate, element-wise maximum/minimum, searchsorted, issorted, interp, sample and fill_invalid do what they say, whether called as method or function, on contiguous, stepped or reversed memory, and never change their inputs unless in place.",
      ["inputs"], "all column contents over every type with missing values and infinities, lengths 0 to beyond 255, all parameters and call forms, three memory layouts",
      "tests call each operation on a few arrays; a sentinel of one dtype not recognised, a limit off by one, an uninitialised cell for a stepped view or a scalar of another type appear only for particular combinations",
      ["riptable/rt_fastarray.py", "riptable/rt_fastarraynumba.py", "riptable/rt_numpy.py", "riptable/rt_dataset.py"],
      [("FastArray.isnan/fillna/shift/diff/transitions/differs/between/clip/where/map/filter/sample/astype", "riptable/rt_fastarray.py"), ("fill_forward/fill_backward, cummin/cummax", "riptable/rt_fastarraynumba.py"), ("where, mask_*, bool_to_fancy, putmask, hstack, repeat, interp, searchsorted, nan_to_zero", "riptable/rt_numpy.py"), ("Dataset.fillna/sample", "riptable/rt_dataset.py")],
      "Column.tla defines every operation cell by cell; ColumnMC.tla walks a column with a filler that must produce the declarative fill and checks the algebra (fill idempotent and total, shifts compose, masks obey De Morgan, where/putmask, clip/between agree) over all columns of 4 (5) cells; about 9k (48k thorough) calls on the real library judged by TLC.",
      observe=["result cells, dtype and class", "inputs unchanged", "in-place result", "refusals"]),
    P("C04", "Sorting is stable, keeps rows together and a sort view shows the present data",
      "sort_inplace and sort_copy put the rows of a Dataset in the order of the named columns, each ascending or descending as asked, the first column most significant; every column is permuted alike, rows with equal keys keep their order in both directions, and missing values go to the fixed end their type prescribes; sort_copy leaves the source as it was. sort_view changes no data: what is shown is the rows in the order of the present contents of the view's columns after any later edit, column replacement (also by another type), rename, column or row selection, copy, save and load, until it is turned off or a view column is removed or replaced. lexsort gives the stable order for any mix of columns and directions; argsort gives a permutation in order; sort the values in order; issorted and searchsorted agree with that order.",
      ["inputs", "histories"], "all tables over every column kind with missing values and ties, one to four keys, all direction combinations, all histories of sorts, views, edits, selections, copies and saves, empty tables and more than 255 rows",
      "tests sort a few tables once; wrong pairing of directions, stale cached orders and lost views appear only after particular sequences of operations or particular dtypes",
      ["riptable/rt_dataset.py", "riptable/rt_sort_cache.py", "riptable/rt_numpy.py", "riptable/rt_struct.py", "riptable/rt_fastarray.py"],
      [("Dataset.sort_* / _sort_values / _copy_attributes", "riptable/rt_dataset.py"), ("SortCache", "riptable/rt_sort_cache.py"), ("lexsort / argsort / issorted / searchsorted", "riptable/rt_numpy.py"), ("col_rename", "riptable/rt_struct.py")],
      "Sort.tla defines the stable order and the table+view state machine; TLC checks stability, permutation, idempotence, view-does-not-touch-data and copy laws over all histories of 2 (4) steps on small tables; about 4.2k (14.7k thorough) histories and array calls on the real library are judged by TLC against that machine, including what str(ds) shows after each step.",
      observe=["column names and values after each step", "row numbers displayed", "source tables before/after", "permutations, sorted values, answers"]),
    P("C05", "Stacking tables keeps every cell in its row and leaves gaps missing",
      "Dataset.concat_rows, Dataset.hstack, rt.hstack, rt.stack_rows and rt.hstack_any of several Datasets give one Dataset with every column name in order of first appearance and the rows of the tables one after the other: every cell keeps its value and its missing mark, whatever mix of integer and float sizes (or byte and unicode strings) the tables have in that column, and where a table lacks a column the rows it contributes are missing there (False for booleans, '' for strings, filtered for a Categorical). Categoricals (single- or multi-key, byte or unicode, any order of categories, mapped, base 0) are merged to one with distinct categories in which every row keeps its label; Date, DateTimeNano, TimeSpan and DateSpan columns keep their type; two-dimensional columns are stacked row under row. Stacking in steps gives the same as stacking at once. Mixing a date/time or Categorical column with a plain one, or different ones, under one name is refused. stack_rows of a dict also gives a Categorical telling which table each row came from. destroy=True gives the same result. concat_columns puts the columns of equally long tables side by side, keeps the first or the last of a repeated name or refuses it, warns or raises on repeats as on_mismatch says (on_duplicate='raise' always refuses), and with do_copy=True shares no memory with its inputs. Struct.hstack stacks the members of the same name (arrays, Datasets) of those structures that have them. The inputs are never modified.",
      ["inputs", "histories"], "1-4 tables of 0-5 (and 130) rows with overlapping column sets over 20 column families, all call forms, step-wise stacking, layouts",
      "tests stack a few fixed tables; mixed widths with missing values, consecutive gaps, differing category orders, 2-D columns and empty tables in the mix are not sampled",
      ["riptable/rt_hstack.py", "riptable/rt_dataset.py"],
      [("hstack_any, _hstack_dataset, _hstack_struct, _hstack_categorical, _possibly_add_concat_gap", "riptable/rt_hstack.py"), ("Dataset.concat_rows, Dataset.concat_columns", "riptable/rt_dataset.py"), ("hstack_groupings, merge_cats", "riptable/rt_grouping.py")],
      "Tables as sequences of named columns in TLA+ with a machine in which a log table grows by stacking small tables; TLC checks on it that the table kept incrementally is the stack of the whole history however the steps are grouped, that every table is found again in its block of rows with gaps exactly where it lacks a column, that no column is lost and that the owner of every row is right. About 2k (10.7k thorough) recorded calls are judged.",
      observe=["columns in order, every cell, owner of each row, warnings, shared memory, refusals, inputs afterwards"]),
    P("C06", "A Categorical holds exactly the labels it was made from",
      "Constructing a Categorical from values, values and given categories, codes and categories, a mapping or IntEnum, several key arrays, a pandas Categorical, or a filter gives, for every input: the right category list (sorted unless ordered=False, then in order of first appearance; the given list and order when given; with a filter only the labels of rows that pass it), and codes that decode to each row's original label, rows outside the filter being filtered. Row reads, expand_array, expand_dict, as_string_array and as_singlekey, the grouping's categories and unique_count all agree with that. Codes outside the categories are refused. Inputs are not modified.",
      ["inputs"], "all constructors, base index 0 and 1, filter, lex, ordered, dtype of labels (bytes, unicode, int, float, Date, DateTimeNano) and of codes, one and two keys, more than 127/255 categories",
      "tests sample a few small constructions; agreement of all read-outs over base index, filters, code width limits and kinds of label is not sampled",
      ["riptable/rt_categorical.py", "riptable/rt_grouping.py"],
      [("Categorical.__new__, expand_array, expand_dict, as_string_array, as_singlekey, category_make_unique", "riptable/rt_categorical.py"), ("Grouping.__init__", "riptable/rt_grouping.py")],
      "Cat.tla defines the category list and labels of every construction; TLC checks code/label round trip on all small histories and judges about 3.4k (20k thorough) recorded constructions with all their read-outs.",
      observe=["category list", "codes", "labels by row, expanded, as strings", "grouping categories", "refusals"]),
    P("C07", "Edits of a Categorical change only the labels they name",
      "Over any history of edits - category_add/remove/replace, assignment of labels, codes or another Categorical by any index form, mapping_add/remove/replace/new, set_valid, shrink (also in place), shift_cat, copy_invalid, align, hstack, copy and fancy/slice copies, lock/unlock, auto_add_on/off - every row keeps its label unless the edit names it; removed labels become filtered; replaced labels change everywhere; new categories are appended (or inserted sorted by assignment with auto add) without disturbing codes; unknown labels are refused unless auto-add is on; a locked Categorical refuses edits; a refused edit changes nothing; and no edit reaches a copy or any other Categorical. After every step rows, expanded arrays, strings, categories and the grouping agree.",
      ["histories", "inputs"], "all edit histories on two Categoricals (copies of one another, aligned, stacked), base index 0/1, string, unicode and numeric labels, mappings, and category counts crossing the int8 limit",
      "tests apply one edit to one small Categorical; interactions between edits, shared groupings, and leaks into copies are not sampled",
      ["riptable/rt_categorical.py", "riptable/rt_grouping.py"],
      [("category_add/_remove/_replace, mapping_*, __setitem__, shrink, set_valid, align, hstack, copy", "riptable/rt_categorical.py"), ("Grouping.shrink, regroup, newgroupfrominstance, merge_cats", "riptable/rt_grouping.py")],
      "Cat.tla is a state machine of two Categoricals; TLC explores all small edit histories for well-formedness, round trip and frame laws; about 700 (4k thorough, longer) random histories run on the real code and TLC judges every step's full observation of both objects.",
      observe=["both Categoricals after every step", "refusals"]),
    P("C08", "A Categorical answers queries as its labels would",
      "Comparing a Categorical with a label (==, !=, and <, <=, >, >= in the order of its categories), with another Categorical, isin, ismember, c['label'], isfiltered, from_bin, from_category, nunique, one_hot_encode, map (by dict or array, with invalid), count and the single-key view give for every row what the row's label implies, whatever the category order, base index, unused or filtered categories, and kind of label; asking for an unknown code or label is refused where the method says so, and is simply unequal otherwise. A query never modifies the Categorical.",
      ["inputs"], "all Categoricals of C06 (one and two keys, mappings) times all queries with labels inside and outside the categories, filtered rows, equal and different category lists on the other side",
      "tests sample each query on one or two Categoricals; base-0, unsorted, filtered, unknown-label and mixed-category combinations are not sampled",
      ["riptable/rt_categorical.py", "riptable/rt_grouping.py", "riptable/rt_numpy.py"],
      [("_categorical_compare_check, isin, map, from_bin, from_category, nunique, one_hot_encode", "riptable/rt_categorical.py"), ("Categories.get_category_index", "riptable/rt_categorical.py"), ("ismember", "riptable/rt_numpy.py")],
      "Cat.tla gives each query's answer as a function of labels; TLC checks the answers are consistent with one another on all small Categoricals and judges about 13k (80k thorough) recorded queries.",
      observe=["answer per row", "refusals", "unchanged Categorical"]),
    P("C09", "Grouping rows by key partitions them exactly as the keys say",
      "Two participating rows are in the same group exactly when all their key values are equal (missing key values count as one ordinary value each); rows excluded by a filter are in no group. The list of groups is complete, without repeats and in the promised order (sorted, first appearance, or the declared categories), and the per-group row lists, counts, first/last row and previous/next-row links agree with that partition. Building a grouping never modifies the keys or the filter.",
      ["inputs", "configurations"], "all key columns (every dtype, one or several), filters, construction forms (Categorical variants, groupby sorted/unsorted, codes with categories, slices, regrouping, concatenation)",
      "tests sample a handful of key arrays per constructor; equality of eight derived index structures with the key partition for every dtype/filter/form combination is not sampled",
      ["riptable/rt_grouping.py", "riptable/rt_groupbyops.py", "riptable/rt_groupby.py", "riptable/rt_groupbykeys.py", "riptable/rt_categorical.py"],
      [("Grouping construction, regroup, packing", "riptable/rt_grouping.py"), ("groups / iter_groups / first_bool / last_bool", "riptable/rt_groupbyops.py"), ("groupbyhash/groupbylex wrappers", "riptable/rt_numpy.py")],
      "TLC checks that an incrementally grown grouping equals the declarative partition; every key pattern x filter up to 3 rows (4 thorough) and random wider ones, in 18 construction forms, are executed and judged by TLC.",
      observe=["Grouping.ikey/igroup/ifirstgroup/ncountgroup/ifirstkey/ilastkey/iprevkey/inextkey/uniquedict", "groups, iter_groups, as_filter, first_fancy, last_fancy, first_bool, last_bool"]),
    P("C10", "Group-by reductions return the mathematical result for every group",
      "For every reduction (sum, mean, min, max, var, std, median, quantile, mode, first, last, nth, count, distinct count and their missing-skipping versions) the result has one row per group, carries that group's key, and its value is the reduction of exactly that group's values in row order, under any operation filter, with transform=True spreading it back to the group's rows. Missing values propagate or are skipped as the name says; empty groups give 0 for counts and sums and missing otherwise. Columns are reduced independently and the input is not modified.",
      ["inputs", "configurations"], "all tables, key columns and filters, value dtypes, reductions, call forms (Categorical or groupby; direct, list, dict, Dataset, agg) and options (filter, transform, showfilter)",
      "tests compare a few functions on a few arrays with pandas; the product of reduction x dtype x missing pattern x filter x call form is not sampled",
      ["riptable/rt_groupbyops.py", "riptable/rt_groupby.py", "riptable/rt_grouping.py", "riptable/rt_categorical.py", "riptable/rt_groupbykeys.py"],
      [("GroupByOps reductions and _possibly_transform", "riptable/rt_groupbyops.py"), ("Grouping._calculate_all / _return_dataset", "riptable/rt_grouping.py"), ("agg dispatch", "riptable/rt_groupbyops.py")],
      "Reductions are defined over rationals in TLA+ and checked against streaming accumulators by TLC; about 7k (23k thorough) executions cover every reduction x dtype x form, each result row judged by TLC.",
      observe=["result Dataset/Multiset of each reduction"]),
    P("C11", "Group-by row operations look only at their own group's rows",
      "Running sums/products/minima/maxima, running counts, rolling sums/means/medians, shifts, differences, forward/backward fills and user functions applied per group return one value per input row, in the original row order, computed only from rows of the same group at the documented relative positions. Filters, reset filters, windows, limits and fill values act per group, and rows that are in no group get a missing value. The input is not modified.",
      ["inputs", "configurations"], "all tables, groupings with filters, windows (positive/negative), limits, fill values, filters and reset filters, value dtypes and call forms",
      "tests check single examples per function; leaking across group boundaries or through filtered rows only shows for particular interleavings of groups, missing values and filters",
      ["riptable/rt_groupbyops.py", "riptable/rt_groupbynumba.py", "riptable/rt_groupby.py", "riptable/rt_grouping.py", "riptable/rt_categorical.py"],
      [("cum*/rolling_*/shift/diff/fill_* front ends", "riptable/rt_groupbyops.py"), ("numba fill kernels", "riptable/rt_groupbynumba.py"), ("Grouping._calculate_all packing", "riptable/rt_grouping.py")],
      "Row operations are TLA+ operators over the group's row sequence, checked against running accumulators by TLC; about 9k (29k thorough) executions are judged row by row.",
      observe=["result column of each operation"]),
    P("C12", "Joins pair exactly the rows whose keys match",
      "merge2, merge, merge_lookup (also in place) and merge_indices return, for left/right/inner/outer joins, exactly the pairs of rows whose keys are equal and valid, plus the unmatched rows the join kind asks for, in the documented order; keep=first/last de-duplicates the named side; validate and require_match refuse exactly the inputs that break their promise; each result column holds the values of its source row (missing where there is none); overlapping names get the suffixes, the indicator tells the origin of each row. high_card, copy and the way keys are named do not change the answer, and neither input is modified.",
      ["inputs", "configurations"], "all pairs of tables, 1-3 keys of every dtype (also different dtypes left and right), missing keys, duplicates on both sides, empty sides, and all option combinations",
      "tests check examples of each join kind with mostly valid, same-typed keys; wrong pairings appear only for combinations of missing keys, keep, key dtypes and empty or all-invalid sides",
      ["riptable/rt_merge.py", "riptable/rt_dataset.py"],
      [("_create_merge_fancy_indices / _build_*_fancyindex", "riptable/rt_merge.py"), ("merge2 / merge / merge_lookup column assembly", "riptable/rt_merge.py")],
      "The join is defined row by row in TLA+ (Join.tla) and checked by TLC for the relational laws (left = inner + left-only, outer = left + right-only, mirror symmetry, keep idempotence); about 7k (30k thorough) executed joins, incl. all pairs of 3-row tables, are judged by TLC on row pairs, columns, names, indicator, refusals and non-modification.",
      observe=["row pairing via row-number columns", "every result column", "refusals", "inputs before/after"]),
    P("C13", "As-of joins give every left row its nearest right row in the given direction",
      "merge_asof, Dataset.merge_asof and merge_asof2 keep every left row once, in its place, and pair it with at most one right row: among the right rows with the same `by` keys, the last one whose `on` value is not after (backward), the first one not before (forward), or the closer of the two (nearest; backward on ties); strictly so with allow_exact_matches=False and, for merge_asof2, only within `tolerance`. Unmatched rows get missing right values; matched_on shows the right `on` value. With action_on_unsorted='sort' unsorted inputs give the same pairing in the original row order, with 'raise' exactly the unsorted ones are refused. Column selection, suffixes, name collisions, copy, and the way on/by are named behave as in the other joins, and neither input is modified.",
      ["inputs", "configurations"], "all pairs of tables, `on` of every ordered dtype (integers over their whole range, floats, Date, DateTimeNano, TimeSpan), 0-3 `by` columns of every dtype, ties, gaps, unsorted and empty sides, and all option combinations",
      "tests compare a few small sorted tables with pandas; wrong matches appear only for ties, exact values, tolerance edges, unsorted rows, extreme integers or keys that occur on one side only",
      ["riptable/rt_merge.py", "riptable/rt_merge_asof.py", "riptable/rt_dataset.py"],
      [("_AsOfMerge", "riptable/rt_merge.py"), ("merge_asof2 and the _merge_asof_* kernels", "riptable/rt_merge_asof.py")],
      "The as-of match is defined row by row in TLA+ (Asof.tla). TLC checks a one-pass reader of two time-ordered streams (last quote per key) against it, the forward/backward mirror law, minimality of nearest, that tolerance only removes matches, and independence of rows. About 4.9k (26k thorough) executed as-of joins, incl. all small sorted tables, are judged by TLC on pairing, columns, names, matched_on, refusals and non-modification.",
      observe=["row pairing via row-number columns", "every result column", "matched_on", "refusals", "inputs before/after"]),
    P("C14", "Membership, uniqueness and duplicates follow the equality of rows",
      "ismember, isin, assoc_index and assoc_copy report for each row whether, and at which first position, an equal row exists in the other table, for one or several key columns and also when both sides hold the same values in different numeric or string types. unique returns each distinct value exactly once, sorted (default, lex) or by first appearance, with the first index, inverse and counts that belong to it, honouring filter; a Categorical gives its categories. nunique counts the distinct valid values. duplicated and drop_duplicates (array or Dataset, any subset, keep first/last/False, also in place) mark or keep exactly the rows that the definition names, with all columns following. No input is modified.",
      ["inputs", "configurations"], "all columns of every dtype incl. missing values, date/time types and Categoricals, one to three keys, empty and larger than 255 rows, all option and call-form combinations",
      "tests check a handful of small arrays per function; errors show only for special mixes of dtype, missing values, filter, unused categories, keep mode or empty sides",
      ["riptable/rt_numpy.py", "riptable/rt_fastarray.py", "riptable/rt_dataset.py", "riptable/rt_categorical.py"],
      [("ismember / unique / assoc_copy / groupbylex", "riptable/rt_numpy.py"), ("FastArray.isin / duplicated / nunique", "riptable/rt_fastarray.py"), ("Dataset.duplicated / drop_duplicates", "riptable/rt_dataset.py")],
      "Uniq.tla defines row equality (per column type: does a missing cell equal itself), first match, distinct rows, order, inverse, counts and duplicates; UniqMC.tla builds them incrementally as a hash table and TLC checks the laws (reconstruction, counts add up, duplicates complement kept rows) on all tables of 5 (7) rows; about 8.6k (21k thorough) executed calls over every column kind are judged by TLC.",
      observe=["masks, positions, uniques, index, inverse, counts", "rows and columns kept", "inputs before/after"]),
    P("C15", "SDS files give back exactly what was saved, over any history of saves",
      "Loading an SDS file or folder returns the object last saved under that name: same class, item names and order, values, missing values, dtypes, time zones, Categorical categories and flags, labels, nested containers. Later saves to other names, saving an item into a folder, appending sections or concatenating files change only what they name. include, filter, name=, sections and loading a list of files select exactly the asked-for columns, rows and items; stacking files gives their rows in file order, with missing values where a file lacks a column. Saving does not modify the object.",
      ["histories", "inputs"], "all histories of save / item save / append / concat / load / stack over all containers, column kinds, lengths (also zero), compression settings, one-file and folder layouts, include lists and filters",
      "tests round-trip single objects; interactions of layout, compression, zero-length columns, sort views, partial loads, overwrites and stacking of unlike files are not sampled",
      ["riptable/rt_sds.py", "riptable/rt_struct.py", "riptable/rt_dataset.py", "riptable/rt_categorical.py", "riptable/rt_datetime.py", "riptable/rt_grouping.py"],
      [("save_sds / load_sds / sds_concat, _stack_sds_files, _multistack_*", "riptable/rt_sds.py"), ("_build_sds_meta_data / _load_from_sds_meta_data", "riptable/rt_struct.py"), ("merge_cats / hstack_groupings", "riptable/rt_grouping.py")],
      "The file system is a TLA+ state (name -> parts -> tree); TLC checks round trip, frame and stacking laws over all histories of 5 (6) writes; about 1.3k (6k thorough) random histories on real files are replayed and every load judged by TLC against the modelled state.",
      observe=["loaded tree: class, names, order, dtype, values, categories, attributes"]),
    P("C16", "Calendar and clock fields, zones, parsing and text follow the real calendar",
      "From 1970-01-02 to 2040-12-31 every calendar and clock field of Date, DateTimeNano and TimeSpan (year, month, day, weekday, week and month starts, leap years, yyyymmdd, time of day, fractions, time since midnight or year start, ...) is that of the proleptic Gregorian calendar and of the local clock of the value's time zone, whose offset follows the tz database (UTC/GMT, New York, Dublin, Sydney, Hong Kong, Tokyo, Seoul, Kolkata and aliases), including the exact instants where daylight saving starts and ends. Parsing text, numbers, datetime64 and datetime objects in any supported style and zone and printing (str, strftime, formats) denote the same instant; changing the zone keeps the instant. Date.range, cut_time and resample give the stated grid. Missing in is missing out (flags False), and a scalar answers as the array element does.",
      ["inputs"], "all instants in the range to the nanosecond, all zones, all text styles, array and scalar forms, lengths including zero",
      "tests sample a few dates in New York and GMT; transition instants, half-hour zones, other hemispheres, missing values, scalars and nanosecond truncation are not sampled",
      ["riptable/rt_datetime.py", "riptable/rt_timezone.py"],
      [("Date, DateTimeCommon, DateTimeNano, TimeSpanBase fields", "riptable/rt_datetime.py"), ("TimeZone.fix_dst / to_utc / _is_dst, DST tables", "riptable/rt_timezone.py"), ("parse_epoch, strptime_to_nano, DateTimeNano.__new__, Date.__new__", "riptable/rt_datetime.py")],
      "The Gregorian calendar and the zones' offset rules are TLA+ operators stated by rule (not by table); TLC checks on them that date and serial day agree on every day of the range, that local and UTC time round-trip, that text round-trips and that offsets step only at transitions. About 1.7k (23k thorough) recorded calls, every zone transition included, are judged by TLC.",
      observe=["field values, zone name, text, instants as (day, second, ns)"]),
    P("C17", "Date/time arithmetic and comparison give the right class, value and zone",
      "For every pair of Date, DateSpan, DateTimeNano, TimeSpan and plain numbers (days next to Date/DateSpan, nanoseconds next to DateTimeNano/TimeSpan), as arrays of equal length, arrays of one item or scalars, a + b and a - b either have the class the kinds determine (Date - Date is a DateSpan, point - point otherwise a TimeSpan, Date +- TimeSpan a DateTimeNano, point +- span a point of the same zone, span +- span a span) with the exact value in every item, or are refused (point + point, span - point) leaving operands, in-place ones included, unchanged. An item missing in either operand is missing in the result. Comparisons order points by instant (a Date against a DateTimeNano as the midnight starting it in its zone) and spans by length; a missing item is unequal and in no order; comparing a point with a span is refused. Negation, abs, scaling, ratio and floor division of TimeSpan, diff, shift, selection, hstack and the reductions (sum, mean, min, max, median, nan versions, filter) agree with that arithmetic.",
      ["inputs", "histories"], "all pairs of classes and operand forms, all values between 1970-01-03 and 2040, missing values anywhere, histories of operations over five registers",
      "tests use arrays of equal length without missing values, mostly in one zone; scalars of the other classes, missing right operands, one-item arrays, refused in-place operations, strided views and filters are not sampled",
      ["riptable/rt_datetime.py"],
      [("DateBase._funnel_mathops, _apply_inv_mask, Date.__sub__", "riptable/rt_datetime.py"), ("DateTimeCommon._build_mathops_result, DateTimeNano.__add__/__sub__/diff", "riptable/rt_datetime.py"), ("TimeSpanBase._fix_binary_ops, comparison checks, reductions", "riptable/rt_datetime.py")],
      "Arithmetic on (day, second, ns) triples and a register machine in TLA+; TLC checks on it that adding and subtracting are inverse, that kinds compose, that order is total and compatible with addition and that missing values propagate. About 1.4k (16k thorough) recorded histories (11 operations each) are judged step by step, the model state being the registers.",
      observe=["class, zone and (day, second, ns) of every item; operands unchanged"]),
    P("C18", "Reductions and summaries of columns and tables count exactly the chosen values",
      "For every numeric column (any width, signed or not, float, boolean; any memory layout) sum, mean, min, max, var, std (ddof 1 by default), median and percentile, as method, riptable function or NumPy function, give the exact value over all rows and a missing result if any value is missing; their nan versions give it over the values that are not missing; argmin/argmax (nan or not) give the first position of the extreme; nunique the number of distinct values; any/all work as usual. With filter= (mean, nanmean, nansum, var, nanvar, std, nanstd) exactly the selected rows count, by the same rules. Dataset reductions give, per numeric column (axis 0, as Dataset or Struct, other columns left out or filled as fill_value says), per row (axis 1, other columns left out) or over all cells (axis None), what the column reduction gives. Dataset.quantile and describe report count, valid, missing, mean, std, min, the linear quantiles, max and the mean of the middle 80 % of the values not missing. FastArray.count gives the distinct values, sorted or by first appearance, with their counts. rolling_sum/nansum/mean/nanmean(window) and timewindow_sum/prod(times, window) give for every row the reduction of the rows in its window. Inputs are never modified.",
      ["inputs"], "all numeric types, missing patterns, filters, call forms, axes, windows, fill values, layouts",
      "tests use contiguous arrays mostly without missing integers; unsigned columns with missing values, filters next to missing integers, strided views, text columns next to numeric ones and one-row columns are not sampled",
      ["riptable/rt_fastarray.py", "riptable/rt_numpy.py", "riptable/rt_dataset.py", "riptable/rt_utils.py"],
      [("FastArray reductions: _reduce_check, __array_ufunc__ reduce, __array_function__, filtered helpers _fmean/_fvar/_fnansum", "riptable/rt_fastarray.py"), ("Dataset.reduce, quantile, describe", "riptable/rt_dataset.py"), ("quantile, describe_helper", "riptable/rt_utils.py")],
      "Reductions as exact rationals over the chosen values in TLA+, with a machine of two workers that merge their running totals; TLC checks on it that the merged state gives the declarative value for every split, that missing values propagate or are skipped, that quantiles agree with min, median and max, that windows of full and unit size agree with the reduction and that counts add up. About 4.9k (26k thorough) recorded calls are judged.",
      observe=["every result as an exact fraction (std squared), names and container of table results, inputs afterwards"]),
    P("C19", "cut, qcut, quantile and searchsorted place every value in the right bin",
      "For every numeric column, rt.cut with given edges puts each value in the bin (left, right] that contains it, numbered from 1, the first bin including its left edge; values outside the edges, missing values and rows left out by filter= get 0. With right=False, as documented, the first edge is excluded and values beyond the last edge get the number after the last bin. With a number of bins the edges are equally spaced from the least to the greatest value not missing. rt.qcut takes the edges at the given quantiles (a number q means 0, 1/q, ..., 1; linear interpolation between the finite values left in by the filter) and numbers the bins from 2, 1 being 'Clipped' for values outside, 0 missing or infinite ones. The categories are one label 'left->right' per bin, or the given labels; labels=False gives the numbers only; retbins also the edges. Repeated edges are refused or dropped (duplicates), decreasing edges, bins < 1 and a wrong number of labels are refused. rt_bin.quantile gives the interpolated, lower or higher order statistic. searchsorted gives for each value how many elements of the sorted array lie below it (side left) or not above it (right). Inputs are never modified.",
      ["inputs"], "all integer and float types, fractional, negative, infinite and repeated edges, more than 127 bins, missing values, filters, layouts",
      "tests compare a few float columns with pandas; integer columns with fractional or negative edges, missing values with right=False, one-row columns and strided views are not sampled",
      ["riptable/rt_bin.py", "riptable/rt_numpy.py"],
      [("cut, qcut, quantile, _bins_to_cuts_new, _format_labels", "riptable/rt_bin.py"), ("_searchsorted, where", "riptable/rt_numpy.py")],
      "Bins over exact fractions in TLA+ with a machine in which edges are inserted (splitting a bin) while values arrive; TLC checks on it that the numbers kept incrementally are the declarative ones, that bins partition the range and keep the order, that both closings agree off the edges and that quantile and equal edges cover all values. About 3.4k (19k thorough) recorded calls are judged.",
      observe=["bin number of every row, edges, labels, refusals, inputs afterwards"]),
    P("C20", "string columns: every .str operation acts on each row's own text",
      "For every byte or unicode string column (FastArray.str) and every string Categorical (Categorical.str), upper, lower, reverse, removetrailing, strlen, index/strstr, index_any_of/strpbrk, contains/strstrb, startswith, endswith, replace, substr (call and slice forms, negative bounds counting from the end of that row's text, bounds per row), char, substr_char_stop (inclusive or not), regex_match, regex_replace and extract give, for each row, the same answer as that operation on that row's text alone: occurrences are found leftmost first and do not overlap, -1 means not found, an empty search text is found at 0, a slice is Python's slice, a pattern group that took no part in the match gives the fill text. The answer does not depend on the other rows, on how wide the column is stored, on repeated rows (apply_unique), on the column's length (the parallel path above 10,000 rows), on the memory layout, or, for a Categorical, on the order of the categories or on categories no row has; the result has one row per input row. A filtered Categorical row stays filtered (missing as a number, False as a truth value). Column names of extract are the group names, the names= given, or group_0, ...; expand decides table or column. char beyond the width or before the text's start, replace of an empty text and several search texts at once are refused. Inputs are never modified.",
      ["inputs"], "byte, unicode and ASCII-unicode columns, string Categoricals with filtered rows and unused categories, empty columns and texts, repeated rows, columns above the parallel threshold, padded widths, layouts",
      "tests compare a few ASCII words; negative slices on Categoricals, optional groups, unicode patterns without a group, empty columns, multi-character inclusive stops and strided views are not sampled",
      ["riptable/rt_str.py"],
      [("FAString, CatString, _SubStrAccessor, _handle_apply_unique", "riptable/rt_str.py"), ("Categorical._from_maybe_non_unique_labels", "riptable/rt_categorical.py")],
      "Texts as sequences of code points in TLA+, with search, replacement, slices and a backtracking matcher for regular expressions (characters, classes, any, ?, *, +, anchors, groups), and a scanning automaton that reads a text one character at a time, keeping the pattern's state, the first hit and the text replaced so far; TLC checks on it that what is kept incrementally is the declarative index, containment, ending and replacement, that reversal mirrors starts and ends, that slices partition the text and that matching a literal regular expression, anchored or not, is containment. About 4.2k (18k thorough) recorded calls are judged.",
      observe=["text or number of every row, column names, refusals, inputs afterwards"]),
    P("C21", "Cross-tabulation: cells and margins are reductions of the rows filed there",
      "Accum2(rows, cols) and Dataset.accum2 give, for every reduction (sum, mean, min, max, var, std, median, their nan forms, quantile, first, last, mode, count and user functions through apply_reduce), a table with one row per row key and one column per column key, each in its Categorical's order (sorted for sort_gb, declared order for given categories, in which unused keys still have a row or column), whose every cell is the reduction of exactly the values with that row key and that column key which pass the constructor's and the operation's filters; cells without values are missing (0 for sums and counts). The margin column, the footer and the corner are the same reduction over all the values of the shown cells of that row, of that column, of the table - not over the cells' results - in the order of the labels. With showfilter a Filtered row and column come first and hold what is in no row, in no column or filtered out, and take part in the margins; without it such values are in no cell and no margin. badrows / badcols (by number or label) stay in the cells and are left out of the other margins and the corner. transform=True gives every row its cell's value. Several columns at once give one such table each. Row and column keys may be arrays of any type, single- or multi-key Categoricals, enumerated or base 0. Earlier operations on the same object, filtered or not, do not change a later one, and the inputs are not modified.",
      ["inputs", "histories"], "1-150 rows, up to 20x20 cells, 10 forms of axis x 9 key types, 21 reductions x 10 value types with missing values, filters in both places, showfilter, bad rows/columns, transform, earlier operations",
      "tests compare a few tables without filtered keys; margins under filters, empty cells, sorted display, base 0 axes and leftovers of earlier operations are not sampled",
      ["riptable/rt_accum2.py", "riptable/rt_grouping.py"],
      [("Accum2._stack_dataset, make_dataset, _calc_multipass, _calc_onepass, _accum1_pass, _calc_badslots, apply_reduce, count", "riptable/rt_accum2.py"), ("combine2groups, Grouping._calculate_all", "riptable/rt_grouping.py"), ("Dataset.accum2", "riptable/rt_dataset.py")],
      "Accum.tla files every row in a cell and defines cells, margins and corner as reductions over rational arithmetic; TLC checks on a machine that keeps running aggregates per cell that cells, margins (with and without the Filtered bins, for every choice of left-out rows and columns) and corner read off them are those of the whole history and that nothing is lost. About 2.5k (10k thorough) recorded tables are judged cell by cell.",
      observe=["labels and column names in order, every cell, margins, corner, transform rows, inputs afterwards"]),
    P("C22", "Exchange with Arrow, pandas, NumPy, rows and pickles loses and invents nothing",
      "A column or Dataset handed to another representation and back - to_arrow/from_arrow, to_pandas/from_pandas (or Dataset(df)), as_recordarray, asrows in its forms, dict/Struct, pickle, copy.copy and deepcopy, and routes through several of them - has the same column names in the same order, the same number of rows, the same value in every cell, the same cells missing and the kind of column the route documents (text, integers of each width and sign, floats, booleans, Date, DateTimeNano with its time zone, TimeSpan, DateSpan, Categorical with its categories in their order); what a route cannot carry is refused with an exception, not altered. What the other side sees (pyarrow and pandas values, nulls, masks, categories, time zone) is the column's content, with every missing value a null there and only those. A foreign column - any integer width, dictionary index type including more categories than the index type's signed range, timestamps and durations in any unit, with and without time zone, fixed-size binary, nullable pandas types, object columns with None/NaN/NaT, sliced windows, zero, one or many chunks, nulls anywhere - becomes the column with exactly its logical values; nulls become that type's missing value, a valid value equal to riptable's missing marker is refused or widened (auto_widen), and zero_copy_only, writable and auto_widen only affect memory and refusal. The inputs are left as they were.",
      ["inputs", "histories"], "0-8 rows (boundary sizes to 300 categories), 26 kinds of column, routes of 1-4 conversions, 17 foreign types x chunkings x null patterns x options",
      "tests convert a few arrays each way without slices, empty chunks, units other than nanoseconds, or values that collide with missing markers",
      ["riptable/rt_fastarray.py", "riptable/rt_categorical.py", "riptable/rt_datetime.py", "riptable/rt_dataset.py", "riptable/Utils/pandas_utils.py"],
      [("FastArray.from_arrow, to_arrow, __reduce__", "riptable/rt_fastarray.py"), ("Categorical._from_arrow, to_arrow, __copy__, __deepcopy__", "riptable/rt_categorical.py"), ("Date/DateTimeNano/TimeSpan _from_arrow, to_arrow", "riptable/rt_datetime.py"), ("Dataset.from_arrow, to_arrow, from_pandas, to_pandas, as_recordarray, asrows", "riptable/rt_dataset.py"), ("fastarray_to_pandas_series, pandas_series_to_riptable", "riptable/Utils/pandas_utils.py")],
      "Exchange.tla defines the logical content of a foreign column (windows on buffers, chunks, nulls), the kind each route gives back, and when a conversion must or may be refused; TLC checks on a machine that carries columns along every route, and on one that re-chunks and slices foreign columns, that contents are never altered, kinds settle, and that chunking is invisible. About 3.4k (14k thorough) real conversions are validated against it.",
      observe=["column kinds, names, cells, missing cells, categories, the foreign side's values and nulls, refusals, inputs afterwards"]),
    P("C23", "Reshaping moves every cell to its place: melt, pivot, transpose, trim",
      "Dataset.melt gives one row for each cell of the value columns (those named in value_vars in that order, otherwise every column that is no id), column by column and in row order within a column, next to the id values of its source row (with the id's own type and class, a Categorical as its labels) and the name of its source column, under var_name and value_name; trim=True leaves out exactly the zero or missing values. Dataset.pivot gives one row per distinct combination of the label keys and one column per distinct combination of the column keys (sorted for ordered=True or lex, otherwise in order of first appearance; a Categorical as the only key brings all its categories in their order), named by the key's text (joined by underscores); the cell holds the value of the one row with those keys that the filter keeps, missing where there is none, with the type and class of the value column; two kept rows in one cell are refused with ValueError, rows left out by the filter never count; several value columns give a Multiset of one such table each; labels=None uses the label columns. Dataset.transpose turns the numeric columns that are no labels into rows: one column per source row, called by its label or C0, C1, ..., after a column (headername) with the source column names, every cell in its place and missing cells missing. Dataset.trim drops the numeric columns (no labels) in which every cell is empty (zero and/or missing as asked, columns=), then the rows in which every remaining such column is empty (rows=), keep=True instead keeping the columns and then rows with an empty cell; what it keeps is unchanged, also when nothing is left, and ret_filters agree with it. The input table is never altered.",
      ["inputs"], "1-9 rows, 1-4 value columns of 15 kinds, 1-3 id columns, 1-2 keys per axis of 9 kinds with empty cells, filters and duplicates, memory layouts, all options",
      "tests compare three tables; id columns of other classes, filters next to duplicates, Categorical keys, several keys, sparse tables, columns of strings or dates and tables that become empty are not sampled",
      ["riptable/rt_dataset.py"],
      [("Dataset.melt, pivot, transpose, trim, computable", "riptable/rt_dataset.py"), ("Multiset", "riptable/rt_multiset.py")],
      "Reshape.tla defines each operation on tables as sequences of columns; TLC checks on all small tables that melt holds every cell once, that pivot undoes melt also from a subset of the rows, that two rows in a cell are always seen, that transposing twice is the identity and that trim is sound and idempotent. About 2.3k (12.7k thorough) recorded calls are judged by TLC.",
      observe=["column names and order, every cell by rank with its class, label columns, refusals, inputs afterwards"]),
]
NOT_APPLICABLE = []
