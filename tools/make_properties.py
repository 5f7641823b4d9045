#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
CFM = "featuretools/computational_backends/calculate_feature_matrix.py"
CALC = "featuretools/computational_backends/feature_set_calculator.py"
FSET = "featuretools/computational_backends/feature_set.py"
BUTIL = "featuretools/computational_backends/utils.py"
ES = "featuretools/entityset/entityset.py"
ENT = "featuretools/entityset/entity.py"
TD = "featuretools/entityset/timedelta.py"
SER = "featuretools/entityset/serialize.py"
DES = "featuretools/entityset/deserialize.py"
FB = "featuretools/feature_base/feature_base.py"
FSER = "featuretools/feature_base/features_serializer.py"
FDES = "featuretools/feature_base/features_deserializer.py"
DFS = "featuretools/synthesis/deep_feature_synthesis.py"
DFSM = "featuretools/synthesis/dfs.py"
ENC = "featuretools/synthesis/encode_features.py"
OPT = "featuretools/primitives/options_utils.py"
AGG = "featuretools/primitives/standard/aggregation_primitives.py"
TRA = "featuretools/primitives/standard/transform_primitive.py"
CUM = "featuretools/primitives/standard/cum_transform_feature.py"
BIN = "featuretools/primitives/standard/binary_transform.py"
SEL = "featuretools/selection/selection.py"
WR = "featuretools/utils/wrangle.py"
REL = "featuretools/entityset/relationship.py"
TU = "featuretools/utils/time_utils.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                    "observe_at": observe, "hook_needed": hook}})


prop("P01", "Data that is not yet known never changes a feature row",
     "For every feature and every (instance, cutoff time) row, the computed values are unchanged when rows whose time index lies after the cutoff "
     "(at or after it when data at the cutoff is excluded) are added, altered or removed in any entity, with single cutoff values, cutoff tables, "
     "training windows and approximation alike. The same holds for altering values that a secondary time index says are not known before the cutoff.",
     ["inputs", "histories"], "all small temporal histories over a 2/3-entity schema, all cutoff positions, all possible futures up to the bound, all feature kinds",
     "A handful of tests compare one cutoff on one fixture; a leak is a two-run property over every possible future of every history.",
     [ES, CALC, CFM], [("time filter applied to every entity queried", ES + " (_handle_time)"), ("query per trie node with the cutoff", CALC)],
     ["featuretools.calculate_feature_matrix"])

prop("P02", "Aggregations equal their definition over the visible descendants",
     "The value of an aggregation feature for an instance equals the primitive applied to exactly the values of those descendant rows that are connected to the "
     "instance through the feature's relationship path and visible at the cutoff, for paths of any length, several paths between the same entities, and descendants "
     "in any row order. An instance without any such descendant, and a requested instance that is itself not visible or unknown, gets the feature's default value.",
     ["inputs", "programs"], "all small instances of entity graphs (chains, diamonds, two relationships between one pair) with all link assignments incl. missing links, for representative aggregation primitives",
     "The fixtures hold a single data set; wrong-merge, wrong-path or row-drop errors need particular link patterns (empty groups, dangling links, shared ids).",
     [CALC, FSET, FB], [("child frames grouped by the ancestor key and merged back", CALC), ("ancestor relationship variables", CALC)],
     ["featuretools.calculate_feature_matrix"])

prop("P03", "Filtered aggregations use exactly the selected rows",
     "An aggregation with a where condition uses exactly the visible descendant rows for which the condition is true, and one restricted to a preceding time span uses exactly "
     "those no older than that span before the cutoff, or to the last n observations exactly the last n per instance in time order. The value never depends on which other "
     "features (with other conditions, spans or base columns) are calculated in the same call.",
     ["inputs", "programs"], "all pairs of features drawn from a menu of where conditions x windows x primitives, over all small child histories and cutoffs",
     "Interaction between two features in one request (they are grouped and computed together) is a property of all pairs; tests ask for one or two fixed ones.",
     [CALC, FSET, TD], [("features grouped by path, use_previous, where and groupby", FSET + " (group_features)"), ("where / use_previous filtering of the child frame", CALC + " (_calculate_agg_features)")],
     ["featuretools.calculate_feature_matrix"])

prop("P04", "Direct, transform and group-by features equal their definition",
     "A direct feature equals the related ancestor's value (missing when there is no visible ancestor), a transform feature equals the primitive applied to "
     "the values of its inputs row by row, a transform over the whole entity sees all visible rows of the entity in time order, and a group-by transform sees "
     "all visible rows of the same group (missing group keys give missing values). This holds for every stacking of those features on each other and on "
     "aggregations, including multi-output features and features built on their individual outputs.",
     ["inputs", "programs"], "all feature trees of depth <= 3 over a menu of primitives and all small data sets with dangling/missing parents and missing group keys",
     "Stacking order, group order and index alignment give a product space of feature trees x data that the fixtures sample once.",
     [CALC, FSET, FB], [("topological grouping of features", FSET), ("per feature-kind calculators", CALC)],
     ["featuretools.calculate_feature_matrix"])

prop("P05", "Training windows select exactly the rows they describe",
     "With a training window w and cutoff t, an entity row takes part in a calculation exactly if its time is not after t and either its time or, where "
     "known, its last time index is no older than w before t; the open end of the window is its start when data at the cutoff is included and its end when "
     "excluded. Entities without a time index are not filtered.",
     ["inputs", "configurations"], "all histories over a small time grid x all cutoffs x all windows x include/exclude cutoff x last time index present/absent",
     "Boundary behaviour combines four dimensions; tests check single points.",
     [ES, CFM, WR], [("window mask and last time index mask", ES + " (_handle_time)")],
     ["featuretools.calculate_feature_matrix", "EntitySet.query_by_values"])

prop("P06", "Secondary time index hides exactly the values not yet known",
     "At a cutoff time, the columns governed by a secondary time index read as missing for exactly those rows whose secondary time is not before the cutoff and are intact for all other rows, while "
     "columns not governed by it are unaffected. This holds wherever the column is used: on the target, under aggregations, through direct features and in where conditions.",
     ["inputs", "histories"], "all small histories with secondary times before/at/after each cutoff, one and two secondary indexes",
     "Tests use a single flight/ecommerce fixture and never vary the relative order of the two times and the cutoff.",
     [ES, ENT], [("secondary masks", ES + " (_handle_time)")], ["featuretools.calculate_feature_matrix"])

prop("P07", "A feature row does not depend on the rest of the request",
     "The values computed for an (instance, cutoff time) pair are the same whichever other pairs are requested with it, in whatever order, with whatever chunk size, and whichever other features are requested, "
     "when no approximation is used.",
     ["inputs", "configurations"], "all subsets and permutations of small request tables x chunk sizes (integers, fractions) x feature subsets, for all feature kinds incl. whole-entity and group-by transforms",
     "Tests fix the request table; independence is a relation between every pair of requests.",
     [CFM, CALC], [("per-time grouping and chunking", CFM), ("whole-entity vs filtered calculation", CALC)], ["featuretools.calculate_feature_matrix"])

prop("P08", "Parallel calculation gives the serial result under every schedule",
     "Calculating with several workers returns, for every number of workers, chunk size, task completion order and batching of completions, the same matrix "
     "as the serial calculation: same rows, order, index, columns and values. A failing task surfaces as an error and never as a partial matrix, and the "
     "workers and connections that the call itself created are always released. An entity set already published on a cluster under its name is reused as "
     "documented; nothing else that a cluster holds influences the result.",
     ["schedules", "fault_sequences", "configurations"], "all completion orders and batch partitions of up to 4-5 chunks, all single task failures, over all request shapes incl. single cutoff, pass-through columns and approximation",
     "Real clusters complete tasks in one lucky order; tests run a handful of times.",
     [CFM, BUTIL], [("scatter / map / as_completed gather then reindex", CFM + " (parallel_calculate_chunks)")], ["featuretools.calculate_feature_matrix with n_jobs or dask_kwargs"])

prop("P09", "The feature matrix has exactly the requested rows and columns",
     "The matrix has one row per requested (instance, cutoff) pair in the order of the request, labelled by instance (and time when asked), its columns are the requested features' names in order followed by the extra columns of the cutoff table, "
     "and every extra value stays on the row it was given with. Requests may name their columns in any accepted way, in any order, with any row index; duplicate pairs and ambiguous or missing columns are rejected.",
     ["inputs", "configurations"], "all small cutoff tables (order, repeated instances, repeated times, column names/orders, row labels, extra columns) x options",
     "Row/label misalignment only appears for particular combinations of unsorted ids, repeated times and options.",
     [CFM, BUTIL], [("final reindex to input order", CFM), ("pass-through merge", CFM), ("cutoff validation", BUTIL)], ["featuretools.calculate_feature_matrix"])

prop("P10", "Approximation only rounds the cutoff of approximable features",
     "With approximation by a period, a directly requested feature that reads an aggregation of an ancestor equals the value that aggregation has for the "
     "related ancestor when calculated at the cutoff rounded down to a multiple of that period (instance and ancestor being visible at its own cutoff), "
     "unless a requested feature over the whole entity builds on it, and every feature that does not build on such an aggregation equals its exact value at "
     "its own cutoff time. Rows, order, labels and pass-through columns are those of the exact calculation.",
     ["inputs", "configurations"], "all small histories x cutoff tables (several cutoffs per bin, repeated instances, missing ancestors) x periods x feature mixes",
     "Depends on how cutoffs fall into bins and which features are requested together.",
     [CFM, BUTIL], [("binning", BUTIL + " (bin_cutoff_times)"), ("pre-calculated ancestor features", CFM + " (approximate_features)")], ["featuretools.calculate_feature_matrix(approximate=...)"])

prop("P11", "Saved progress is complete and never torn, at any crash point",
     "When progress is saved to a folder, at every point at which the calculation may be killed or fail every result file in that folder is a complete chunk of rows whose values equal the final matrix. "
     "When the calculation completes, the files together contain every requested row exactly once and no temporary files are left.",
     ["crash_points", "inputs", "fault_sequences"], "every file-system mutation of a calculation as kill point and every byte count as torn write, over request tables with 1-4 cutoff times (incl. times half a day apart) and chunk sizes",
     "Tests run to completion once and never kill the process.",
     [BUTIL, CFM], [("write to temp then rename", BUTIL + " (save_csv_decorator)"), ("temp cleanup", CFM)], ["files in the save_progress folder"])

prop("P12", "Progress reports are monotone and add up to one hundred percent",
     "For every calculation the progress callback sees non-negative updates, a running percentage that never decreases or exceeds one hundred and equals the sum of the updates so far, a non-decreasing elapsed time, and a last report of one hundred percent.",
     ["inputs", "configurations", "schedules"], "all small request shapes x feature sets x chunk sizes x approximation x parallel completion orders",
     "Tests check two configurations.", [CFM, CALC], [("progress bar accounting", CFM), ("per-feature progress fractions", CALC)], ["progress_callback arguments"])

prop("P13", "Calculating features leaves the caller's data untouched",
     "Calculating features or synthesising them never changes the caller's entity set (data, order, types, last time indexes, interesting values, relationships), cutoff table, instance list, option dictionaries or feature definitions, "
     "so repeating any call after any sequence of other calls gives an identical result.",
     ["histories"], "all sequences up to length 3 over a menu of calls (matrix, synthesis, encoding, serialising, approximating...) on one shared entity set, deep snapshots compared after each",
     "Mutation only shows when a second call is made on the same objects in the right order.",
     [CFM, CALC, ES, DFS, ENC, FB], [("copies before filtering", ES), ("per-call feature sets", FSET)], ["EntitySet data before/after", "argument objects before/after"])

prop("P14", "The last time index is the latest event of the instance or its descendants",
     "After computing last time indexes, each instance's value is the latest time index among itself and all rows linked to it directly or through descendants over any relationship, and missing if there is none. "
     "Data updates that refresh last time indexes give the same result as computing them anew on the new data.",
     ["inputs", "histories"], "all small instances of chains, stars, diamonds and double relationships, with/without own time index, datetime and numeric times; all single updates",
     "Tests use one fixture; wrong results need a specific graph shape or link pattern.",
     [ES, ENT], [("children-first propagation", ES + " (add_last_time_indexes)")], ["Entity.last_time_index"])

prop("P15", "Every sequence of entity set operations keeps the tables consistent",
     "After any sequence of adding entities, adding relationships, splitting entities, combining, replacing data, converting and deleting variables that are "
     "not keys, each entity's columns are exactly its variables with the index first, its index values are unique and label the rows, rows are in time order "
     "where there is a time index, and every relationship joins existing variables of the same type. An operation that is refused leaves all of this intact, "
     "and no operation changes values of columns it does not concern.",
     ["histories"], "breadth-first search over all operation sequences to a depth bound from several initial states, with invariants and a table model checked in every state",
     "Tests apply one operation to a fresh fixture; inconsistencies arise from sequences.",
     [ES, ENT, REL], [("operations", ES), ("entity construction and updates", ENT)], ["EntitySet/Entity public state"])

prop("P16", "Entity set metadata always describes the current entity set",
     "After any sequence of operations on an entity set, its metadata describes the same entities, variable ids and types, indexes, time indexes, secondary "
     "time indexes, relationships and interesting values as the entity set itself does, whether or not metadata had been read before.",
     ["histories"], "all operation sequences to a depth bound with metadata reads interleaved at every position",
     "A stale cache shows only when a read precedes the right mutation.",
     [ES, ENT, "featuretools/variable_types/variable.py"], [("cached description reset by mutators", ES + " (metadata / reset_data_description)")], ["EntitySet.metadata"],
     state=[("cached data description", "lazily built metadata", ES)])

prop("P17", "Splitting an entity is lossless",
     "Splitting an entity by a variable creates an entity with exactly one row per distinct value of that variable carrying the moved and copied variables of "
     "the earliest row with that value (the latest for a new secondary time index; ties by index, rows without a time come last), keeps every row and "
     "remaining variable of the base entity and links the two. Variables keep their types and the caller's lists and mappings stay as they are. The new "
     "entity's time index, if made, is the earliest base time per value, and a moved variable that is constant per value can be recovered exactly through the "
     "link. (Rows whose split value is missing are not judged.)",
     ["inputs", "configurations"], "all small tables x all choices of moved/copied variables, time index options and secondary time options",
     "Option combinations x data with repeats, ties and unsorted input.", [ES], [("drop_duplicates on the sorted base", ES + " (normalize_entity)")], ["EntitySet.normalize_entity"])

prop("P18", "Combining entity sets is the union of their rows",
     "Combining two entity sets with the same structure (listed in any order) gives, per entity, each index value of either exactly once with the first set's "
     "row taking precedence, in time order, with relationships and, if either had them, last time indexes as if built from the union. Neither input changes "
     "unless in-place combination is asked for, and then only the first.",
     ["inputs"], "all pairs of small entity sets with overlapping/disjoint indexes, with and without time indexes and last time indexes",
     "Tests combine one fixture with a split of itself.", [ES], [("concat / drop_duplicates / update_data", ES + " (concat)")], ["EntitySet.concat"])

prop("P19", "An entity set survives saving and loading",
     "An entity set written to disk in any supported format, separator, encoding and compression and read back is equal to the original: same entities, rows, "
     "order, values and missing values, column types, variable types with their properties, indexes, time indexes, secondary time indexes, relationships, "
     "last time indexes aside, and the same feature matrices are computed from it. (csv has one spelling for empty and missing text; parquet keeps spans to "
     "the microsecond.)",
     ["inputs", "configurations"], "all combinations of column kinds x special values x structures x format options up to the bound",
     "Tests write one fixture per format.", [SER, DES, "featuretools/variable_types/variable.py"], [("description + per-entity data files", SER), ("typed reload", DES)],
     ["EntitySet.to_csv/to_pickle/to_parquet", "featuretools.read_entityset"])

prop("P20", "Feature definitions survive saving and loading",
     "Any list of features with distinct names saved and loaded again, through a string, a file or an open stream, yields features with the same names in the "
     "same order, the same inputs, primitives and parameters (numbers, text, truth values, times, spans and flat lists of them), and calculating them gives "
     "the same matrix.",
     ["programs"], "all feature trees up to depth 3 from a menu of feature kinds (identity, direct, aggregation with where and windows, transforms with parameters, group-by, multi-output and their outputs, renamed)",
     "Tests round-trip selected features; aliasing and parameter loss need particular combinations.", [FSER, FDES, FB, TD], [("topological dependency dictionary", FSER), ("rebuild by type", FDES)],
     ["featuretools.save_features", "featuretools.load_features"])

prop("P21", "Synthesised features are well-formed and stay within their limits",
     "Every feature produced by synthesis belongs to the target entity, has a unique name, has a depth (primitives and relationships on its inputs) not above "
     "the requested maximum, uses only the given primitives on inputs of types they accept, never uses or crosses an ignored entity or uses an ignored "
     "variable or a where condition on a primitive not allowed one, avoids names and substrings asked to be dropped, has an allowed return type, and can be "
     "calculated. All supported combinations that apply one primitive to variables of the target or of directly related entities are present.",
     ["configurations", "programs"], "all combinations of a menu of options (depth, ignore lists, drop lists, primitives, allowed paths, return types, seed features) over several schemas",
     "Tests check each option separately on one schema.", [DFS, DFSM], [("recursive enumeration with filters", DFS)], ["featuretools.dfs(features_only=True)"])

prop("P22", "Synthesis is deterministic and truncation keeps a prefix",
     "Synthesising with the same inputs gives the same features in the same order in every process, after every history of other calls and without changing "
     "its arguments, and limiting the number of features to n gives exactly the first n of the unlimited result.",
     ["configurations", "schedules"], "all truncation lengths for each configuration, across processes with different hash orders",
     "The suite pins the hash seed, which hides iteration-order dependence.", [DFS, DFSM], [("sorted output then truncation", DFS)], ["featuretools.dfs(features_only=True)"])

prop("P23", "Primitive options restrict exactly what they say",
     "Per-primitive options are honoured for every feature: a primitive is applied only to entities and variables its options include or do not ignore, "
     "judged over everything its inputs are made of, group-by keys are only those its group-by options allow, include options beat ignore options, specific "
     "options beat global ones, and primitives without options are unaffected by options that only ignore. Where conditions are not judged.",
     ["configurations"], "all option dictionaries over a small menu of entities/variables x option kinds x primitive keys (name, class, instance, tuple), one or per-input lists",
     "Tests check a dozen chosen dictionaries.", [OPT, DFS], [("option normalisation and filters", OPT), ("application during enumeration", DFS)], ["featuretools.dfs(primitive_options=...)"])

prop("P24", "Encoded matrices can be reproduced from the encoded features",
     "Encoding a matrix leaves non-encoded columns and the rows unchanged, replaces each encoded column by one indicator per kept value in order of "
     "decreasing frequency, ties by decreasing value (plus an unknown indicator when asked), whose entries are true exactly where the original value equals "
     "it; dropping the first keeps one indicator fewer, but at least one. Calculating the returned features on the same data gives exactly the encoded "
     "matrix.",
     ["inputs", "configurations"], "all small categorical columns x top-n, unknown, drop-first, to-encode and in-place options",
     "Option and tie/missing-value combinations.", [ENC], [("indicator features and columns built together", ENC)], ["featuretools.encode_features"])

prop("P25", "Feature selection removes exactly the columns it describes",
     "Each selection function returns the input matrix restricted, in order and with unchanged values, to the columns meeting its criterion (information "
     "content, null share below the threshold, distinct values, correlation with an earlier column not above the threshold), the same restriction of the "
     "feature list when one is given, and never drops columns asked to be kept.",
     ["inputs"], "all small matrices over an alphabet with missing values x thresholds and options", "Thresholds and ties sampled only.", [SEL], [("column masks", SEL)], ["featuretools.selection functions"])

prop("P26", "Time spans mean the same in every spelling and survive conversion",
     "A time span means the same whether given as text, number with unit, or mapping, shifts times forwards and backwards by calendar rules for months and "
     "years and exactly for other units, is equal exactly to spans with the same parts, and survives conversion to a name (single unit) or dictionary (any) "
     "and back.",
     ["inputs"], "all units and spellings x small values x one- and two-unit spans x boundary dates", "Tests cover selected units.", [TD, WR], [("unit tables and parsing", TD), ("text parsing", WR)], ["featuretools.Timedelta", "training_window / use_previous arguments"])

prop("P27", "Relationship path queries enumerate exactly the existing paths",
     "Path queries between entities return exactly the cycle-free forward (or backward) relationship paths, each once and with edges in order, the uniqueness query tells whether there is exactly one, and deep neighbour queries list exactly the reachable entities by every path.",
     ["inputs"], "all directed multigraphs on up to 4 entities up to the edge bound", "Tests use two graphs.", [ES, REL], [("depth-first path enumeration", ES)], ["EntitySet.find_forward_paths", "find_backward_paths", "has_unique_forward_path", "get_forward_entities", "get_backward_entities"])

prop("P28", "Aggregation primitives compute their documented function",
     "Every standard aggregation primitive, calculated through a feature matrix, returns for every column of values, including missing values, repeated "
     "values and single or no rows, the value its documentation defines. (Which of several equally frequent values is reported is not specified.)",
     ["inputs"], "all columns up to a length bound over a small alphabet incl. missing values, for each primitive and parameter choice", "Tests feed one or two arrays per primitive.", [AGG], [("primitive functions", AGG)], ["featuretools.primitives.*", "calculate_feature_matrix"])

prop("P29", "Transform primitives compute their documented function",
     "Every standard transform primitive, cumulative primitives and arithmetic, comparison and logic between features included, returns for every column of "
     "inputs, including missing values, the row-by-row values its documentation defines, aligned with the rows. (Comparisons and logic with missing values, "
     "division by zero and percentiles of ties are not specified.)",
     ["inputs"], "all columns up to a length bound over small alphabets incl. missing values, for each primitive and parameter choice", "Tests feed one or two arrays per primitive.", [TRA, CUM, BIN], [("primitive functions", TRA)], ["featuretools.primitives.*", "calculate_feature_matrix"])

prop("P30", "Results on partitioned data equal the in-memory results",
     "For an entity set built on partitioned tables, every supported feature has the same values for the instances known at their cutoff as on the same data "
     "held in memory, for every way of partitioning each table in time order.",
     ["inputs", "schedules"], "all partitionings of small tables x supported feature kinds x cutoffs", "Tests use one partitioning with two partitions.", [CALC, ES, CFM], [("parallel implementations for partitioned frames", CALC)], ["featuretools.calculate_feature_matrix on Dask entity sets"])

prop("P31", "Generated cutoff series are evenly spaced and end at the given cutoff",
     "For every instance the generated cutoff table contains exactly the requested number of times (or all that fit from the start), spaced by the window size and ending at the instance's cutoff, in increasing order and paired with that instance.",
     ["inputs"], "all small instance/cutoff lists x all valid pairs of window size, start and number of windows", "Few fixed cases.", [TU], [("date ranges per instance", TU)], ["featuretools.make_temporal_cutoffs"])

prop("P32", "Entity set equality is an equivalence that sees every difference",
     "Comparing entity sets and entities is reflexive and symmetric; a plain comparison tells apart differing entities, variables, types, indexes and "
     "relationships (in any order), and a deep comparison additionally tells apart any differing cell, row, row order or last time index.",
     ["inputs"], "all pairs from a family of entity sets each differing in exactly one aspect (every cell, every variable, every relationship...)", "Tests compare a few edited copies.", [ES, ENT, WR], [("equality methods", ENT), ("data frame comparison", WR)], ["EntitySet/Entity equality"])

prop("P33", "Stacking rules of primitives are honoured and made primitives compute their function",
     "Synthesis never applies an aggregation to an input it must not be stacked on: not to its own outputs when stacking on itself is off, not to primitives on its blacklist or whose blacklist it is on, and, where both primitives have whitelists, not unless one of them admits the other; every combination within the limits that no rule excludes is made. A primitive made from a function computes exactly that function of its inputs, with its default or given arguments and the calculation time, and its default value where there are no rows.",
     ["inputs"], "all combinations of the five rules x kinds of input x numbers of inputs; all kinds of made primitives x small tables", "Tests check a handful of rule combinations on the check function alone and few made primitives.",
     [DFS, "featuretools/primitives/base/aggregation_primitive_base.py", "featuretools/primitives/base/transform_primitive_base.py"], [("stacking checks", DFS), ("making primitives", "featuretools/primitives/base/aggregation_primitive_base.py")], ["featuretools.dfs", "make_agg_primitive", "make_trans_primitive"])

prop("P34", "Queries return exactly the matching rows that are visible",
     "Asking an entity for rows by values of a variable, with or without a time, a training window and a list of columns, returns exactly the rows whose value is "
     "among the given ones (all rows if none are given) and that are visible at the time and inside the window, each once, in the order of the entity, labelled by "
     "the index, with the requested columns in the requested order; values governed by a secondary time index not known yet are missing, others are unchanged, and so is the entity set.",
     ["inputs"], "all small tables x times x windows x including the time itself or not x every set of values of every variable x column lists",
     "Tests ask a few questions of one fixture.", [ES, ENT], [("selection, time filter and secondary time index", ES + " (query_by_values, _handle_time)")], ["EntitySet.query_by_values"])

prop("P35", "Interesting values are the most frequent ones",
     "Adding interesting values gives every discrete variable that takes no part in a relationship its most frequent values that are present, at most the requested number; with "
     "25 or more distinct values only those held by more than 5 and fewer than 95 percent of the rows, from the most frequent on up to the first that is not. Data and other variables' "
     "interesting values stay as they are. (Which of equally frequent values is taken is not specified.)",
     ["inputs"], "all small columns of every discrete kind, and all shapes of counts around the limits for columns with many values", "Tests look at one fixture.",
     [ENT, ES, "featuretools/variable_types/variable.py"], [("value counts and thresholds", ENT + " (add_interesting_values)")], ["EntitySet.add_interesting_values", "Entity.add_interesting_values"])

prop("P36", "Operators on features mean what they say",
     "A feature built by Python operators (arithmetic, comparison, logic, negation, with features or numbers on either side) has on every row the value of the same expression over the "
     "values of its operands, features of different expressions calculated together keeping their own values. (Comparisons and logic with missing values and division by zero are not specified.)",
     ["inputs", "programs"], "all expressions of one and two operators over features and constants x all combinations of values on the rows",
     "Tests check the primitives selected by some operators on one fixture.", [FB, BIN], [("operator methods of features", FB), ("binary primitives", BIN)], ["FeatureBase operators", "featuretools.calculate_feature_matrix"])

prop("P37", "One call gives what synthesis and calculation give separately",
     "Creating features and calculating them in one call gives exactly the features that synthesis gives for the same options, and exactly the feature matrix (columns, types, index, values, saved and reported "
     "progress) that calculating those features with the same options gives, whether the data is handed over as an entity set or as tables and relationships; asked for only the features it returns just them. "
     "The primitives it reports as unused are exactly those given ones that no returned feature, nor one it is made from, uses in that role, however they are given.",
     ["inputs", "configurations"], "all combinations of calculation options, all pairs of synthesis options, all forms of giving the data, all combinations of primitive lists",
     "Tests exercise a few options one at a time.", [DFSM, ES], [("forwarding of options", DFSM), ("unused primitives", DFSM + " (_categorize_features)")], ["featuretools.dfs", "EntitySet constructor"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
