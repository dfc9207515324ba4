"""The properties, and how each is decided."""

BE = "model checking by bounded exhaustive exploration: all cases within the bounds are executed on the real code and checked against an executable reference model"
HIST = "explicit-state exploration of operation histories of the real code, in step with a reference model"


def P(id, title, statement, over, quantifier, why, files, mechanism, technique, level, note):
    return {
        "id": id, "title": title, "statement": statement, "over": over,
        "quantifier": quantifier, "why": why,
        "anchors": {
            "files": ["instancespace/" + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        },
        "technique": technique, "level": level, "note": note,
    }


PROPERTIES = [
    P("C01", "A pipeline builds exactly when its stages can be ordered",
      "Given a set of stages and initial inputs, building succeeds if and only if there is an order in which every stage's inputs (matched by name and type) come from the initial inputs or from stages that ran before it. The built pipeline then runs every stage exactly once, none before its inputs are available. Otherwise building fails with an error that names the stages that cannot run.",
      ["programs", "schedules"],
      "every set of stages, every initial inputs, every internal iteration order",
      "The tests build a handful of fixed pipelines; the guarantee is about every dependency graph a plugin author can write.",
      ["stage_builder.py", "stage_runner.py"],
      [("fixpoint over the available arguments", "StageBuilder._resolve_stages"), ("runnability check", "StageRunner._check_stage_order_is_runnable")],
      "exhaustive enumeration of small pipelines on the real builder and runner against a reference resolver",
      "model_checking",
      "Complete for the enumerated pipelines and set iteration orders; larger pipelines are assumed to behave like small ones. The reference resolver is trusted."),
    P("C02", "Run-before and run-after restrictions are honoured or refused",
      "If a stage declares that it runs before or after another stage of the pipeline, it does so in every run. Restrictions that cannot be satisfied (cyclic, or after a stage that is not in the pipeline) make building fail, and restrictions never make a satisfiable pipeline fail.",
      ["programs", "schedules"],
      "every pipeline with every set of restrictions",
      "The tests contain no more than single restrictions on fixed pipelines; combinations, cycles and absent stages are a combinatorial space.",
      ["stage_builder.py", "stages/stage.py"],
      [("ordering restrictions", "StageBuilder._get_ordering_restrictions, _stage_resolves")],
      "exhaustive enumeration of restriction sets on the real builder against a reference resolver",
      "model_checking",
      "Complete for up to 3 stages with up to 3 restrictions and 4 stages without data with up to 4. The reference resolver is trusted."),
    P("C03", "What a pipeline computes does not depend on incidental ordering",
      "What every stage receives and the final data do not depend on the order in which stages were added or happen to be stored. A stage that modifies an argument (has it both as input and output) runs before the other stages that become runnable at the same time and read this argument, unless restrictions say otherwise. Where two stages that may run at the same time produce the same output, building fails as ambiguous.",
      ["schedules", "programs"],
      "every pipeline, every order of adding, every internal iteration order",
      "Which order a test happens to exercise depends on memory addresses; the quantifier is over all orders.",
      ["stage_builder.py", "stage_runner.py"],
      [("mutating stage rule", "StageBuilder._mutating_stages_check"), ("ambiguity check", "StageBuilder._resolve_stages")],
      "controlled exploration of all set iteration and insertion orders, with symbolic data provenance",
      "model_checking",
      "All orders of the enumerated pipelines of up to 5 stages, by controlling the hashes of the stage classes. The reference resolver is trusted."),
    P("C04", "Any history of full, partial, repeated and failed runs uses the right data",
      "In any sequence of complete runs, runs until a stage (that stage included), stepwise iterations, single stage runs and failed runs, a stage runs only if all stages of the earlier steps of the schedule have valid results, and receives the initial data of the current run, the latest valid outputs of the earlier steps and the overrides of that call only. Running an earlier stage again invalidates the later steps and nothing else. A new run starts from scratch.",
      ["histories", "fault_sequences"],
      "every sequence of run operations on every pipeline, with a stage failing at any point",
      "Stale data shows only in particular sequences of operations; the tests replay a few.",
      ["stage_runner.py"],
      [("per-schedule snapshots and rollback", "StageRunner.run_stage, _rollback_to_schedule_index, _progress_schedule")],
      HIST, "model_checking",
      "All histories to the stated depth over 12 named pipelines and all 2-stage pipelines over two names; values carry their provenance. The reference model is trusted."),
    P("C05", "A stage cannot corrupt what other stages, or the caller, see",
      "Whatever a stage does in place to the inputs it is handed, the data of other stages, of repeated and later runs, the results returned earlier and the data passed in by the caller keep their values.",
      ["histories", "programs"],
      "every history of runs of pipelines in which every stage destroys its inputs",
      "Aliasing becomes visible only with a stage that modifies its inputs, run in the right order; the tests contain none.",
      ["stage_runner.py"],
      [("inputs are copied for each stage", "StageRunner.run_stage")],
      HIST, "model_checking",
      "As C04 with destructive stages; nested lists stand for the arrays of the real stages."),
    P("C06", "An instance space feeds its stages, and exposes its model, consistently",
      "The stages of an instance space receive the metadata, the options and each other's latest results, in the order preprocessing, prelim, sifted, pilot, pythia and cloister, trace. The model is available after a complete build or iteration, never before, and consists of the outputs of the latest complete run. The metadata and options stay unchanged.",
      ["histories"],
      "every sequence of build, iterate, run-until and single-stage operations",
      "Building the real stages takes minutes, so the tests cover one or two sequences.",
      ["instance_space.py", "model.py", "data/model.py"],
      [("initial inputs", "_InstanceSpaceInputs.from_metadata_and_options"), ("model from the final output", "Model.from_stage_runner_output")],
      HIST, "model_checking",
      "All histories of 3 operations with stand-ins for the seven stages that have their real inputs and outputs."),
    P("C07", "Metadata tables are parsed completely and aligned",
      "Whatever the order, case and number of columns, the columns with the feature and algorithm prefixes become the features and algorithms in file order, the instances column the labels (as the text that is written there, also if it looks like a number or like a missing value) and the source column the sources, and other columns are ignored. Row i of every part belongs to row i of the file, missing cells become NaN, and this includes files with one row or one column of a kind.",
      ["inputs"],
      "every table with columns of these kinds in every order, and cells from an alphabet with missing values",
      "The tests parse a few fixed files; shapes with a single row or column behave differently in pandas.",
      ["data/metadata.py"],
      [("column selection", "Metadata.from_data_frame")],
      BE, "exploration",
      "Complete for the enumerated column sequences and cells, through real CSV files."),
    P("C08", "Options files overlay the defaults exactly",
      "Loading options gives every field present in the file its value from the file and every other field its default, section by section. A section or field that does not exist is refused. Loading is independent of earlier loads. The options of PRELIM follow from them: outliers are bounded and values normalised only if preprocessing is on and so is the particular flag.",
      ["inputs", "configurations", "histories"],
      "every subset of sections and fields, with unknown names injected at every place",
      "The tests load individual sections; interactions of omitted and present fields are a product space.",
      ["data/options.py"],
      [("parsing", "InstanceSpaceOptions.from_dict, _load_dataclass")],
      BE, "exploration",
      "All single fields, all pairs of fields in a section, all subsets of sections; unknown names in every section."),
    P("C09", "Broken input files are reported, never half-loaded",
      "Loading metadata or options from a file that is missing, unreadable, a directory, empty, cut off at any byte or not in the right format either returns no object or one that equals what the intact part says in full. It does not raise, and an instance space is constructed only if both loads succeeded.",
      ["fault_sequences", "crash_points"],
      "every truncation point and every corruption of a byte of a class of files, every kind of missing file",
      "The quantifier is over all cut-off points and corruptions; the tests try a few.",
      ["data/metadata.py", "data/options.py", "instance_space.py"],
      [("error handling", "from_csv_file, from_json_file, instance_space_from_files")],
      "fault enumeration: all truncations and byte corruptions of input files", "fault_enumeration",
      "All truncations and all single byte replacements from an alphabet of a small file of each kind."),
    P("C10", "Preprocessing keeps every part of the data aligned and complete",
      "Preprocessing selects exactly the requested features and algorithms, drops exactly the instances without any feature value or without any performance value, and then the features with at least 20 percent missing values. Labels, sources, features and performances of the remaining instances stay aligned with each other, in their original order, whatever their index.",
      ["inputs", "configurations"],
      "every pattern of missing values and every selection over small tables",
      "Alignment bugs need particular combinations of removed rows, columns and index; the tests use fixed tables.",
      ["stages/preprocessing.py"],
      [("selection", "PreprocessingStage.select_features_and_algorithms"), ("missing data", "PreprocessingStage.process_data, remove_instances_with_many_missing_values")],
      BE, "exploration",
      "Complete for the enumerated missing patterns up to 4x3 tables, selections and index kinds, plus the 20 percent threshold for all column lengths to 21."),
    P("C11", "Good, best and beta performance follow their definitions exactly",
      "For maximisation or minimisation, absolute or relative thresholds, an algorithm is good on an instance exactly when its performance reaches the threshold, or is within the given fraction of the best one; a missing performance is never good. The best performance, the best algorithm (the first one on a tie), the number of good algorithms and the beta flag (more than the given fraction of algorithms good) are those of the raw performances of that instance, and the raw performances are left as they are. With relative thresholds the processed performances are the relative distances to the best one.",
      ["inputs", "configurations"],
      "every performance matrix over an alphabet with ties, zeros, missing and threshold values, for every setting",
      "Ties, zeros and exact threshold values are edge cases in combination; the tests use one real data set.",
      ["stages/prelim.py"],
      [("labelling", "PrelimStage.prelim")],
      BE, "exploration",
      "Complete for rows of up to 4 algorithms over a value alphabet, 3 of them in all settings; labels per row and matrices of several rows."),
    P("C12", "Outliers are bounded at the median plus and minus five quartile ranges",
      "With bounding on, every feature value above or below its feature's median plus or minus five inter-quartile ranges is replaced by that bound, all other values, missing values included, are unchanged, and the reported bounds are the ones used. With bounding off nothing is replaced. Bounding one feature does not affect another.",
      ["inputs", "configurations"],
      "every feature column over an alphabet with outliers, ties and missing values",
      "Combinations of ties, missing values and outliers are enumerable, but not by hand.",
      ["stages/prelim.py"],
      [("bounding", "PrelimStage.bound, _bound")],
      BE, "exploration",
      "Complete for columns of up to 6 values over the alphabet; percentiles as documented for the reference implementation."),
    P("C13", "Normalisation is monotone, standardised and invertible from its parameters",
      "With normalisation on, each feature and each performance becomes standardised (mean zero, standard deviation one, or all zero if constant) by a shifted Box-Cox transformation and a z-score, preserves the order of the values, and can be recomputed from the reported minimum, lambda, mean and deviation. Missing values stay missing and do not influence the others. Where no Box-Cox parameter is numerically usable the values are standardised only. With normalisation off the values are unchanged.",
      ["inputs", "configurations"],
      "every column over an alphabet with ties, constants, negative and missing values",
      "The property is relational over all inputs; the tests compare one data set with MATLAB.",
      ["stages/prelim.py"],
      [("normalisation", "PrelimStage.normalise, _normalise")],
      BE, "exploration",
      "Complete for the enumerated columns; recomputation by the documented formula with a tolerance of 1e-6."),
    P("C14", "Selecting a subset of instances selects the same rows everywhere",
      "When the analysis is restricted to a subset of instances, by a file of indices (counted from 1), by a fraction (small scale) or by density, all per-instance data afterwards describe the same instances, in the same order. The data of the kept instances equal what they were before the restriction.",
      ["inputs", "configurations"],
      "every subset by index file of small instance sets, every small scale fraction and density threshold of a set",
      "A misaligned array shows only when the subset is not a prefix; all subsets have to be tried.",
      ["stages/prelim.py", "stages/sifted.py"],
      [("subset selection", "PrelimStage.filter_post_norm, select by file, fraction or density")],
      BE, "exploration",
      "All subsets of 6 instances (as index files), all fractions from 0.1 to 0.9 and all four density types over several thresholds."),
    P("C15", "Density filtering keeps a sparse and covering set of instances",
      "Filtering by density keeps no two comparable instances within the distance threshold, and drops an instance only if a kept comparable instance is within the threshold. Close means within the threshold in features; comparable means, according to the type, any two instances, those within a proportional threshold in performance, those on both of which every algorithm is good, or both of the latter. The first instance is always kept, and the similarity marks and the uniformity describe the same result.",
      ["inputs", "configurations"],
      "every small set of points on a grid with every labelling, for each type and threshold",
      "Sparsity and covering are quantified over all pairs of instances; chains of near neighbours need to be enumerated.",
      ["utils/filter.py"],
      [("pairwise filter", "filter.do_filter, compute_uniformity")],
      BE, "exploration",
      "All point sets of up to 6 points on a small grid with all binary labellings for each type and several thresholds."),
    P("C16", "Feature selection keeps exactly the features correlated with performance",
      "A feature passes when it is the most correlated one of some algorithm or its absolute correlation with some algorithm reaches the threshold, where a correlation that is not significant counts as none. The selected columns, labels and indices agree, indices refer to the features before selection, and no data besides the columns changes. Turned off, or with up to three features, all features are kept.",
      ["inputs", "configurations"],
      "every small data set of the enumerated correlation structures and thresholds",
      "The tests check a MATLAB example; the agreement of labels, columns and indices is over all selections.",
      ["stages/sifted.py"],
      [("selection by performance", "SiftedStage.select_features_by_performance")],
      BE, "exploration",
      "All combinations of features from a pool of columns with designed correlations, several thresholds."),
    P("C17", "Feature clustering picks one feature of each cluster",
      "When there are more features than clusters, every feature belongs to exactly one cluster and exactly one feature of each cluster is selected, of all evaluated combinations the one with the lowest prediction error. Labels, columns and indices agree, and the result is the same on every run. Clustering and search use the settings that the options give.",
      ["inputs", "histories"],
      "every assignment of features to clusters in the enumerated data sets, repeated runs",
      "Whether the best evaluated combination is kept is invisible to tests that only look at the result.",
      ["stages/sifted.py"],
      [("clustering and genetic search", "SiftedStage.select_features_by_clustering, find_best_combination")],
      BE, "exploration",
      "All designs of an enumerated family of data sets; every fitness evaluation is observed."),
    P("C18", "The projection, its model and its reported errors are consistent",
      "Every instance's coordinates are the projection of its features, the reported approximation matrices reproduce features and performances from the coordinates, and the reported error and coefficients of determination are those of that approximation. The matrix shapes match the numbers of features and algorithms, and features without any numerical noise give a projection independent of the row order. The numerical solution is the trial whose coordinates preserve the distances best, a trial whose coordinates all coincide never being preferred.",
      ["inputs", "configurations"],
      "every data set of an enumerated family, analytic and numerical, with and without given starting points",
      "Consistency equations hold for all inputs; tests compare one data set with MATLAB for each method.",
      ["stages/pilot.py"],
      [("analytic and numerical solution", "PilotStage.analytic_solve, numerical_solve")],
      BE, "exploration",
      "All data sets of the enumerated family (features x algorithms x instances), both methods; equations checked with tolerances."),
    P("C19", "The estimated boundary is the hull of the feasible feature extremes",
      "The boundary consists of the convex hull of the projections of all combinations of extreme feature values, and the pruned boundary of those whose signs (negative, zero or positive) do not contradict a significant correlation above the threshold, or of the full one if too few remain to have a hull. Its points are in counter-clockwise order.",
      ["inputs", "configurations"],
      "every data set of an enumerated family of correlation patterns and thresholds",
      "There are exponentially many combinations of extremes; the tests compare one data set.",
      ["stages/cloister.py"],
      [("enumeration of extremes and hull", "CloisterStage.cloister")],
      BE, "exploration",
      "All data sets of the family up to 5 features against a brute-force reference."),
    P("C20", "Algorithm selection picks the most precise predicted-good algorithm",
      "For every instance the selected algorithm is, among those predicted to be good, the one with the highest reported precision (the first on a tie), or none if no algorithm is predicted good; the fallback selection replaces none by the algorithm that is good most often. Selections in the model count from one, with zero for none, and the summary's selector rows describe these selections.",
      ["inputs", "configurations"],
      "every prediction pattern reachable over an enumerated family of labellings, one algorithm included",
      "The first algorithm and no algorithm are easily confused; the tests never look at the selections.",
      ["stages/pythia.py", "data/model.py"],
      [("selection", "PythiaStage._determine_selections, _generate_summary"), ("index base", "PythiaOut.from_stage_runner_output")],
      BE, "exploration",
      "All labellings of an enumerated family with trained models, and all prediction patterns with a stand-in classifier."),
    P("C21", "Reported prediction quality matches the predictions",
      "The cross-validated labels are predictions for instances that were held out, the confusion counts are those of the cross-validated labels, and the reported accuracy, precision and recall are those of the cross-validated labels too. The reported mean and deviation are those of the coordinates before scaling. The training weights are the distances of the performances from their mean (the least positive one for a performance that is the mean, the largest one for a missing performance), or one. The models have the kernel (Gaussian, or polynomial of degree two) and the number of folds that the options ask for, and the parameters that they give, or else the best ones of those tried. Training does not change the caller's data.",
      ["inputs", "configurations"],
      "every labelling of an enumerated family, each kernel and weighting",
      "The tests compare a few aggregated numbers within percentages.",
      ["stages/pythia.py"],
      [("training and evaluation", "PythiaStage.pythia, _fitmatsvm")],
      BE, "exploration",
      "All labellings of an enumerated family; predictions are recomputed fold by fold."),
    P("C22", "Footprint figures describe the footprint's polygon exactly",
      "A footprint's area, number of instances inside, number of good ones, density and purity are those of its polygon, and the summary reports them relative to the whole space. Too few or collinear instances give an empty footprint, not an error.",
      ["inputs", "configurations"],
      "every small set of grid points with every labelling",
      "Degenerate point sets (collinear, duplicated, few) occur for particular labellings only.",
      ["stages/trace.py", "data/model.py"],
      [("footprint measures", "Footprint.from_polygon, TraceStage.summary")],
      BE, "exploration",
      "All labellings of enumerated point sets; geometry recomputed with an independent point-in-polygon test."),
    P("C23", "Footprints do not depend on thread scheduling",
      "The footprints and the summary are the same for every number of workers and every order in which the per-algorithm tasks start, interleave and complete, and row i belongs to algorithm i. A failing task fails the analysis.",
      ["schedules", "fault_sequences"],
      "every completion order and every interleaving within a preemption bound of the per-algorithm tasks",
      "A test sees one schedule; the order of completion depends on timing.",
      ["stages/trace.py"],
      [("worker pool and result placement", "TraceStage.compute_algorithm_qualities, process_algorithm")],
      "stateless exploration of thread schedules under a controlled scheduler (preemption bounding)",
      "model_checking",
      "All completion orders for up to 4 algorithms and all interleavings to the preemption bound at line granularity in the analysis' own code."),
    P("C24", "Contradicting best footprints are resolved in favour of the purer one",
      "Where the best footprints of two algorithms overlap, the overlap is removed from the one with fewer of its own best instances there, which is then tightened around its remaining best instances, and the other one keeps it; equal purity leaves both. This is repeated up to three times, and done for every pair of algorithms in order. In the pipeline too, the best footprint of an algorithm comes from the instances where that algorithm is the best one.",
      ["inputs", "configurations"],
      "every labelling of the instances of enumerated point sets, every pair of algorithms",
      "Overlaps with unequal purity never occur in the test data.",
      ["stages/trace.py"],
      [("contradiction removal", "TraceStage.contra, tight")],
      BE, "exploration",
      "All assignments over enumerated point sets through the whole stage against an independent resolution, and all pairs of enumerated polygons; the set operations of shapely are trusted."),
    P("C25", "Saved tables reproduce the model exactly",
      "Every saved table has one row per instance (or boundary point) labelled accordingly and one column per feature, algorithm or coordinate, with the values of the model, also after repeated saves and into another directory. The file for MATLAB has the labels of the algorithms in their order. Saving does not change the model, and a directory that does not exist is refused.",
      ["inputs", "histories"],
      "every model of an enumerated family, every sequence of save operations",
      "Aliasing between saves shows only in sequences of saves; label and value alignment has to hold for all shapes.",
      ["_serialisers.py", "model.py"],
      [("csv output", "save_instance_space_to_csv")],
      HIST, "model_checking",
      "All models of the family and all save sequences to the stated length; tables are read back and compared."),
    P("C26", "Web colours index the colour table in the order of the values",
      "Every colour index written for the web is a whole number from 0 to 255, grows in proportion with the value it stands for, and the extremes get the ends of the range, per column or over the whole table as the file demands. Rows and columns are labelled, and the features are the selected ones. Constant and missing values get a valid index too.",
      ["inputs"],
      "every small table over an alphabet with ties, constants, negative and missing values",
      "Constant or missing data turn into garbage integers silently.",
      ["_serialisers.py"],
      [("colour scaling", "save_instance_space_for_web")],
      BE, "exploration",
      "All tables over the alphabet up to the stated size."),
    P("C27", "Graphs show every instance, algorithm and footprint where it belongs",
      "Every feature and algorithm gets its graphs, every instance that has a value is drawn at its coordinates in the colour or class of that value, every source, and every algorithm that is best or selected somewhere, appears in its graph under its own name and in its own colour, the algorithm with its own footprint, and none is left out. No instance lies outside of the drawn axes. Values are normalised per algorithm or globally as the graph says.",
      ["inputs", "configurations"],
      "every assignment of best and selected algorithms to instances for an enumerated family of models",
      "The tests only check that the files exist.",
      ["_serialisers.py"],
      [("plots", "save_instance_space_graphs")],
      BE, "exploration",
      "All assignments over small models; the drawn artists are inspected."),
    P("C28", "An analysis is deterministic and aligned from end to end",
      "Running the same metadata and options again, in the same or a fresh process, with any number of workers, gives the same model. In it every per-instance part has one row per remaining instance, in the order of the instance labels, whose features, performances, coordinates and labels all belong to that instance, and the metadata is unchanged.",
      ["inputs", "configurations", "schedules"],
      "every configuration of an enumerated family of options on small data sets",
      "The integration tests run one configuration without looking at the values.",
      ["instance_space.py", "stages/preprocessing.py", "stages/prelim.py", "stages/sifted.py"],
      [("pipeline", "InstanceSpace.build")],
      BE, "exploration",
      "All configurations of the family on small data sets with the real stages, each run twice."),
    P("C29", "Zip archives contain exactly what was saved",
      "A zip archive contains every file below the output directory (git's ignore file aside) exactly once, with its full and current content, under the top folder 'output' (files of the same name in different folders included), and not itself or an older archive of its own name, whatever was saved before and in whichever order. Archiving changes no other file and not the model.",
      ["histories", "inputs"],
      "every sequence of save operations and every tree of files of the enumerated family",
      "The test checks for the presence of some names after one sequence.",
      ["model.py"],
      [("archive", "Model.save_zip")],
      HIST, "model_checking",
      "All sequences of saves to the stated length, archives read back byte by byte."),
    P("C30", "Footprints are built from dense clusters of the right instances",
      "The good footprint of an algorithm is built from the instances on which it is (or with use_sim is predicted to be) good, the best one from those where it is the best (or selected) one, the hard one from those without beta-good performance, and the space from all instances. It is the union of the simplified alpha shapes of the dense clusters of these instances, without the triangles of each shape in which less than the required purity of the instances are such ones, and with smoothed borders.",
      ["inputs", "configurations"],
      "every labelling of enumerated point sets, every required purity, both sources of labels",
      "The tests compare areas of one data set with MATLAB; which instances count for which footprint depends on the labelling.",
      ["stages/trace.py"],
      [("construction", "TraceStage.build, fit_poly, run_dbscan, process_algorithm")],
      BE, "exploration",
      "All labellings of enumerated point sets against an independent construction; the alpha shapes and set operations of alphashape and shapely are trusted."),
    P("C31", "A builder stands for exactly the stages added to it so far",
      "A stage builder can be built from any number of times, from different initial inputs and with stages added in between: every build succeeds or fails as that of a new builder with the same stages, and its runner runs each of them once. A stage that was already added, or that has a restriction among its outputs, is refused. Refused stages, failed builds and later additions leave the builder and the runners that it built as they are.",
      ["histories", "programs"],
      "every sequence of additions, refused additions and builds up to a depth, for every pipeline of a class",
      "The tests build once from each builder; state that leaks from one build or failed addition to the next needs histories.",
      ["stage_builder.py"],
      [("adding stages and building", "StageBuilder.add_stage, StageBuilder.build")],
      "exhaustive enumeration of operation sequences on the real builder against a reference resolver; all runners built are run",
      "model_checking",
      "Complete for the stated shapes up to 4 or 5 operations. The reference resolver is trusted."),
    P("C32", "Names are only names, and the order of the columns only an order",
      "Nothing that an analysis computes depends on what its instances, sources, features and algorithms are called (names that are prefixes of each other, differ by their case only, are numbers, words of the header or have special characters, and equal names of instances included), on whether there are sources, or on the order of the columns, ties aside: with the columns of the algorithms or features in another order, preprocessing, bounding, normalisation, good and best performance, selection by correlation, the analytic projection (up to its sign), the boundary, models with given parameters and the good, hard and space footprints are the same, per algorithm and feature. Bounding, normalisation, good and best performance, the boundary and the footprints do not depend on the order of the instances either.",
      ["inputs", "configurations"],
      "every combination of ways to name things, every order of few columns",
      "The tests use one data set with plain names in one order.",
      ["stages/preprocessing.py", "stages/prelim.py", "stages/pythia.py", "stages/trace.py", "data/metadata.py"],
      [("pipeline and stages", "InstanceSpace.build, Stage._run")],
      "exhaustive enumeration of the namings and column orders on the real pipeline and stages, compared with each other",
      "model_checking",
      "Complete for the stated namings and orders on small data sets; no reference is needed, as executions are compared with each other."),
]
