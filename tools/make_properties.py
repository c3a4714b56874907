"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over.split(), "text": qtext}, why_tests_cant=why,
        anchors={
            "files": files.split(),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        }))


# ---------------------------------------------------------------- system: commands, files, process services
p("C01", "Saving an output file is atomic under crashes, errors and concurrent use",
  "At every instant while cubes are saved to a path, and after the saving process crashes or a file operation fails at any point, the path holds exactly what it held before the save or one complete file that a single successful save produced, never a missing, partial or mixed one. "
  "Saves running at the same time, to the same path or to different paths with similar names, do not disturb each other, and once all saves have returned the path holds the complete content of one that reported success. "
  "A save that fails raises, and repeating it after any earlier crash or failure succeeds with the right content.",
  "schedules crash_points fault_sequences histories",
  "every interleaving of concurrent savers and readers, every position of a crash or I/O error inside a save, every history of earlier crashed or failed saves on the same directory",
  "The only save tests write one file once, without a fault, a crash, a second writer or a reader, and they need iris, so they are not even runnable here.",
  "improver/utilities/save.py improver/cli/__init__.py",
  [("write to a temporary name, then rename onto the target", "improver/utilities/save.py:save_netcdf")],
  [("output path", "the published file", "argument of save_netcdf / --output"), ("temporary file", "in-progress content", "improver/utilities/save.py")],
  ["content of the path after every file-system operation of the save"])

p("C02", "A command that fails publishes nothing and can simply be run again",
  "If a command given an output path fails for any reason before publishing - a missing, truncated or unreadable input, invalid metadata or options, an error or interruption at any point of its processing or of its save - the failure reaches the caller, every output path is left as it was, and no other file is left behind by a failure the process survives. "
  "Running the same command again once the cause is gone gives the same output file as if it had never failed.",
  "crash_points fault_sequences inputs histories",
  "every line of processing at which an exception or interruption can strike, every input-file fault, every invalid metadata or option, alone or followed by a retry in the same process",
  "Command line tests check success output against stored files; none fails a command midway and looks at the output path, the directory and the retry.",
  "improver/cli/__init__.py improver/utilities/save.py improver/metadata/check_datatypes.py improver/utilities/load.py",
  [("result is computed before anything is saved", "improver/cli/__init__.py:with_output"), ("metadata and option checks before the write", "improver/utilities/save.py:save_netcdf")],
  observe=["directory content before and after the command", "exception seen by the caller"])

p("C03", "A saved file always loads back as what was last saved there",
  "After any sequence of saves, overwrites, loads and deferred reads on a set of paths, loading a path gives the cubes most recently saved there: names, units, data type, values (to the requested precision), masks, coordinates with bounds, cell methods and attributes, whatever compression or precision each save asked for and whatever was saved there or elsewhere before. "
  "A cube loaded lazily from a path can be modified and saved back over the same path, and a save changes nothing about the cubes it was given that a later save or use would notice, apart from data it had not read from the file being replaced, putting cell methods into their standard order and dropping a stale precision attribute.",
  "histories inputs configurations",
  "every history of save/overwrite/load/lazy-read operations over several paths, cube kinds, attribute sets and compression settings",
  "Tests save once and reload once; nothing covers histories of overwrites, lists of cubes with different attributes, or saving a lazy cube over its own source.",
  "improver/utilities/save.py improver/utilities/load.py improver/metadata/check_datatypes.py",
  [("per-cube attribute handling and compression options", "improver/utilities/save.py:save_netcdf"), ("per-file load, merge and coordinate ordering", "improver/utilities/load.py")],
  [("files on disk", "the durable state", "paths given to save/load")],
  ["cubes returned by load_cube / load_cubelist"])

p("C04", "A nested command line behaves exactly like running its commands one by one",
  "For every nested command line, each bracketed command runs exactly once, innermost first and left to right, receives exactly the objects its sub-commands returned, and the whole gives the result, output files and first failure that running the commands one at a time through intermediate results would give. "
  "A dry run, or a line with mismatched brackets, executes no command and touches no file; once one command fails no later command runs. "
  "What a command line does depends neither on the command lines run earlier in the process nor on whether verbose, time or memory reporting is switched on, and reporting never changes the result.",
  "programs histories fault_sequences",
  "every nesting of commands, argument objects, output options and reporting switches, with a failing command at any position, and every history of earlier command lines in the same process",
  "The cli tests run a handful of fixed two-level command lines with no failures and fresh expectations; the space of nestings, failures and histories is unbounded.",
  "improver/cli/__init__.py improver/profile.py improver/memprofile.py",
  [("recursive execution of bracketed arguments", "improver/cli/__init__.py:execute_command"), ("bracket parsing", "improver/cli/__init__.py:unbracket"), ("objects carried through the parser as strings", "improver/cli/__init__.py:ObjectAsStr, maybe_coerce_with"), ("output handling", "improver/cli/__init__.py:with_output")],
  observe=["recorded sequence of command invocations and arguments", "return value, output files, exceptions"])

p("C05", "Loading several files yields all of their data, in any order, or an error",
  "Loading a set of files gives a result holding the data of every file exactly once, or raises; a file that is missing, truncated, corrupt or becomes unreadable part way is never silently dropped, duplicated or replaced by another's data. "
  "The order in which the files are named does not change the merged result, and asking for immediate instead of deferred loading changes only when the data are read.",
  "fault_sequences schedules inputs histories",
  "every file set, naming order, and position of a read fault during the load; loads repeated after a fault",
  "Tests load intact files in one order; none injects a read fault or permutes arrival order.",
  "improver/utilities/load.py improver/utilities/cube_manipulation.py",
  [("each file loaded individually, then merged", "improver/utilities/load.py"), ("MergeCubes", "improver/utilities/cube_manipulation.py")],
  observe=["merged cube, exceptions"])

p("C06", "Deferred reading of input data never changes a processing result",
  "For every processing plugin, feeding input data that are still unread (deferred) gives the same result or the same rejection as feeding the same data already in memory, up to floating-point rounding. "
  "If reading the deferred data fails, at any of the reads the processing makes, the failure is raised to the caller at the latest when the result is used, never turned into a silently different result, and repeating the processing once reading works again gives the normal result.",
  "fault_sequences inputs schedules",
  "every plugin workload, every subset of inputs deferred, every chunking, every read at which a fault can strike",
  "Only a few tests use deferred data at all, and none makes a deferred read fail.",
  "improver/__init__.py improver/utilities/load.py improver/utilities/cube_manipulation.py improver/threshold.py improver/blending/weighted_blend.py improver/cube_combiner.py improver/percentile.py",
  [("plugins access data through the cube", "improver/*: BasePlugin.process")],
  observe=["plugin results, exceptions, number and order of reads"])

p("C07", "File comparison passes exactly when the two files agree",
  "Comparing two files reports no difference exactly when they have the same groups, dimensions, variables, data types, attributes (types and values, missing values being equal to each other) and data within tolerance (coordinate data exactly), outside the names explicitly excluded; any single stored difference, at any nesting depth, is reported through the given reporter or raised. "
  "A file that cannot be opened or fails part way through reading never compares as equal, the set of reported differences does not depend on hash ordering or on earlier comparisons, and the compared files are left unchanged.",
  "inputs fault_sequences histories",
  "every pair of files differing by any stored corruption, every read fault position, every hash order, every history of comparisons",
  "The compare tests alter one hand-picked item at a time on one small file; they neither cover arbitrary stored differences nor read faults or set order.",
  "improver/utilities/compare.py improver/cli/compare.py",
  [("recursive dataset comparison with a reporter callback", "improver/utilities/compare.py")],
  observe=["reported messages, exceptions"])

p("C08", "Configuration files are read whole or rejected, and released",
  "Reading a JSON configuration file returns exactly the document stored in it, however the file system splits, delays or interleaves the reads, or raises; a missing, unreadable, truncated or malformed file is never taken for a missing option or a partial document, and only an absent path means no configuration. "
  "The file is closed again in every case, and a document changed by its user or rewritten on disk is not served from an earlier read.",
  "fault_sequences histories inputs",
  "every document, truncation point, short-read pattern, read error position and history of reads, rewrites and modifications",
  "Two tests read one intact file and no file.",
  "improver/utilities/cli_utilities.py improver/cli/__init__.py",
  [("open, parse, close", "improver/utilities/cli_utilities.py:load_json_or_none"), ("converter passing objects through unread", "improver/cli/__init__.py:inputjson")],
  observe=["returned document, exceptions, open handles"])

p("C09", "Memory monitoring always stops, writes its files and never affects the command",
  "Running a command under memory monitoring returns the command's own result or raises its own exception, for every interleaving of the command with the monitor and however short, long or memory-hungry the command is. "
  "When it returns or raises, the monitor has stopped (nothing keeps running or tracing) and, unless the disk refused them, the tracker file is complete and closed and lists strictly increasing maxima covering the last sample, memory having been sampled at the documented short intervals for as long as the command ran, and the snapshot file holds the snapshot taken at the highest recorded maximum.",
  "schedules fault_sequences histories",
  "every interleaving of command and monitor, every memory history, every point at which the command raises, repeated use in one process",
  "No test covers the monitor: its behaviour depends on thread timing that a test run cannot choose.",
  "improver/memprofile.py improver/cli/__init__.py",
  [("monitor thread stopped through a queue and joined", "improver/memprofile.py")],
  [("monitor thread", "samples until told to stop", "improver/memprofile.py:memory_monitor"), ("tracemalloc", "process-wide tracing", "improver/memprofile.py")],
  ["tracker and snapshot files, running threads, tracing state, wrapped result"])

p("C10", "Profiling is dumped exactly once per request, at exit, with the right content",
  "For every history of profiled command lines in a process, each profiling request produces exactly one report when the process exits normally, after a failed command included - written to the file it named or to the standard error stream when none was named - and nothing before exit. "
  "The report covers the work done from the request until exit or the next request, profiling stops when it is reported, and profiling never changes the result or the failure of a command.",
  "histories fault_sequences",
  "every history of profiled and unprofiled, failing and succeeding command lines, followed by process exit, with write errors on some reports",
  "No test covers the exit hook; it needs whole-process histories.",
  "improver/profile.py improver/cli/__init__.py",
  [("exit hook registered per request", "improver/profile.py:profile_hook_enable")],
  [("exit hooks", "pending reports", "improver/profile.py")],
  ["exit hooks registered and run, report files, profiler state"])

p("C11", "Process-wide settings are as they were after any call, however it ends",
  "Any plugin call, command, load, save or output redirection leaves the process-wide settings as it found them - standard streams, floating-point error handling, warning filters, environment, working directory, locale of numeric parsing, recursion limit, default number formatting, netCDF/iris behaviour switches - whether it returns, is rejected, or fails in any of the calls or file operations it makes, and however such calls are nested. "
  "Output redirection sends everything printed inside it, and nothing printed outside it, to its target.",
  "crash_points histories fault_sequences",
  "every plugin workload and redirection nesting, every line at which an error or interruption can strike",
  "No test looks at process-wide state after a failure.",
  "improver/utilities/redirect_stdout.py improver/cli/__init__.py improver/calibration/utilities.py improver/utilities/interpolation.py improver/nowcasting/pysteps_advection.py",
  [("context managers restoring the previous setting", "improver/utilities/redirect_stdout.py; np.errstate and warnings.catch_warnings uses")],
  observe=["snapshot of process-wide settings before and after the call"])

p("C12", "A suite of commands rerun after crashes ends with the crash-free outputs",
  "Take any suite of commands linked by files, in any dependency-respecting execution order, with any number of crashes, I/O errors and reruns of commands at arbitrary points, and steps running concurrently: once faults stop and every step has succeeded, each output file equals the one an undisturbed sequential run produces. "
  "No step ever starts successfully from a partially written input.",
  "crash_points fault_sequences schedules histories",
  "every dependency-respecting order, crash and error position, and rerun history of multi-step processing suites",
  "Tests run single commands to completion; restarts of a chain are never exercised.",
  "improver/cli/__init__.py improver/utilities/save.py improver/utilities/load.py improver/cli/threshold.py improver/cli/weighted_blending.py improver/cli/nbhood.py improver/cli/generate_percentiles.py improver/cli/combine.py",
  [("commands are functions of their input files; outputs appear by rename", "improver/cli, improver/utilities/save.py")],
  [("files between steps", "the only durable state", "suite directory")],
  ["final content of every output file"])

# ---------------------------------------------------------------- determinism and nondeterminism sources
p("D01", "Seeded randomness is reproducible and isolated from other random use",
  "Every operation that takes a random seed gives identical results for identical seed and inputs, whatever other random numbers were drawn before, between or concurrently in the process, however often it is repeated, and for inputs with any number of leading slices. "
  "A seeded operation neither reads nor disturbs the process-wide random stream, and operations that involve no randomness give the same results for every state of that stream and do not consume it (identifiers that third-party libraries draw for themselves aside).",
  "histories schedules inputs",
  "every seed, history and interleaving of global random draws, repetition count and input shape; every plugin workload for the no-randomness part",
  "Tests fix one seed and one call; they cannot show independence from the surrounding stream.",
  "improver/ensemble_copula_coupling/ensemble_copula_coupling.py improver/ensemble_copula_coupling/utilities.py improver/calibration/ensemble_calibration.py improver/cli/apply_emos_coefficients.py improver/cli/generate_realizations.py",
  [("private RandomState built from the seed", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:EnsembleReordering.rank_ecc")],
  [("global random stream", "process-wide", "numpy.random")],
  ["results, state of the global random streams"])

p("D02", "Reordered ensembles keep calibrated values and raw ranks for any random draw",
  "For every random stream and every pattern of ties, reordering a calibrated forecast by a raw ensemble returns at each point exactly the calibrated values of that point, permuted so that wherever raw member i is below raw member j the result for i is not above that for j, and ties are resolved by the random draw alone. "
  "Masked points, dimensions and all metadata other than the realization coordinate are those of the calibrated forecast, and neither input's values change.",
  "inputs histories",
  "every random stream, tie pattern, mask, ensemble size and number of leading slices",
  "Tests use small fixed arrays with a fixed seed and accept listed orderings; the guarantee is for every draw.",
  "improver/ensemble_copula_coupling/ensemble_copula_coupling.py",
  [("argsort of raw ranks with random tie-breaking", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:EnsembleReordering")],
  observe=["per-point multiset and ordering of the result"])

p("D03", "Results do not depend on the wall clock or the time zone",
  "Apart from creation time stamps written to history attributes, every plugin result is the same whatever the system clock shows, however it jumps forwards or backwards during the call, and whatever the local time zone is. "
  "History stamps are the correct UTC time of some instant during the call, in the documented form, in every time zone and across clock jumps.",
  "configurations schedules inputs",
  "every clock value, clock jump at any clock read, and local time zone, for every plugin workload and time conversion",
  "Tests run at one real time in one zone (UTC).",
  "improver/metadata/amend.py improver/utilities/temporal.py improver/metadata/forecast_times.py improver/utilities/solar.py improver/generate_ancillaries/generate_derived_solar_fields.py",
  [("explicit UTC conversion of datetimes", "improver/utilities/temporal.py, improver/metadata/amend.py")],
  [("clock and zone", "process environment", "datetime/time modules")],
  ["plugin results under different clocks and zones; history attributes"])

p("D04", "Results do not depend on hash-based iteration order",
  "For identical inputs every plugin and command gives identical results - data, coordinate order, attribute values, cell methods, messages of rejection aside - whatever order the interpreter iterates over sets of strings, cubes or coordinates. "
  "Two processes started with different hash seeds therefore produce identical output files.",
  "schedules inputs",
  "every iteration order of every set formed during processing, for every plugin workload",
  "A test process sees one hash order; a result that depends on it passes until the seed changes.",
  "improver/utilities/cube_manipulation.py improver/categorical/decision_tree.py improver/categorical/utilities.py improver/categorical/modal_code.py improver/blending/utilities.py improver/standardise.py improver/cube_combiner.py",
  [("sorting before use, or order-insensitive use, of sets", "throughout")],
  observe=["plugin results under permuted set orders"])

p("D05", "Parallel kernels give the serial answer under every iteration schedule",
  "The interpolation kernels declared to run their iterations in parallel give, for every order in which the iterations run, the result of running them in sequence, and the accelerated kernels agree with the plain fallback used when acceleration is unavailable. "
  "Concurrent calls of such kernels do not affect each other.",
  "schedules inputs",
  "every order of parallel iterations and every input shape, mask and missing-value pattern",
  "The compiler library is not installed in the test environment, so these kernels are never run at all, and a real run uses whatever schedule occurs.",
  "improver/ensemble_copula_coupling/numba_utilities.py improver/ensemble_copula_coupling/utilities.py improver/ensemble_copula_coupling/ensemble_copula_coupling.py",
  [("independent iterations in numba prange loops", "improver/ensemble_copula_coupling/numba_utilities.py")],
  observe=["kernel results under permuted iteration orders"])

# ---------------------------------------------------------------- shared state in one process
p("S01", "A result depends only on settings and inputs, not on earlier calls",
  "Calling a processing plugin or a library function gives the result a newly started process would give for the same settings and input, whatever was processed before in this process by the same instance, by other instances or by other plugins and functions, including calls that were rejected and calls whose input differed only in its values. "
  "Repeating a call on the same instance repeats its result, and modifying a returned result or an earlier input does not change later results.",
  "histories inputs",
  "every history of calls (successful and rejected, same and different instances, same objects with changed values) for every plugin workload",
  "Each unit test makes a fresh instance and one call, so leftover state, memo tables and aliased results are never observed.",
  "improver/__init__.py improver/psychrometric_calculations/psychrometric_calculations.py improver/regrid/landsea.py improver/regrid/bilinear.py improver/wind_calculations/wind_direction.py improver/calibration/reliability_calibration.py improver/nbhood/nbhood.py improver/threshold.py improver/nowcasting/optical_flow.py",
  [("per-call computation; memo tables keyed by everything they depend on", "improver/psychrometric_calculations/psychrometric_calculations.py:_svp_table, improver/regrid/landsea.py")],
  [("memo tables and instance attributes", "survive between calls", "plugin instances, functools caches")],
  ["plugin results compared with a pristine process"])

p("S02", "A call interrupted anywhere can be repeated with the normal result",
  "If a call of a plugin or library function is interrupted by an error, memory exhaustion or a user interrupt at any point inside the processing code, a repeat of the call on the same instance with freshly read inputs gives the normal result, and so does every other plugin or function used afterwards in the process. "
  "The interruption itself reaches the caller and is never converted into a normal-looking but different result.",
  "crash_points histories",
  "every line of processing code at which an exception can strike, for every plugin workload, alone or repeatedly",
  "No test interrupts processing and reuses the instance.",
  "improver/__init__.py improver/threshold.py improver/nbhood/nbhood.py improver/calibration/ensemble_calibration.py improver/calibration/reliability_calibration.py improver/categorical/decision_tree.py improver/wind_calculations/wind_direction.py",
  [("state is set before use on every call; caches are filled only with complete values", "throughout")],
  [("instance attributes and memo tables", "partially updated at the interruption", "plugin instances")],
  ["result of the repeated call"])

p("S03", "Independent calls in concurrent threads give their serial results",
  "Threads that each use their own plugin instances, or library functions, on their own data obtain, for every interleaving, exactly the result or rejection each would obtain alone. "
  "No call deadlocks or fails only because another call is in progress, and the first, simultaneous use of lazily loaded parts of the package works like any later use.",
  "schedules inputs",
  "every interleaving, at source-line granularity, of concurrent calls from different threads over all plugin workloads and lazy package attributes",
  "Tests are single threaded.",
  "improver/__init__.py improver/api/__init__.py improver/psychrometric_calculations/psychrometric_calculations.py improver/regrid/landsea.py improver/calibration/utilities.py",
  [("no shared mutable module state apart from memo tables", "throughout")],
  [("module-level tables and caches", "shared by all threads", "improver/psychrometric_calculations/psychrometric_calculations.py:_svp_table; improver/api/__init__.py")],
  ["per-thread results"])

p("S04", "Processing leaves its input data and configuration as they were",
  "Apart from operations documented or designed to work in place, no call of a plugin or library function changes the values, masks, coordinates, names, attributes or cell methods of the cubes and arrays it was given (re-expressing an input in equivalent units, data type or order of dimensions, and marking a returned input as post-processed, aside), nor the lists and dictionaries of settings passed to it, whether the call succeeds, is rejected or fails part way. "
  "The caller can therefore hand the same input object to several steps in any order and always obtain the results separate copies would have given.",
  "histories inputs schedules",
  "every plugin workload, followed by any other use of the same input objects, in any order",
  "Tests rebuild their inputs for every case, so input modification goes unseen.",
  "improver/__init__.py improver/utilities/cube_manipulation.py improver/calibration/reliability_calibration.py improver/blending/weighted_blend.py improver/cube_combiner.py improver/lapse_rate.py improver/categorical/decision_tree.py",
  [("copy before modification", "throughout")],
  [("caller's cubes", "shared between steps", "plugin arguments")],
  ["fingerprints of inputs before and after calls"])

# ---------------------------------------------------------------- data arriving out of order, late, duplicated or not at all
p("F01", "Forecasts are paired with the truth of their own time, whatever arrives",
  "However historical forecasts and observations arrive - in any order, with some times missing on either side or delivered twice - pairing returns exactly the times present on both sides, each forecast matched with the truth of the same validity time in the same order, with values untouched, or raises when nothing matches. "
  "Calibration statistics derived from the pairs are therefore the same for every arrival order.",
  "schedules fault_sequences inputs",
  "every arrival order, loss and duplication pattern of forecast and truth messages",
  "Tests use one ordered set with at most one time missing.",
  "improver/calibration/utilities.py improver/calibration/__init__.py improver/calibration/reliability_calibration.py improver/calibration/simple_bias_correction.py improver/utilities/cube_manipulation.py",
  [("time-constraint matching and merge", "improver/calibration/utilities.py:filter_non_matching_cubes"), ("splitting of mixed inputs", "improver/calibration/__init__.py:split_forecasts_and_truth")],
  observe=["paired cubes, bias tables"])

p("F02", "Reliability statistics are additive: no pair is lost or counted twice",
  "Reliability tables account for every valid forecast-truth pair exactly once, and building one table from all pairs equals aggregating tables built from any partition of the pairs, grouped and ordered in any way, including tables aggregated in stages; masked pairs are counted nowhere. "
  "Aggregating tables whose forecast periods or cycles overlap, so that pairs would be counted twice, is rejected.",
  "schedules histories inputs fault_sequences",
  "every partition, order and staging of aggregation, every duplicate delivery, every mask pattern",
  "Tests aggregate two fixed tables once.",
  "improver/calibration/reliability_calibration.py",
  [("bin counting", "improver/calibration/reliability_calibration.py:ConstructReliabilityCalibrationTables"), ("summation and overlap check", "improver/calibration/reliability_calibration.py:AggregateReliabilityCalibrationTables")],
  observe=["table data, total counts, exceptions"])

p("F03", "Blending uses whatever models arrive, in any order, with weights summing to one",
  "Blending a set of inputs along model, cycle or realization gives a weighted mean lying within the range of the inputs at each point, equal to the input when all inputs are equal, using weights that are renormalised over the inputs that actually arrived. "
  "With weights that do not go by place in the list, the order in which inputs arrive, or their being handed over as separate or merged cubes, does not change the result; a lost input changes it only as removing that input and renormalising would; and a single input blends to itself.",
  "schedules fault_sequences inputs",
  "every subset and arrival order of inputs, every weighting method and missing-data pattern",
  "Tests blend complete, ordered inputs.",
  "improver/blending/calculate_weights_and_blend.py improver/blending/weighted_blend.py improver/blending/weights.py improver/blending/spatial_weights.py improver/blending/blend_across_adjacent_points.py",
  [("weights calculated from the merged inputs and normalised", "improver/blending/weights.py, improver/blending/weighted_blend.py")],
  observe=["blended values and metadata"])

p("F04", "Merging and combining inputs does not depend on their arrival order",
  "Merging compatible cubes, and combining cubes by sum, mean, maximum, minimum or similar order-free operations or over a time window, gives the same data, mask and coordinates for every arrival order and uses every input given exactly once; inputs that are incompatible, and when merging duplicates, are rejected in every order. "
  "Order-sensitive operations (difference, first cube as template) depend only on the documented first input and not on the order of the rest.",
  "schedules inputs fault_sequences",
  "every permutation and duplication of the inputs",
  "Tests use one order.",
  "improver/utilities/cube_manipulation.py improver/cube_combiner.py improver/utilities/time_lagging.py improver/blending/weighted_blend.py",
  [("MergeCubes, CubeCombiner, MaxInTimeWindow", "improver/utilities/cube_manipulation.py, improver/cube_combiner.py")],
  observe=["merged and combined cubes"])

p("F05", "A time-lagged ensemble contains every member of every arriving cycle once",
  "Building a time-lagged ensemble from any set of cycles valid at the same time gives an ensemble with exactly the members of all cycles that arrived, values unchanged, uniquely numbered, labelled with the latest cycle and its forecast period, whatever the arrival order and whichever cycles are missing. "
  "Cycles valid at other times are rejected in every order.",
  "schedules fault_sequences inputs",
  "every set, order and loss pattern of cycles and member counts",
  "Tests use two fixed cycles.",
  "improver/utilities/time_lagging.py improver/metadata/forecast_times.py improver/utilities/cube_manipulation.py",
  [("renumbering and merge", "improver/utilities/time_lagging.py"), ("latest-cycle relabelling", "improver/metadata/forecast_times.py")],
  observe=["member multiset, time coordinates"])

p("F06", "Inputs are recognised by what they are, not by where they appear",
  "When a command receives a mixed collection of inputs - forecasts, truths, coefficients, masks, bias files, templates, weather diagnostics - each is identified by its own metadata and the outcome (result or rejection) is the same for every order in which they are supplied. "
  "A missing mandatory input, or one too many of a kind, is rejected in every order, never silently replaced by another input.",
  "schedules fault_sequences inputs",
  "every permutation, omission and duplication of the supplied inputs",
  "Tests supply one order and a few omissions.",
  "improver/calibration/__init__.py improver/categorical/decision_tree.py improver/utilities/flatten.py improver/utilities/cube_checker.py improver/utilities/forecast_reference_enforcement.py",
  [("splitting by name and attributes", "improver/calibration/__init__.py"), ("diagnostic lookup by name", "improver/categorical/decision_tree.py:check_input_cubes")],
  observe=["identified inputs, results, exceptions"])

p("F07", "The decision tree gives each point one category from what diagnostics arrived",
  "For every set of diagnostics that arrives, in any order, a categorical forecast either is rejected, naming what is missing, or assigns to every point exactly the category that following the tree by hand at that point gives, taking the documented alternative branch where an optional diagnostic is missing; only a point at which a diagnostic on its path is masked is left without a category. "
  "Supplying extra, repeated or reordered diagnostics, or having categorised other sets with the same plugin before, changes nothing.",
  "schedules fault_sequences inputs configurations",
  "every tree, arrival order, loss pattern of diagnostics, and pattern of values and masks",
  "Tests follow a few fixed trees and points.",
  "improver/categorical/decision_tree.py improver/categorical/utilities.py",
  [("route finding and condition evaluation", "improver/categorical/decision_tree.py:ApplyDecisionTree")],
  observe=["category at each point against a point-wise interpreter of the tree"])

p("F08", "Cycle relabelling always yields the latest cycle and consistent forecast periods",
  "Unifying or relabelling a set of forecasts to a common cycle gives every forecast the requested (or else latest) cycle time, a forecast period equal to validity time minus cycle time, and unchanged validity times and data, whatever the order in which cycles arrive and however late. "
  "Relabelling to a cycle after the validity time warns or fails as documented and never yields an inconsistent set.",
  "schedules inputs histories",
  "every arrival order and set of cycles, repeated relabelling included",
  "Tests relabel one or two cubes.",
  "improver/metadata/forecast_times.py improver/blending/utilities.py",
  [("unify_cycletime, rebadge_forecasts_as_latest_cycle", "improver/metadata/forecast_times.py")],
  observe=["time coordinates of the returned cubes"])

# ---------------------------------------------------------------- not claimed: pure functions of their inputs
NA = "Every quantity is a pure function of the input arrays: there is no schedule, clock, fault, shared state or arrival order in the statement."
p("N01", "Probabilities are valid and monotonic across thresholds",
  "Thresholding, neighbourhood averaging and conversions between probabilities, percentiles and realizations give probabilities within [0, 1] that are monotonic across thresholds, and percentiles that increase with percentage.",
  "inputs", "all inputs", NA, "improver/threshold.py improver/nbhood/nbhood.py improver/ensemble_copula_coupling/ensemble_copula_coupling.py", [("threshold comparison and conversion arithmetic", "improver/threshold.py")])
p("N02", "Neighbourhood values use exactly the points within the radius",
  "Each neighbourhood result equals the aggregate of precisely the unmasked points inside the requested radius and shape.",
  "inputs", "all fields, masks and radii", NA, "improver/nbhood/nbhood.py improver/utilities/neighbourhood_tools.py", [("rolling windows", "improver/utilities/neighbourhood_tools.py")])
p("N03", "Physical calculations satisfy their governing relations",
  "Wet-bulb temperature, saturation pressure, phase levels, wind, lapse-rate and solar calculations satisfy their defining equations and physical bounds.",
  "inputs", "all physically valid inputs", NA, "improver/psychrometric_calculations/psychrometric_calculations.py improver/psychrometric_calculations/wet_bulb_temperature.py improver/lapse_rate.py improver/wind_calculations/wind_downscaling.py", [("numerical formulae", "improver/psychrometric_calculations")])
p("N04", "Calibration fits minimise their objective",
  "Fitted distribution parameters minimise the stated score over the training data.",
  "inputs", "all training sets", NA, "improver/calibration/ensemble_calibration.py", [("numerical minimisation", "improver/calibration/ensemble_calibration.py")])
p("N05", "Regridding interpolates and respects land-sea matching",
  "Regridded values are the stated interpolation of source points of matching surface type.",
  "inputs", "all grids and masks", NA, "improver/regrid/bilinear.py improver/regrid/nearest.py improver/regrid/landsea.py", [("index and weight computation", "improver/regrid")])
p("N06", "Advection moves fields by the velocity times the interval",
  "Extrapolated fields are the input displaced by the advection velocities over the requested interval, masked where no source exists.",
  "inputs", "all fields and velocities", NA, "improver/nowcasting/forecasting.py improver/nowcasting/optical_flow.py", [("semi-Lagrangian remapping", "improver/nowcasting/forecasting.py")])
p("N07", "Outputs carry standard units, data types and metadata",
  "Every output has the documented name, units, 32-bit data types and coordinate types.",
  "inputs", "all inputs", NA, "improver/metadata/check_datatypes.py improver/metadata/utilities.py improver/standardise.py", [("metadata checks and enforcement", "improver/metadata")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = "/repo"
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        for f in q["anchors"]["files"]:
            assert os.path.exists(os.path.join(repo, f)), (q["id"], f)
        n = q["statement"].count(". ") + 1
        assert n <= 3, (q["id"], n)
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P))
