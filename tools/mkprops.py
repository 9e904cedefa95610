"""Regenerates /verif/properties.jsonl (kept in one place so that ids, titles and anchors stay in step)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Every event line becomes exactly one row in its own event's table",
  "For any trace file and any selection of events, each trace line that carries a selected event's unique word yields exactly one row, in that event's table and in no other, holding that line's task name, PID, CPU and position in the file (`__comm`, `__pid`, `__cpu`, `__line`), with rows in file order. Lines that match no selected event yield no row. The catch-all table for user-space markers (`tracing_mark_write`) receives a line only when no more specific selected event matches it.",
  ["inputs", "configurations"], "every mix, order and number of event lines (task names with spaces, dashes, brackets; optional TGID and flags columns; any CPU/PID), every scope and every explicit event list",
  "tests parse a dozen fixed files with one or two lines per event; a lost, duplicated or misfiled row for another order, task name or event mix is never seen",
  ["trappy/ftrace.py", "trappy/base.py", "trappy/bare_trace.py", "trappy/fallback.py"],
  [("line recogniser and special fields", "trappy/ftrace.py SPECIAL_FIELDS_RE"), ("dispatch by unique word, fallback last", "trappy/ftrace.py GenericFTrace parse loop"), ("append and frame creation", "trappy/base.py Base.append_data/create_dataframe")],
  ["FTrace(...).<event>.data_frame"])

p("C02", "Timestamps are unique, ordered and in seconds, from one common origin",
  "Whatever timestamps the file carries (seconds with decimals or integer nanoseconds; repeated; going backwards), the rows of all events together have pairwise distinct times that strictly increase in file order: a line's time is the file's value when that is later than the previous line's time, and otherwise the next representable number after the previous line's time. With time normalisation every table's index is that time minus the time of the first trace line; without it, the time itself. The trace's reported base time, end time and duration agree with those times.",
  ["inputs", "configurations"], "every sequence of timestamps (ties, long tie runs, reversals, both clock formats, large uptimes) over any interleaving of events, with and without normalisation",
  "tests check a handful of timestamps in two files; ties across different events, long runs of ties and reversals are inputs they never draw",
  ["trappy/ftrace.py", "trappy/base.py", "trappy/bare_trace.py", "trappy/utils.py"],
  [("nextafter bump", "trappy/ftrace.py parse loop"), ("time normalisation", "trappy/base.py Base.normalize_time"), ("duration", "trappy/bare_trace.py BareTrace.get_duration")],
  ["data_frame.index", "basetime", "endtime", "get_duration()"])

p("C03", "Payload fields are decoded without loss",
  "For any payload made of `key=value` fields, each row of the event's table holds, for each field, the integer when the text is an integer literal (decimal, or 0x/0o/0b prefixed) and otherwise exactly the text, including further '=' characters and further words of a multi-word text value joined by single spaces. An array `key={a b c}` becomes `key0`, `key1`, ... with missing trailing elements 0 up to the longest array of that name in the trace, and an empty array contributes no text value. A field absent from a line is a missing value in that row and never affects other rows.",
  ["inputs"], "every payload over keys, integers of any size, hexadecimal and non-numeric text, multi-word values, embedded '=', and arrays of varying length, in any order across the lines of an event",
  "tests check about fifteen literal payloads; the combination space (rows with different key sets, arrays appearing only in later rows, empty arrays at the end of line) is unbounded",
  ["trappy/base.py", "trappy/ftrace.py"],
  [("field splitting and concatenation", "trappy/base.py Base.generate_data_dict"), ("array explosion", "trappy/base.py trace_parser_explode_array"), ("empty array removal", "trappy/ftrace.py parse loop")],
  ["data_frame columns and cells"])

p("C04", "Time windows are inclusive filters of the full trace",
  "Parsing with a relative `window`, an absolute `abs_window` or both gives, for every event, exactly the rows of the unwindowed parse whose time lies in the intersection of the windows, both ends included, and with unchanged values and times. An open end keeps everything on that side. This holds with and without normalisation and whether or not the trace is read from cache.",
  ["inputs", "configurations"], "every window pair (on, between and outside event times; open ended; empty intersection) over every trace",
  "tests use a few fixed windows on one or two files and never combine both kinds with both ends set",
  ["trappy/ftrace.py"],
  [("window intersection", "trappy/ftrace.py GenericFTrace window computation"), ("slicing", "trappy/ftrace.py GenericFTrace window application")],
  ["FTrace(window=, abs_window=).<event>.data_frame"])

p("C05", "Headers, noise and undecodable lines never disturb other events",
  "Header lines before the trace, blank lines, lines of unknown events and non-trace lines (dropped-event notices, free text) do not change the values of any row produced for other lines; rows of a trace with such noise equal the rows of the same trace without it, apart from the line counter. A payload marked by trace-cmd as `[FAILED TO PARSE]` keeps the fields that can be read; a payload in which no field can be recognised is reported as an error naming the event rather than silently dropped. The trace header's `version` and `cpus` values are reported when present.",
  ["inputs"], "every placement and kind of noise in every trace, missing or present headers, missing final newline, empty traces",
  "tests have one fixed file per kind of noise, each with a single position",
  ["trappy/ftrace.py", "trappy/base.py", "trappy/exception.py"],
  [("skip until first trace line", "trappy/ftrace.py trace_hasnt_started"), ("FAILED TO PARSE handling", "trappy/base.py Base.generate_data_dict"), ("metadata scan", "trappy/ftrace.py header metadata")],
  ["data_frame", "warnings", "exceptions", "trace._version/_cpus"])

p("C06", "Event-specific formats are decoded as their events define",
  "Each built-in event with its own line format is decoded to its documented columns: sched_switch (previous and next task around `==>`), sys_enter (call number and six hexadecimal arguments) and sys_exit, clock events (`clk_name` first, `state` as `rate` for clock_set_rate), ext4 (`name value` pairs) and f2fs (`name = value` lists, `ino` as `inode`, checkpoint text), cpu_idle (4294967295 as -1), cpu_frequency/cpu_capacity (`cpu`, `frequency`/`capacity`), and group load (CPU masks as zero padded 8 digit text). The decoded values equal those in the line for every line of the event.",
  ["inputs"], "every field value of every such event, in any number and order of lines",
  "one literal line per event is tested, several events (sys_enter arguments, f2fs variants, masks wider than 8 digits) barely at all",
  ["trappy/sched.py", "trappy/raw_syscalls.py", "trappy/common_clk.py", "trappy/filesystem.py", "trappy/idle.py", "trappy/cpu_power.py", "trappy/devfreq_power.py"],
  [("per event generate_data_dict/finalize_object/create_dataframe overrides", "trappy/*.py event classes")],
  ["FTrace(...).<event>.data_frame"])

p("C07", "The parse cache never changes what a trace contains",
  "Over any history of parses of a trace file with different scopes, event lists, windows, names and normalisation, of changes to the file's content, and of event registrations, each parse with caching enabled yields the same tables (rows, columns, times and values, including text that looks like a number), header values, base and end times as a parse without caching of the file as it is then. With caching disabled no cache is written or read.",
  ["histories", "configurations", "inputs"], "every sequence of parses, file changes, cache entry deletions and (un)registrations, over every trace",
  "tests cover two parses of one file and compare four columns of one event",
  ["trappy/ftrace.py", "trappy/base.py"],
  [("cache validity by content hash", "trappy/ftrace.py cache validation"), ("CSV write and read", "trappy/base.py Base.write_csv/read_csv"), ("partial cache completion", "trappy/ftrace.py cache update")],
  ["data_frame of cached and uncached parses", "files under the cache directory"])

p("C08", "No crash, fault or damage of the cache can make a parse wrong",
  "If a parse is killed at any point while it writes the cache, if writing fails (disk full, no permission), or if any cache file is truncated, emptied, deleted or damaged metadata is found, a later parse of the trace still completes and yields the same tables as a parse without a cache. A parse that cannot write its cache still returns the complete trace.",
  ["crash_points", "fault_sequences"], "a kill before or after every file-system operation of a caching parse and inside every write, every failing write, and every single damaged or missing cache file",
  "tests never interrupt a parse and damage only the stored checksum",
  ["trappy/ftrace.py", "trappy/base.py"],
  [("order of metadata and table writes", "trappy/ftrace.py cache update"), ("tolerating unreadable tables", "trappy/ftrace.py cache load")],
  ["data_frame of the parse after the fault", "files under the cache directory"])

p("C09", "Concurrent parses of one trace are all correct",
  "When several processes parse the same trace file at the same time with caching enabled, starting with or without a cache and with any scopes, every one of them completes and yields the same tables as a parse without a cache, and so does any later parse.",
  ["schedules"], "every interleaving of the file-system operations of concurrent parses",
  "the test suite is single process",
  ["trappy/ftrace.py", "trappy/base.py"],
  [("cache directory replacement", "trappy/ftrace.py cache preparation"), ("per table files", "trappy/base.py Base.write_csv")],
  ["data_frame in each process"])

p("C10", "Systrace pages yield the events of their trace section, and only those",
  "For any Android systrace HTML page (legacy or current layout), exactly the lines inside the trace data section are parsed, with the same rows a plain text trace with those lines gives; nothing before it or after its closing tag counts. Each user-space marker `B|pid|name`, `E`, `C|pid|name|value` and the like becomes a row with its event letter, PID, name and value, absent parts missing; other marker text is kept as text. The CPU count is one more than the highest CPU seen in task switches.",
  ["inputs", "configurations"], "every page layout, position of the section, trace content and marker form",
  "tests have three fixed pages",
  ["trappy/systrace.py", "trappy/fallback.py", "trappy/ftrace.py"],
  [("section detection", "trappy/systrace.py drop_before_trace and end test"), ("marker decoding", "trappy/systrace.py SysTrace.generate_data_dict")],
  ["SysTrace(...).<event>.data_frame", "_cpus"])

p("C11", "Event selection and registration determine exactly which tables exist",
  "A trace object has a table for each event of the requested scope plus each explicitly requested event (known by its name or unique word, or otherwise created for it), and for no other; registering an event adds it to its scope for later parses and unregistering removes it, without affecting other events or existing trace objects. Unique words that contain one another are refused at parse time. Asking a trace for an event by its unique word instead of its name raises an error that names the right attribute.",
  ["histories", "configurations"], "every history of registrations, removals and parses over scopes and event lists",
  "tests register one or two events in fresh processes and never check leakage between traces or scopes",
  ["trappy/ftrace.py", "trappy/dynamic.py", "trappy/bare_trace.py", "trappy/base.py"],
  [("scope registries", "trappy/ftrace.py register_parser/unregister_parser"), ("explicit events", "trappy/ftrace.py event list handling"), ("unique word check", "trappy/ftrace.py GenericFTrace.__init__")],
  ["class_definitions", "get_filters()", "attributes of the trace object"])

p("C12", "Callbacks see every selected event exactly once, in trace order",
  "`apply_callbacks` calls, for every row of every event given, that event's function exactly once, over all events in the order of the lines in the trace file (rows of events added to the trace from elsewhere come at their time), passing the row's time as `Index` and every column with the value in the table. Empty events are skipped and the trace is unchanged.",
  ["inputs", "configurations"], "every trace and every subset of events, including single-row and empty ones, after windowing and from cache",
  "tests check one order on one fixed trace",
  ["trappy/ftrace.py"],
  [("merge of row iterators by line", "trappy/ftrace.py GenericFTrace.apply_callbacks")],
  ["sequence of callback invocations"])

p("C13", "Externally parsed events behave like trace events",
  "After any sequence of additions of tables to a bare trace, each is available under its name with its data and pivot, appears exactly once in the list of filters, takes part in the duration (latest last time minus earliest first time over non-empty tables, 0 if none) and in plots and expressions; a name already in use is refused and leaves the trace unchanged. Filter listing with a key returns exactly the names in which the key, a regular expression, is found.",
  ["histories", "inputs"], "every sequence of additions, with empty and overlapping tables and clashing names",
  "tests add one or two tables to one object",
  ["trappy/bare_trace.py", "trappy/dynamic.py"],
  [("add_parsed_event", "trappy/bare_trace.py"), ("get_duration, get_filters", "trappy/bare_trace.py")],
  ["attributes, get_filters(), get_duration()"])

p("C14", "Grammar expressions evaluate as documented over super-indexed data",
  "For any expression over event columns, numbers, variables and functions, the value equals that of the documented operators with their documented precedence and associativity (exponentiation, unary, multiply/divide, add/subtract, comparison, logical; parentheses override) applied to the columns. Columns of different events are first put on the union of their times, each value carried forward until the next one (or filled as `method`, `limit` and `fill` say), and no value is taken from a later time when padding.",
  ["programs", "inputs", "configurations"], "every expression of the grammar over every combination of tables with distinct sampling times and pivots",
  "about twenty fixed expressions on one trace are tested, mostly of one or two operators",
  ["trappy/stats/grammar.py"],
  [("operator table and evaluation", "trappy/stats/grammar.py"), ("super-indexing", "trappy/stats/grammar.py Parser")],
  ["Parser.solve()"])

p("C15", "Grammar data accessors select exactly the requested data",
  "For any pivot, window and filters, an accessor `event:column` yields one column per pivot value holding exactly the rows of that event whose time lies in the window (both ends included) and whose columns match the filters (single values or lists; filters on absent columns are ignored), under any of the ways to name the event (name, alias variable, class path). `inspect` reports the length, pivot values and column presence of that same data, and `ref` returns the rows of the aggregated data where a mask is true. An accessor without data is reported as an error.",
  ["inputs", "configurations"], "every window, filter set, pivot and event naming over every table",
  "tests use one window and two filters on one trace",
  ["trappy/stats/grammar.py"],
  [("window and filter application", "trappy/stats/grammar.py Parser"), ("pivoting", "trappy/stats/grammar.py Parser")],
  ["Parser.solve()", "Parser.inspect()", "Parser.ref()"])

p("C16", "Triggers and aggregation account for every matching event once",
  "A trigger yields, for a pivot value, exactly the rows of its event with that pivot value that pass all filters (a value, any of a list of values, or a predicate), carrying the trigger's constant or the named column. Aggregating a list of triggers over a topology level gives, for each group in order, the sum over the group's nodes of the aggregation function applied to the node's series on the union of the trigger times (later triggers override at equal times, 0 elsewhere). Repeating an aggregation gives the same result.",
  ["inputs", "histories", "configurations"], "every set of triggers, filters, topologies, levels and sequence of aggregate calls",
  "two tests with one trigger type each, a single aggregate call, aggregation by a scalar function only",
  ["trappy/stats/Trigger.py", "trappy/stats/Aggregator.py", "trappy/stats/Indexer.py"],
  [("trigger filtering", "trappy/stats/Trigger.py"), ("group aggregation", "trappy/stats/Aggregator.py"), ("index unification", "trappy/stats/Indexer.py")],
  ["Trigger.generate()", "MultiTriggerAggregator.aggregate()"])

p("C17", "A topology keeps exactly the groups it was given",
  "After any sequence of additions of groups to levels, each level lists exactly the groups added to it in order, lookups by index and by group are inverse to each other, the number of groups reported for a level is the length of its list, `all` is one group of all nodes, the flattened list has every node once, and cluster input also defines one group per CPU. Topologies share no levels with each other or with the lists of groups they were built from.",
  ["histories", "inputs"], "every sequence of additions over several topologies and levels",
  "a few fixed topologies with one addition per level",
  ["trappy/stats/Topology.py"],
  [("add_to_level, get_level, flatten, level_span", "trappy/stats/Topology.py")],
  ["Topology methods"])

p("C18", "Correlation aligns, resamples and scores as defined",
  "Resampling a series puts it on a uniform grid over the union of both aggregations' times with the last value carried forward; aligning two series shifts one of them by the offset between their first (or last) non-zero samples so that those coincide. Two identical signals correlate to 1 at every level, the correlation is unchanged by a scaling of one signal, a shift of an isolated signal by whole grid steps is undone, and the total is the mean of the group correlations weighted by their non-zero samples. Repeated calls give the same result.",
  ["inputs", "histories"], "every pair of signals, topologies and levels and sequence of calls",
  "the module has no tests",
  ["trappy/stats/Correlator.py", "trappy/stats/Indexer.py"],
  [("align/shift_series", "trappy/stats/Correlator.py"), ("Correlator.correlate", "trappy/stats/Correlator.py"), ("unified and uniform index", "trappy/stats/Indexer.py")],
  ["align()", "shift_series()", "Correlator.correlate()", "Indexer.get_uniform()"])

p("C19", "Plot constraints partition the selected data by pivot",
  "For any traces or tables, columns, pivot and filters, the data selected for plotting is, for each constraint and each pivot value present after filtering, exactly the rows whose pivot equals that value and whose filtered columns hold one of the allowed values, each row belonging to exactly one pivot value; a window adds only the neighbouring samples just outside it. Single traces, columns or templates are repeated to match lists, lists of different lengths are refused, and pivots are listed once each in numeric (decimal, else hexadecimal) order when they are numbers and in natural order otherwise.",
  ["inputs", "configurations"], "every combination of inputs, pivots, filters and windows",
  "tests use tiny hand-made tables and no window",
  ["trappy/plotter/Constraint.py", "trappy/plotter/Utils.py", "trappy/plotter/AbstractDataPlotter.py"],
  [("Constraint data selection", "trappy/plotter/Constraint.py"), ("expansion and zip/permute", "trappy/plotter/Constraint.py ConstraintManager")],
  ["ConstraintManager iteration, result, generate_pivots()"])

p("C20", "Static plots draw exactly the selected data, each series on its axis",
  "A line plot draws, for each selected series (trace, column, pivot value), one line whose points are exactly the series' times and values, on the axis for its pivot (for its trace and column when concatenated, for its trace and pivot when permuted) with the axis titled after it and every series labelled in the legend; a bar plot draws bars with exactly the values. No point is dropped, added or drawn on another axis, limits and colours given are applied, and unused axes are removed.",
  ["inputs", "configurations"], "every data set, pivot structure and option combination (concat, permute, per_line, filters, signals with colours, fill, scatter)",
  "tests only check that plotting does not raise, plus a legend check",
  ["trappy/plotter/StaticPlot.py", "trappy/plotter/LinePlot.py", "trappy/plotter/BarPlot.py", "trappy/plotter/ColorMap.py"],
  [("series to axis resolution", "trappy/plotter/StaticPlot.py"), ("drawing", "trappy/plotter/LinePlot.py, BarPlot.py")],
  ["matplotlib figure: axes, lines, patches, titles, legend"])

p("C21", "Interactive plots embed exactly the selected data",
  "An interactive line plot's page contains, for each cell of its grid, the samples of exactly the series selected for it on the union of their times, where a series has no sample of its own on the straight line between its neighbouring samples (carried forward, or backward for `steps-pre`, when drawn in steps) or missing, and outside its samples missing or its nearest value, with labels, title, axis limits, colours and sync settings as requested; each plot has its own element and the script for it refers to that element. Zoom and time range are shared within a plot, or within a named group when one is given, and never with other plots of the same notebook. A plot over the data point limit is refused and one within it is accepted.",
  ["inputs", "configurations"], "every data set, pivot structure and option combination",
  "tests look for a couple of substrings in the page",
  ["trappy/plotter/ILinePlot.py", "trappy/plotter/ILinePlotGen.py", "trappy/plotter/ColorMap.py"],
  [("pivot and concat plots", "trappy/plotter/ILinePlot.py"), ("page generation", "trappy/plotter/ILinePlotGen.py")],
  ["HTML handed to IPython display"])

p("C22", "Task residency follows the task switches",
  "For any sequence of task switches, the residency data has, for every switch to a task other than idle and migration threads that passes the name and PID filters, one interval on that CPU starting at the switch and ending at the switch away from that task (or at the end of the trace), so that intervals on one CPU do not overlap; a task seen running twice without an end keeps only the later interval, with a warning. The event plot groups these intervals by name and CPU without loss, lists every name with some duration, the longer average first, and lists every lane.",
  ["inputs", "configurations"], "every task switch sequence, including dropped events, renamed tasks and filters",
  "two short sequences are tested",
  ["trappy/plotter/Utils.py", "trappy/plotter/EventPlot.py"],
  [("get_trace_event_data", "trappy/plotter/Utils.py"), ("lanes and grouping", "trappy/plotter/EventPlot.py")],
  ["returned intervals", "JSON embedded in the page"])

p("C23", "Making an index unique preserves data and order",
  "For any time-ordered series or table with repeated index values, the duplicate handling returns the same values in the same order under a strictly increasing index, in which the first of each run keeps its time, the others move later by at most the given maximum per duplicate and never reach the next original time; an index without duplicates is returned unchanged. The caller's own index is not modified.",
  ["inputs"], "every run length, gap and position of duplicates, down to gaps of one microsecond and less",
  "tests have runs of two and three with wide gaps",
  ["trappy/utils.py"],
  [("handle_duplicate_index", "trappy/utils.py")],
  ["returned object"])

p("C24", "Thermal, power and scheduler helpers report the data in the trace",
  "For any thermal trace, load, normalised load, input and output frequencies per cluster label equal the trace's values (frequencies in MHz, loads summed over CPUs, normalised load scaled by frequency over the highest and by the number of CPUs in the mask), carried forward over the union of times; each mask goes to its own label and an unknown mask is an error naming it. The plots built from them (temperatures, loads, frequencies, controller, input, weighted and output power, histograms) draw those values for every run, each run on its own axis, in the size and with the titles, labels and limits asked for. `get_pids` of a task table lists every (name, PID) pair whose name contains the text once.",
  ["inputs", "configurations"], "every mix of clusters, masks, loads, frequencies and runs, with and without a GPU",
  "one fixed trace with two clusters is tested and plots are only checked not to raise",
  ["trappy/cpu_power.py", "trappy/devfreq_power.py", "trappy/thermal.py", "trappy/pid_controller.py", "trappy/plot_utils.py", "trappy/ftrace.py", "trappy/compare_runs.py"],
  [("pivot_with_labels", "trappy/cpu_power.py"), ("get_load_data, get_normalized_load_data, get_all_freqs", "trappy/cpu_power.py, devfreq_power.py"), ("run plots", "trappy/plot_utils.py")],
  ["returned tables", "matplotlib axes"])

p("C25", "Workload Automation results and parameters are read faithfully",
  "Reading a results file yields, per benchmark and run identifier, exactly the first score of each iteration in the file, as integer or float as written, under the given name or the run's; combining results keeps every benchmark and every column of each input. Reading a parameter dump yields every known parameter file present, as an integer if its content is one and otherwise its text without the final newline, and nothing for absent files.",
  ["inputs"], "every results file and every parameter directory",
  "two fixed inputs are tested",
  ["trappy/wa/results.py", "trappy/wa/sysfs_extractor.py"],
  [("get_results, combine_results, get_run_number", "trappy/wa/results.py"), ("SysfsExtractor", "trappy/wa/sysfs_extractor.py")],
  ["returned tables and dictionaries", "displayed table"])

p("C26", "Published notebooks keep all output except what is marked",
  "Exporting a notebook's output keeps every line in order except marked lines and marked blocks; each marked script import is replaced by the content of that file and each library reference by a script tag, once per export (notebook) however often it occurs, each export starting afresh. Cells that are not code, and outputs without HTML, are unchanged.",
  ["inputs"], "every interleaving of text, markers, imports and library references over any number of cells",
  "the exporter has no tests",
  ["trappy/nbexport/exporter.py"],
  [("filter_output, preprocess_cell", "trappy/nbexport/exporter.py")],
  ["filtered text"])

p("C27", "The right trace source is read, with trace-cmd used as required",
  "For any directory or file path, the binary trace is preferred over the text one, the text one is used (with a warning) when alone, a text file of any other extension given by its path is read as text, the obsolete raw text format when it is the only one for the directory, and a missing trace, are refused; a binary trace is read through trace-cmd exactly once (at most once when a complete cache is used), asking for raw output of exactly the registered events that need it, and gives the same tables as its text report. A failing or missing trace-cmd is reported as an error. Whether the parse succeeds or fails, the trace file is unchanged, no temporary file is left, and nothing but the trace's cache directory is created.",
  ["configurations", "fault_sequences", "histories"], "every combination of present files, registered events and trace-cmd behaviour (output, failure, absence), with and without caching",
  "tests run the real trace-cmd on one file and check one failure; leftovers are not checked",
  ["trappy/ftrace.py", "trappy/base.py"],
  [("path resolution", "trappy/ftrace.py FTrace"), ("trace-cmd invocation and temporary file", "trappy/ftrace.py FTrace")],
  ["trace-cmd command lines", "file-system audit events and directory listings"])

p("C28", "Analyses never modify the trace and are repeatable",
  "Solving expressions, aggregating, correlating, plotting, computing residency and applying callbacks leave every table of the trace (values, order, index, columns, types), the arguments given (filters, tables, lists, dictionaries) and other traces unchanged; doing the same analysis again on the same trace, in any order with others, gives the same result.",
  ["histories"], "every sequence of analyses over one or more traces",
  "tests build a fresh object per analysis and never compare tables before and after",
  ["trappy/stats/grammar.py", "trappy/stats/Aggregator.py", "trappy/stats/Trigger.py", "trappy/plotter/ILinePlot.py", "trappy/plotter/Constraint.py", "trappy/plotter/Utils.py", "trappy/cpu_power.py", "trappy/utils.py"],
  [("copies before changing data", "throughout trappy/stats, trappy/plotter, trappy/cpu_power.py")],
  ["fingerprints of tables and arguments before and after"])

p("C29", "Plot grids give every plot its own cell, and colours map as defined",
  "For any number of plots and plots per line, the grid has just enough rows, every plot index has its own distinct axis in row-major order, leftover axes are removed and zero plots are refused. A colour map built from RGB triples returns those colours for their indices, the inverse map mirrors the indices, and conversion to page syntax lists each triple in order.",
  ["inputs"], "every number of plots, plots per line and colour list",
  "a few fixed sizes are tested for not raising",
  ["trappy/plotter/PlotLayout.py", "trappy/plotter/ColorMap.py"],
  [("get_2d, get_axis, finish", "trappy/plotter/PlotLayout.py"), ("rgb_cmap, to_dygraph_colors", "trappy/plotter/ColorMap.py")],
  ["axes of the figure", "colours"])

p("C30", "Interactive plots find every script they name, whole, or say that they do not",
  "Showing an interactive plot installs every script its page names into the directory Jupyter serves: the package's own are replaced by the current ones, those from the web are fetched once and kept if present. Whatever the web server does (error status, refused or reset connection, broken, short or truncated reply), however the process is killed, and however many processes install at once, a script from the web is either absent or complete; a script that could not be fetched is an ImportError, shows nothing, leaves no file and is fetched again next time; concurrent installations succeed; no other file changes.",
  ["fault_sequences", "crash_points", "schedules"], "every sequence of installations, server faults, kill points and competing processes, from any state of the directory",
  "the tests never install scripts (they pass test=True), so no fault, crash or race is exercised",
  ["trappy/plotter/IPythonConf.py", "trappy/plotter/ILinePlot.py", "trappy/plotter/EventPlot.py"],
  [("installation", "trappy/plotter/IPythonConf.py iplot_install"), ("view", "trappy/plotter/ILinePlot.py, trappy/plotter/EventPlot.py")],
  ["requests received by a loopback web server", "files in the directory", "exceptions and pages shown"])

p("C31", "Event plots draw exactly the intervals in view, whatever the user does",
  "At every moment of a page's life - first shown, zoomed by wheel, dragged, a part selected on the summary (an empty selection included), resized, in any order and with several plots on the page - an event plot draws each interval of at least a fiftieth of a pixel of the times in view, cut to that view, at its position on the time axis, in the lane with its label and in the colour of its name (the one given for it, if any), and draws nothing else; the axis shows the times in view, which never leave those of the plot; the summary draws all intervals and marks the view. Markers stay at their times, are shown while in view, and their times and difference are stated; asking for the interval at a place states the name, start, end and duration of the interval there, or nothing, and highlights it; pointing at an interval says its name. One plot never affects another.",
  ["inputs", "histories"], "every set of intervals and every sequence of user actions and page sizes",
  "no test runs the package's scripts", ["trappy/plotter/js/EventPlot.js", "trappy/plotter/EventPlot.py"],
  [("generate, getPaths, search_data, updateInfo, resize", "trappy/plotter/js/EventPlot.js"), ("html", "trappy/plotter/EventPlot.py")],
  ["elements the script creates, after every action", "texts it shows"])

p("C32", "Using trappy leaves the process and the file system as they were",
  "Whatever is done with the package - traces read, with or without caches, whole or interrupted; statistics, expressions, callbacks, plots, results, notebooks - afterwards the process is as before: working directory, environment, search path, signal handlers, umask, locale, random generators, warning filters, NumPy, pandas, matplotlib and logging settings, open files, threads and child processes, and the package's own public settings and tables. It writes only into caches, its plots' script directory, temporary files (which are gone afterwards) and files it was asked to write, and its objects are released when they are no longer used. A parse that ends early at any point - an exception or interrupt from an event, from opening a file or starting a process, a full disk, in a callback - leaves its input files, and no partial or temporary file, and the next parse gives the trace that an undisturbed one gives.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "every use of the package and every point at which reading may end early",
  "tests look at returned values in a fresh process; none looks at what is left of one, and none interrupts reading",
  ["trappy/ftrace.py", "trappy/base.py", "trappy/plotter/StaticPlot.py", "trappy/plotter/AttrConf.py", "trappy/plotter/IPythonConf.py", "trappy/plotter/Utils.py"],
  [("cache creation, trace-cmd conversion, parse loop", "trappy/ftrace.py GenericFTrace"), ("settings of plots", "trappy/plotter/AttrConf.py, trappy/plotter/StaticPlot.py view"), ("scripts", "trappy/plotter/IPythonConf.py")],
  ["settings of the process and libraries, descriptors, threads, children", "audit events of writes", "directories", "reachable objects", "the next parse"])

p("C33", "Results do not depend on the environment they are computed in",
  "Every other property holds, and every analysis gives the same result - tables, order of columns, groups, pivots, plots, legends, pages - whatever process it runs in: any hash seed, with Python's optimisations (-O, -OO) or development mode, in any locale and time zone, with any matplotlib backend, whatever order the file system lists directories and modules are imported in, however memory is collected and threads are switched, umask, home directory and terminal. Caches written in one environment serve in any other.",
  ["configurations", "inputs", "schedules"], "every combination of such environments and every workload of the other properties",
  "tests run once, in one environment; a run with another hash seed, locale or directory order takes another path through the code",
  ["trappy/cpu_power.py", "trappy/stats/Topology.py", "trappy/plotter/Constraint.py", "trappy/ftrace.py", "trappy/__init__.py"],
  [("columns by cluster", "trappy/cpu_power.py pivot_with_labels"), ("nodes", "trappy/stats/Topology.py flatten"), ("pivots", "trappy/plotter/Constraint.py generate_pivots"), ("encodings", "trappy/ftrace.py"), ("registration at import", "trappy/__init__.py")],
  ["the oracles of the other checks in processes started differently", "results of analyses compared between processes"])

p("C34", "Threads that read and analyse at the same time get what each gets alone",
  "When several threads read traces - the same files or others, text, HTML or binary, with or without caches - and evaluate expressions, query, filter, aggregate, correlate, inspect or lay out shared traces and tables at the same time, each obtains exactly the result, or the refusal, it would obtain with the others absent, whatever the interleaving; the shared objects are as before, every thread ends, and caches that they write together are whole: read later they give what a parse gives.",
  ["schedules", "inputs"], "every interleaving of calls into the package by several threads",
  "tests run in one thread", ["trappy/ftrace.py", "trappy/base.py", "trappy/dynamic.py", "trappy/stats/grammar.py", "trappy/stats/Aggregator.py", "trappy/stats/Trigger.py", "trappy/plotter/Constraint.py"],
  [("parse loop, cache, trace-cmd conversion", "trappy/ftrace.py GenericFTrace"), ("rows", "trappy/base.py Base"), ("expressions", "trappy/stats/grammar.py Parser"), ("pivots", "trappy/plotter/Constraint.py")],
  ["results per thread against the same tasks one after another", "order in which threads enter the package", "the shared objects", "caches afterwards"])

p("C35", "Interactive plots stay in step, whatever is run, cleared, zoomed or resized",
  "Through any history of a notebook - cells with interactive line plots run, run again with other data, options or groups, and cleared, its user zooming in, zooming out and resizing the window - each plot that is there shows its own samples. When a plot joins a group, all plots of the group show the union of the times and values they showed; zooming in or out in one of them does so in all if zoom is shared, and in no other plot of the notebook; zoomed out, a plot shows at least all its samples. Plots that are gone do not count. Each plot has the height asked for and its share of the width of its cell, also after the window was resized.",
  ["histories", "inputs"], "every history of cells and user actions",
  "no test runs a script", ["trappy/plotter/js/ILinePlot.js", "trappy/plotter/ILinePlotGen.py"],
  [("generate, sync, purge, resize handlers", "trappy/plotter/js/ILinePlot.js"), ("groups, sizes", "trappy/plotter/ILinePlotGen.py add_plot")],
  ["ranges, sizes and samples of every plot after each step"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
