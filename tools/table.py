p("C01", "No look-ahead: every per-row result depends only on rows up to its own",
  "Every value that a feature transform, feature operator or row-aligned indicator kernel reports for a row depends only on input rows at or before that row, in either computation backend. "
  "Likewise, a bar boundary or sampled event placed at a row is decided only from rows at or before it. "
  "Appending later rows never changes an already reported value.",
  ["inputs", "configurations"], "all price/volume/timestamp series, all window/period/lag settings >= 1, both backends",
  "A look-ahead needs an input whose later rows change an earlier output; the tests compare fixed series with fixed expectations and would accept a value computed from the future.",
  [F + "transforms.py", F + "base.py", F + "kit.py", C, B + "logic.py", "finmlkit/sampling/filters.py"],
  [("row-aligned indicator kernels", C + "*.py"), ("pandas and numba backends of the transforms", F + "transforms.py"),
   ("feature operators and composition", F + "kit.py, " + F + "base.py"), ("bar indexers", B + "logic.py"), ("CUSUM event filter", "finmlkit/sampling/filters.py")],
  "interprocedural row-provenance dataflow (abstract interpretation of kernels, numpy and pandas operations)",
  "Sound for look-ahead through the modelled numpy/pandas/numba vocabulary; what the analysis cannot decide is counted as undecided in the evidence, not claimed. No execution.")
p("C02", "Parallel kernels give the same result under every thread schedule",
  "Every loop that the library runs in parallel writes, in each iteration, only cells that no other iteration reads or writes, and carries no value from one iteration to the next. "
  "So the result of a parallel kernel does not depend on the number of threads or on how iterations are scheduled.",
  ["schedules", "inputs"], "all interleavings of the iterations of every parallel loop, all inputs",
  "A racy kernel usually gives the right answer on small inputs and few cores; the tests run one schedule.",
  [B + "base.py", B + "utils.py", C, "finmlkit/label/"],
  [("parallel bar kernels", B + "base.py"), ("parallel indicator kernels", C + "*.py"), ("CUSUM test kernels", C + "structural_break/cusum.py")],
  "access-set dependence analysis of prange loops (affine disjointness, loop-carried scalars, shared appends)",
  "Affine reasoning over symbolic iteration numbers; undecided pairs are counted, not claimed.")
p("C03", "Compiled kernels never read or write outside their arrays",
  "For every input that satisfies the documented shape requirements, no compiled kernel indexes an array before its first or past its last element, and no index computation silently wraps around to the other end of an array. "
  "This includes windows longer than the series, bars without trades, one-element inputs and events at either end of the series.",
  ["inputs", "configurations"], "all array lengths >= 1, all window/period settings >= 1, all bar boundary lists, all event positions",
  "Compiled code does not check bounds: an out-of-range read returns whatever lies in memory and usually passes; tests use series comfortably longer than the windows.",
  [B + "base.py", B + "logic.py", B + "utils.py", C, "finmlkit/label/", "finmlkit/sampling/filters.py"],
  [("bar kernels", B + "base.py"), ("bar indexers", B + "logic.py"), ("indicator kernels", C + "*.py"), ("labels and weights", "finmlkit/label/*.py")],
  "symbolic bounds analysis (affine index expressions against path facts, with integer witnesses for violations), and closed forms interpreted for data-dependent positions",
  "Every array access reached from the public kernels is an obligation; undecided ones are counted, not claimed.")
p("C04", "Every element of a returned buffer has been written",
  "No kernel returns an array element that was never assigned: whatever the input, bars without trades, skipped events and early exits included, each element of each returned array holds a computed value or a documented filler.",
  ["inputs", "configurations"], "all inputs, including empty bars, skipped events and windows longer than the series",
  "Uninitialised memory is often zero in a test process, so a missed write looks like a plausible value.",
  [B + "base.py", B + "utils.py", C, "finmlkit/label/", "finmlkit/sampling/filters.py"],
  [("bar kernels", B + "base.py"), ("indicator kernels", C + "*.py"), ("label kernels", "finmlkit/label/*.py")],
  "must-initialise interval analysis of uninitialised buffers",
  "All returned buffers allocated uninitialised are followed on every path.")
p("C18", "Transforms return named series aligned with the caller's rows",
  "Every feature transform and feature operator returns one value per input row, labelled with the caller's index in the caller's order. "
  "Each returned series carries the name the transform advertises, and as many series are returned as names are advertised, in that order, in either backend.",
  ["inputs", "configurations"], "all frames with the required columns, all parameters, both backends",
  "Tests look at values on one frame per transform; several transforms and backends are not exercised at all, and misaligned labels only show when the result is joined.",
  [F + "base.py", F + "transforms.py", F + "kit.py"],
  [("output preparation", F + "base.py _prepare_output_nb/output_name"), ("transform backends", F + "transforms.py _pd/_nb"), ("operators", F + "kit.py Feature")],
  "label-alignment and name tracking over the pandas operations of every transform (abstract interpretation)",
  "Names compared as symbolic templates; undecided outputs are counted, not claimed.")
AG = "algebraic summaries: the closed form of each result, derived from the source by value numbering and loop solving, against the closed form of a written definition"
AGN = ("Exact over the reals: equal normal forms are a proof; normal forms that differ in shape are told apart by interpreting the normal forms (never the code) at drawn points, "
       "so agreement there is evidence, disagreement is a refutation. Rounding and integer width are outside this claim.")
p("C06", "Bars close exactly where their rule says",
  "Time bars close at the last trade not later than each point of the clock grid (multiples of the interval); tick and volume bars close at the first trade at which the count or volume since the previous close reaches the threshold, and dollar bars likewise with the overshoot credited to the next bar. CUSUM bars close at the last trade of the first timestamp at which the upward or downward drift sum since the previous close reaches the volatility-scaled, floored threshold.",
  ["inputs", "configurations"], "all trade series, all thresholds and intervals, all volatility series",
  "Off-by-one resets, strict against non-strict comparison and gaps longer than an interval show only on inputs that hit the threshold exactly; tests use a few hand-made series.",
  [B + "logic.py", B + "kit.py"], [("bar indexers", B + "logic.py"), ("bar kits", B + "kit.py")], AG + "; the kits are interpreted at the object level", AGN)
p("C07", "Bar columns mean what they say, for exactly the bar's own trades",
  "For each bar, open, high, low, close, volume, VWAP, trade count and median trade size describe exactly the trades after the previous boundary up to and including the bar's own; so do the buy/sell splits, spread and cumulative imbalance extremes and the trade-size statistics. "
  "A bar without trades carries the previous close and zero volume, and its optional columns are zero or missing as documented.",
  ["inputs", "configurations"], "all trade series, all boundary lists including empty and single-trade bars",
  "A statistic taken over one trade too many or too few, or a value carried over from the previous bar, is invisible unless the fixture has the right empty or single-trade bar.",
  [B + "base.py"], [("OHLCV kernel", B + "base.py comp_bar_ohlcv"), ("directional kernel", B + "base.py comp_bar_directional_features"), ("trade-size kernel", B + "base.py comp_bar_trade_size_features"), ("frames", B + "base.py build_ohlcv, build_directional_features, build_trade_size_features")],
  AG + "; the builders are interpreted at the object level", AGN)
p("C11", "Stored trades come back as they were stored",
  "Loading a month, or any time range, gives exactly the stored trades of those times (both ends included) in time order with their prices, amounts and sides, whatever the order in which months were saved, and whether groups are read in turn or by worker processes finishing in any order; appending keeps the earlier rows, overwriting replaces only that month, and asking for what is not stored raises. "
  "The record kept beside a month - count, first and last time, quality flag, share of missing trades, gap list - describes all rows stored in that month and nothing that was replaced.",
  ["inputs", "histories", "schedules", "configurations"], "all trades of two months, all orders of saving, appending and overwriting them, all positions of the requested bounds relative to the months, both ways of loading",
  "A bound compared with the wrong end of a month, or a record left from replaced rows, only shows for particular histories and bounds; fixtures save one or two months once and read them whole.",
  ["finmlkit/bar/data_model.py", "finmlkit/bar/io.py"],
  [("writing", "finmlkit/bar/data_model.py TradesData.save_h5"), ("range discovery", "finmlkit/bar/data_model.py TradesData._keys_for_timerange"),
   ("loading", "finmlkit/bar/data_model.py TradesData.load_trades_h5"), ("inspection", "finmlkit/bar/io.py H5Inspector")],
  "object-level abstract interpretation of save and load histories over abstract files (key to frame): closed form of every loaded column and record against its definition", AGN)
p("C12", "Trade rows stay together through sorting, merging and side assignment",
  "Sorting trades by time moves price, amount and buyer-maker flag of a trade together; merging split trades adds the amounts of exactly the consecutive trades that share time, price and side and keeps their common values. "
  "The inferred side of a trade is the sign of the last price change up to it. Preparing raw trades as a whole - unit conversion, gap check by trade number, ordering, merging, rounding to a resolution, sides - and a time view set afterwards keep each trade's values together and lose none outside the view.",
  ["inputs", "configurations"], "all trade tables, sorted or not, with equal timestamps and prices, with and without trade numbers and buyer-maker flags, all time units and resolutions, all views",
  "A column that stays behind when rows are permuted or dropped yields plausible data; only inputs that are unsorted and contain duplicates at once expose it.",
  [B + "utils.py", B + "data_model.py"], [("sort and merge kernels", B + "utils.py"), ("preparation and views", B + "data_model.py TradesData.__init__/set_view_range")], AG, AGN)
p("C15", "Footprints count every trade once, at its price level and side",
  "The footprint of a bar has one level per tick between the bar's low and high; each trade of the bar adds its amount and one count to the level of its own price, on its own side, and to nothing else. "
  "Imbalance flags compare each level with the diagonal neighbour of the other side, and the per-bar imbalance sums, longest signed run, largest-volume level, skew and concentration are those of the bar's levels. "
  "The tick size estimated from traded prices divides every distance between them.",
  ["inputs", "configurations"], "all trade series, tick sizes, boundary lists and imbalance multipliers",
  "Level rounding, side mix-ups and edge levels depend on where prices fall on the tick grid; fixtures have a handful of levels.",
  [B + "base.py"], [("footprint kernel", B + "base.py comp_bar_footprints"), ("footprint features", B + "base.py comp_footprint_features")], AG, AGN)
p("C16", "Triple-barrier labels report the first barrier touched",
  "For each event the label, touch position, return and barrier ratio are those of the first bar after the event at which the log return reaches the upper or lower barrier, or of the last bar within the time limit if none does; with a side given the return is signed by it. "
  "Barriers with infinite multipliers never trigger, minimum-close-time and minimum-return settings are honoured, and events are independent of each other.",
  ["inputs", "configurations"], "all price paths, event lists, targets, barrier multipliers, time limits and sides",
  "First-touch logic breaks on ties, on touches at the first or last bar of the window and on disabled barriers, none of which a fixed path covers together.",
  ["finmlkit/label/tbm.py"], [("triple barrier kernel", "finmlkit/label/tbm.py triple_barrier")], AG, AGN)
p("C20", "Stored bars are the bars of the stored trades, and reading aggregates exactly",
  "Adding bars to a file of trades stores, for each month asked for and no other, the one-second bars of that month's trades labelled by close time, with a record of their count and span; existing bars stay unless replacing is asked for, and then follow the current trades. "
  "Reading between two times gives exactly the stored bars of those times in time order, a date as the end including that whole day. A longer bar takes the first, highest, lowest and last price, the sums, the volume-weighted price and the trade-weighted median of exactly the stored bars of its interval, and a last day not fully covered is left out.",
  ["inputs", "histories", "configurations"], "all trades of two months, all histories of saving, building and rebuilding, all positions of the bounds relative to the months, interval lengths in seconds, minutes, hours and days",
  "A stale record, a bound that cuts a month or a row aggregated into a neighbouring interval shows only for particular histories and times; the tests read one month of six bars.",
  ["finmlkit/bar/io.py"], [("building", "finmlkit/bar/io.py AddTimeBarH5.process_key/process_all"), ("reading", "finmlkit/bar/io.py TimeBarReader.read"), ("longer bars", "finmlkit/bar/io.py TimeBarReader._resample")],
  "object-level abstract interpretation of build and read histories over abstract files: closed form of every stored, read and aggregated column against its definition", AGN)
p("C22", "Indicators compute their documented formulas on every row",
  "Each technical indicator of the feature core returns, for every row, the value of its documented formula over exactly its window, and a missing value where the window is not complete. "
  "Guards for zero denominators and missing inputs yield the documented filler and affect no other row.",
  ["inputs", "configurations"], "all series, all window, period, degrees-of-freedom and switch settings",
  "Incrementally updated sums, seeds and eviction indices go wrong only for particular window/length/NaN combinations, and tests compare a few fixed series at loose tolerances.",
  [C], [("moving averages, volatility, momentum, trend, reversion, volume and correlation kernels", C + "*.py")], AG, AGN)
p("C23", "Sample weights follow their definitions",
  "Average uniqueness is the mean over an event's lifespan of one over the number of concurrent events; return attribution is the absolute sum of concurrency-scaled log returns over the lifespan; time decay is the documented piecewise-linear function of cumulative uniqueness; class-balance weights scale each label's total to be equal. "
  "Lifespans include both end bars, and normalised weights average to one.",
  ["inputs", "configurations"], "all event and touch lists, all decay settings, all label multisets",
  "Off-by-one lifespans and wrong normalisation change weights slightly and pass loose fixed-example tests.",
  ["finmlkit/label/weights.py"], [("weight kernels", "finmlkit/label/weights.py")], AG, AGN)
p("C24", "Volume profiles aggregate exactly the window's footprints",
  "Point of control, value-area bounds and the share of volume above the point of control are computed from exactly the bars inside the requested time window, with each level's buy and sell volume counted once. "
  "Bucketing to a coarser grid preserves total volume, and the value area is the contiguous range grown from the point of control until the requested share is covered. "
  "The profile calculator hands the columns of the bars and footprints and its own (or reset) options to that computation, over the whole table or a time range extended by one window, and reports prices in price units, missing before the first full window.",
  ["inputs", "configurations"], "all bar series with their footprints, all windows, bin counts, tick sizes and value-area shares",
  "Windows that lose or duplicate a bar, or a level dropped at a bucket edge, shift results by a tick; tests use tiny profiles.",
  [C + "volume.py"], [("rolling and developing profiles", C + "volume.py"), ("value area", C + "volume.py comp_poc_hva_lva")], AG, AGN)
p("C25", "Event sampling and structural-break statistics follow their definitions",
  "The CUSUM filter reports an event exactly at the rows where the positive or negative drift sum since the last event crosses its threshold, and resets both sums there. "
  "The structural-break test reports at every row the supremum of the standardised departures over the documented look-back, with its critical value and the index at which it is attained.",
  ["inputs", "configurations"], "all series, thresholds, warm-up lengths and windows",
  "Resets and suprema depend on the order of crossings; a fixed series has only a few.",
  ["finmlkit/sampling/filters.py", C + "structural_break/cusum.py"], [("CUSUM filter", "finmlkit/sampling/filters.py"), ("CUSUM tests", C + "structural_break/cusum.py")], AG, AGN)
OBJ = "object-level abstract interpretation: each class is instantiated and called with symbolic options and columns; the closed form and name of every result is compared with a written definition"
p("C13", "Feature transforms compute their documented columns on both backends",
  "Every feature transform, called with either backend, returns exactly the columns it advertises, and each of them is the documented function of the declared input columns, in their declared order, and of the options given at construction. "
  "The two backends therefore compute the same quantity, and no undeclared column or other option influences the result.",
  ["inputs", "configurations"], "all frames, all column assignments, all option values, both backends",
  "Tests run default options on frames where several columns are similar; swapped columns, ignored options and backend differences at other settings go unnoticed.",
  [F + "transforms.py", F + "base.py"], [("transforms", F + "transforms.py _pd/_nb"), ("dispatch and input/output preparation", F + "base.py")], OBJ, AGN)
p("C14", "Contradictory or impossible requests are refused, valid ones are not",
  "A request that cannot be honoured raises instead of returning a value: arrays whose lengths contradict one another, missing columns, rows without times where times are needed, unknown units, backends or operations, options outside their documented range, "
  "positions or months that do not exist, reversed time ranges, and results asked for before they were computed. "
  "It is refused exactly then: no request that the documentation declares valid is refused.",
  ["inputs", "configurations", "histories"], "all lengths of the arrays involved, all option values inside and outside their range, every transform and backend, every missing column, stored files with any months",
  "Tests try one wrong value per guard; a guard that moved by one, lost one of several conditions or is no longer reached on one path accepts other contradictory inputs and returns plausible numbers.",
  [B + "base.py", B + "logic.py", B + "data_model.py", B + "io.py", "finmlkit/label/", "finmlkit/sampling/filters.py", F + "base.py", F + "kit.py", F + "utils.py", F + "transforms.py", C],
  [("length and range guards of kernels", B + "*.py, finmlkit/label/*.py, " + C + "*.py"), ("constructors and setters", B + "data_model.py TradesData/FootprintData, finmlkit/label/kit.py"),
   ("column, index and backend checks", F + "base.py _validate_input/__call__, " + F + "transforms.py"), ("configuration decoding", F + "utils.py"), ("stored months and ranges", B + "io.py, " + B + "data_model.py")],
  "refusal conditions by abstract interpretation: the closed form of the condition under which a call returns against the documented one", AGN)
p("C08", "A saved feature configuration rebuilds the same computation",
  "Every feature that can be saved - any transform with any options, any operator expression, any composition, and whole feature sets - has a configuration that JSON can hold. "
  "Rebuilding from that configuration yields a feature with the same name and output columns that computes the same values on every frame and backend.",
  ["configurations", "inputs"], "all transform classes and switch settings, all option values, nested expressions and feature sets",
  "Tests round-trip a few default features and compare names; an option lost on the way back changes values only when it was not the default.",
  [F + "base.py", F + "kit.py", F + "utils.py", F + "transforms.py"],
  [("configuration writers", F + "kit.py to_config, " + F + "base.py to_config"), ("rebuilding", F + "utils.py transform_from_config, " + F + "kit.py from_config/from_dict")],
  "object-level abstract interpretation of saving and rebuilding: the closed form of the rebuilt feature against that of the original", AGN)
p("C19", "Feature expressions and feature sets compute what they say",
  "Arithmetic operators and the named operations on features (logs, clipping, rolling statistics, averages, lags, minima, maxima, composition, user functions) compute that operation row by row over the operands' columns, whatever the operand kinds and nesting, with every operand computed by the backend asked for. "
  "Building a feature set returns the retained columns followed by one column per feature, each equal to the feature computed on its own, whichever intermediate columns are shared or reused, and leaves the caller's frame as it was.",
  ["inputs", "configurations"], "all frames, constants, windows and lags, both backends, both build orders, nested and shared expressions",
  "Operand order, reuse of a cached intermediate and shared subexpressions only matter in particular combinations; tests check single operators on small frames.",
  [F + "base.py", F + "kit.py"], [("operators", F + "kit.py Feature"), ("operator transforms", F + "base.py"), ("batch build", F + "kit.py FeatureKit.build")],
  "object-level abstract interpretation of operators and feature sets: closed forms against the row-by-row meaning", AGN)
p("C09", "A feature's column name identifies its computation",
  "Features over the same input columns that compute different values have different column names: changing a window, lag, constant or switch that changes the values changes the name, and distinct operator expressions or transform kinds never share a name. "
  "This matters because feature sets and compositions reuse a column by its name.",
  ["configurations", "inputs"], "all pairs of settings of every transform, all pairs of operator expressions and transform kinds",
  "A missing option in a name is invisible until two settings meet in one feature set; tests build one setting at a time.",
  [F + "base.py", F + "kit.py", F + "transforms.py"], [("transform names", F + "transforms.py produces"), ("operator names", F + "base.py output_name, " + F + "kit.py"), ("reuse by name", F + "base.py, " + F + "kit.py FeatureKit.build")],
  "object-level abstract interpretation: name templates and closed forms of pairs of instances; a pair with equal names and a separating point is a violation", AGN)
p("C05", "The caller's data is never modified",
  "No public function or method changes an array, series, frame, list or mapping passed to it, nor an object the caller handed over at construction; results are returned in fresh objects or attached to the library's own. "
  "In particular building features, bars, labels or weights leaves the input frames and arrays exactly as they were.",
  ["inputs", "histories"], "all public functions and methods, all arguments, any order of calls on an instance",
  "An in-place change shows only when the caller reuses the data afterwards, and often only on the path where no conversion copied it; tests rarely look at their inputs again.",
  ["finmlkit/"], [("kernels", C + "*.py, " + B + "*.py, finmlkit/label/*.py"), ("feature sets", F + "kit.py FeatureKit.build"), ("kits and trade tables", B + "kit.py, " + B + "data_model.py, finmlkit/label/kit.py")],
  "interprocedural may-alias and side-effect analysis (storage sharing through views, columns, fields and calls)",
  "May-alias over the modelled view operations; every store or in-place call on caller-owned storage is reported with its path.")
p("C10", "Results are reproducible and do not depend on earlier use",
  "The same call on the same data gives the same result in every process: nothing a caller can observe depends on set or directory order, worker completion order, clocks or random numbers. "
  "A feature, expression or feature set that has been used before, on any data and either backend, behaves exactly like a freshly constructed one.",
  ["histories", "schedules", "inputs"], "all processes and hash seeds, all earlier calls on an instance, all features, expressions and feature sets",
  "A test run has one hash seed and mostly uses each object once; hash-order and left-over state show up in another process or on the second call only.",
  [F + "kit.py", F + "base.py", F + "utils.py", F + "transforms.py", B + "data_model.py", B + "io.py"],
  [("build order", F + "utils.py ComputationGraph, " + F + "kit.py FeatureKit.build"), ("operator inputs", F + "base.py"), ("parallel loading", B + "data_model.py load_trades_h5"), ("transform instances", F + "transforms.py")],
  "order-dependence taint analysis of the package; object-level abstract interpretation of repeated use (closed forms of a used and a fresh instance)",
  "Taint is a may-analysis over local names, fields, containers and calls inside the package; repeated use is decided on closed forms.")
p("C17", "Footprint containers keep every field of every bar together",
  "A footprint built from bars holds, per bar, the documented per-level volumes, ticks, imbalances and per-bar summaries of exactly that bar's trades. "
  "Making a container, slicing it by position or time range and switching its storage keep every field aligned with its bar, and validation accepts exactly the containers all of whose fields cover the same bars.",
  ["inputs", "histories"], "all trade series and boundaries, all slices, containers with and without the optional fields, both storages",
  "The container has fourteen parallel fields; one sliced, ordered or checked differently goes unnoticed until that field is read for the right bar.",
  [B + "data_model.py", B + "base.py"], [("container", B + "data_model.py FootprintData"), ("building", B + "base.py build_footprints, comp_bar_footprints")],
  "object-level abstract interpretation of building, slicing and converting containers: closed form of every field against its definition", AGN)
p("C26", "Labels and sample weights belong to their events",
  "The label table has one row per kept event - those after the features' warm-up, with a large enough target and a full evaluation window - and each column holds the triple-barrier outcome of that event, found at the trade its time selects, with exactly the options given; labelling again on other trades starts from the original events. "
  "Information weights are those of the events in the table, and final weights are the documented product of decay, information and vertical-touch weights, normalised to mean one and class-balanced when labels are given.",
  ["inputs", "configurations", "histories"], "all event tables and trades, all option values, meta and side labelling, given or searched event positions, repeated labelling",
  "An event kept or dropped at the edge of the window, or an argument passed in the wrong place, shifts labels against features; fixtures are too regular to show it.",
  ["finmlkit/label/kit.py"], [("labels", "finmlkit/label/kit.py TBMLabel"), ("weights", "finmlkit/label/kit.py SampleWeights")],
  "object-level abstract interpretation of labelling and weighting: closed form of every output column against its definition", AGN)
