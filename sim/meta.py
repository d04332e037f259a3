#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "helpertools/"
K = "utils/klines/kline.go"
STAGES = [H + f for f in ("Apply.go", "Chan2Slice.go", "Drain.go", "Duplicate.go", "Operate.go", "Pipe.go", "RoundDigits.go", "Shift.go", "Skip.go", "Slice2Chan.go")]
INDS = ["trend/", "oscillator/", "volume/", "channel/", "utils/helper.go", "utils/ta/ta.go", "utils/regression.go"]

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, state=state, technique=technique, note=note))

prop("C01", "Stream pipelines deliver exactly the right sequence under every schedule",
     "Whatever the scheduling, pacing and buffer sizes of producers, stages and consumers, a consumer that reads a pipeline of stream stages (slice source, apply, pipe, duplicate, two-input operation, shift, skip, digit rounding, streaming average, collecting into a slice) to its end receives exactly the sequence the stages' definitions give for what the producers sent. Nothing is lost, repeated, reordered or invented, on any branch, and collecting a sliced source gives the slice back.",
     ["schedules", "inputs", "programs"], "every pipeline graph of the stages, every content and length (including empty), every buffer size, every interleaving and pacing of producers, stages and consumers",
     "The tests run each stage alone on one short list with whatever interleaving the machine happens to give; order and loss across stages depend on interleavings they do not choose.",
     STAGES + ["utils/ta/ta.go"], [("one goroutine per stage ranging over its input", "helpertools/Apply.go Apply"), ("forwarding copies in order to every output", "helpertools/Duplicate.go Duplicate"), ("pairing of the two inputs", "helpertools/Operate.go Operate"), ("fill values before the stream", "helpertools/Shift.go Shift"), ("first elements dropped", "helpertools/Skip.go Skip")],
     ["values received by every consumer, in order"])
prop("C02", "Finite pipelines always finish and leave nothing running",
     "When every producer closes its stream and every consumer keeps reading, every output stream of a pipeline ends and every goroutine the stages started ends, for every buffer size and schedule. A two-input operation ends with its shorter input and still reads the longer one to its end, so that the other side's producers and stages finish too.",
     ["schedules", "inputs", "programs"], "every pipeline graph that can complete at all, inputs of equal and unequal lengths, every interleaving; joins of one fan-out's branches are included when the stages' buffering lets them complete",
     "A blocked or leaked goroutine does not fail the existing tests, which end with the process; deadlocks depend on lengths, buffers and interleavings they never vary.",
     STAGES, [("closing the output when the input ends", "helpertools/*.go defer close"), ("draining the longer input of a join", "helpertools/Operate.go, helpertools/Drain.go")],
     ["every output closed", "no goroutine of the library alive at quiescence"])
prop("C03", "Fan-out feeds every branch fully; a stalled branch only costs its buffer",
     "Duplicating a stream into k outputs gives each of the k consumers the complete input in order, whatever the others' pace. When one consumer stops for good, the others still receive every element that the buffer promised by the input stream's capacity lets them run ahead.",
     ["schedules", "inputs", "fault_sequences"], "every number of outputs, input capacity, pace of every consumer, and every moment at which one consumer stops",
     "The test reads the outputs in lock step with one list; lagging, stalled and stopped consumers never occur.",
     [H + "Duplicate.go"], [("outputs buffered like the input", "helpertools/Duplicate.go make(chan T, cap(input))")],
     ["elements each consumer got, how far consumers ran ahead of a stopped one"])
prop("C04", "Results are delivered as soon as their inputs are in, and never before",
     "While a producer pauses, every result determined by what it has sent so far reaches a waiting consumer without any further input, and no result appears that is not yet determined. Stages neither withhold elements until later ones come nor anticipate them.",
     ["schedules", "inputs", "fault_sequences"], "every pipeline, every pause point of its producers, every schedule up to quiescence",
     "The tests only look at complete outputs after the input has ended; a stage that withholds a batch gives the same complete output.",
     STAGES, [("one element in, its results out, in each stage's loop", "helpertools/*.go")],
     ["results in the consumers' hands when nothing can move while the producers are paused"])
prop("C05", "Pipelines buffer a bounded number of elements (back-pressure)",
     "When consumers stop reading, producers block after a number of elements that depends only on the stages and the capacities of their streams, not on how much there is to send. No stage reads ahead without bound.",
     ["schedules", "fault_sequences"], "every pipeline, every moment at which the consumers stop, every schedule up to quiescence",
     "No test leaves a consumer behind, so unlimited buffering looks the same as none.",
     STAGES, [("unbuffered or input-sized output streams", "helpertools/*.go make(chan")],
     ["number of elements each producer was able to send"])
prop("C06", "Comparing streams always ends with the right verdict",
     "Comparing pairs of finite streams always returns: no difference exactly when every pair has equal elements and equal length, and a difference (or an odd number of streams) is reported otherwise, whatever the pace, the buffering and the order in which the streams produce and end. When it reports equality, every stream has been read to its end.",
     ["schedules", "inputs"], "every number of pairs, every content and length of each stream, every comparable element type (signed zeros and values held in interfaces included), every pace and interleaving of their producers",
     "The test compares one pair of short equal lists.",
     [H + "CheckEquals.go"], [("reading each pair in step until both end", "helpertools/CheckEquals.go CheckEquals")],
     ["verdict, elements left unread"])
prop("C07", "The streaming moving average equals the windowed definition for every stream",
     "For every period, element type, stream length (including streams shorter than the period and empty ones), pace and interruption of the producer, the streaming simple moving average gives one result per value, in order: the mean over the last period values, those before the start counting as zero. It ends when the stream ends.",
     ["schedules", "inputs"], "all element types the stage accepts, periods, lengths, contents, paces and interleavings; sums stay within the element type's range",
     "The test uses one period on one list of one type and never delays the producer.",
     ["utils/ta/ta.go"], [("running sum over a fan-out of the input and its delayed copy", "utils/ta/ta.go SmaT")],
     ["every result, in order"])
prop("C08", "Independent pipelines do not affect each other",
     "A pipeline whose consumer stalls, walks away, or whose producer stops without closing its stream, has no effect on any other pipeline running in the process: the others complete with exactly their own results. Any number of pipelines may be built and run concurrently.",
     ["schedules", "fault_sequences"], "two to four pipelines of any shape side by side, one of them abandoned by its consumer, its producer or both at any moment, and dozens of abandoned ones before a healthy one is built",
     "No test runs two pipelines, and none abandons one.",
     STAGES + ["utils/ta/ta.go"], [("no state shared between stages of different pipelines", "helpertools/*.go")],
     ["complete results of the healthy pipelines"])
prop("C09", "Concurrent computations do not disturb each other",
     "Any number of callers computing indicators, strategies and series functions at the same time, on shared or separate market data, each obtain exactly the result that the same computation gives alone in a fresh process. No computation hangs, crashes another or leaves goroutines behind.",
     ["schedules", "inputs", "histories"], "every set of computations offered by the library with supported parameters, every sharing of data, every interleaving down to single statements, and every history of computations in the process",
     "The tests compute one thing at a time in one order; state shared between instances or calls (package variables, caches, defaults) shows only when computations overlap or follow each other.",
     INDS + ["utils/klines/kline.go", "utils/klines/technical_analysis.go"], [("every instance and call works on memory of its own", "constructors and Calculation methods of all indicator packages")],
     ["every result, bit by bit, against a fresh process"])
prop("C10", "Computations never modify the market data they are given",
     "No indicator, strategy, series function, view or conversion changes the candle history or series it is given: an observer sharing the data sees the same values, lengths and order before, during (even momentarily) and after any computation. Functions whose purpose is to reorganise a history in place (sorting, de-duplication, range cutting, clearing) are the only exceptions.",
     ["schedules", "inputs", "histories"], "every computation, concurrent with any others and with an observer looking at arbitrary moments",
     "The tests never look at the input again after a computation, let alone during it.",
     INDS + ["utils/klines/kline.go", "utils/klines/technical_analysis.go"], [("results are built in new slices", "utils/helper.go, utils/ta/ta.go"), ("projections copy values out of candles", "utils/klines/kline.go GetOHLC")],
     ["bits of the shared inputs at arbitrary moments"])
prop("C11", "Results handed out belong to the caller and never change afterwards",
     "A result that has been handed out keeps its value whatever the process computes later, on the same or other data, and whatever another holder does to results of its own. A caller overwriting its result changes neither the market data nor what any other computation, earlier or later, returns to anyone else.",
     ["schedules", "histories", "fault_sequences"], "every sequence and interleaving of computations by several callers, with any of the results overwritten by its owner at any time",
     "The tests drop each result after looking at it once.",
     INDS, [("fresh result slices per call and per instance", "utils/helper.go, utils/ta/ta.go, indicator packages")],
     ["values of held results, later results against a fresh process"])
prop("C12", "An indicator instance gives the same answers whatever was done with it before",
     "What an indicator instance returns depends only on its parameters and market data: not on how often or in which order it was calculated, read or cleared before, and not on whether it is calculated explicitly or by its first read. After it has been calculated, concurrent readers all get that same answer. When its market data grew or a candle was corrected, calculating it again gives what a new instance gives on the data as they are then (the few indicators that copy the history when they are made answer for the history as it was then).",
     ["histories", "schedules"], "every sequence of calculate, clear and read operations on one instance of every indicator, on fixed, growing and corrected histories, with other instances in use in between, and concurrent readers after a calculation",
     "The tests calculate each instance once and read it once.",
     ["trend/", "oscillator/", "volume/", "channel/"], [("Calculation rebuilds the result from the data", "Calculation methods"), ("reads calculate on first use", "GetData, GetValues, GetPoints and AnalysisSide methods")],
     ["results of each operation against a fresh instance in a fresh process"],
     state=[("data", "the instance's results", "field data of every indicator type")])
prop("C13", "Copies and projections of a candle history are faithful and detached",
     "A copy of a date range, a projection to series (open/high/low/close/volume, averages of prices) or a conversion of a candle history contains exactly the requested data at the time it is taken, and stays so whatever is later done to the history or to other views. Changing, sorting, clearing or overwriting a view never changes the history or another view.",
     ["schedules", "histories", "fault_sequences"], "every sequence and interleaving of taking views and destroying them by several holders",
     "The tests look at one view once and never modify anything.",
     [K, "utils/klines/technical_analysis.go"], [("copying candles by value", "utils/klines/kline.go Copy, GetOHLC"), ("new candles for conversions", "utils/klines/kline.go ToHeikinAshi, ConvertToNewInterval")],
     ["contents of the history and of every view held"])
prop("C14", "Collected feeds normalise to one ordered candle per time, whatever the network",
     "However a feed lost, repeated, delayed, reordered or partially re-sent candles, and wherever the collector crashed and restarted, sorting, removing duplicates and cutting the collected history to a range leaves it in strict time order with exactly one candle per distinct time inside the range (the first one held, unaltered), and no candle outside. Once everything has been sent again the history equals the venue's.",
     ["fault_sequences", "crash_points", "histories", "schedules"], "every sequence of loss, duplication, delay, reordering, partition and collector crash over every batch of candles, and every order of the normalising operations",
     "The tests sort one short list and remove duplicates from another; the outcomes of arrival orders and of repeated normalisation are not sampled.",
     [K], [("sorting by time", "utils/klines/kline.go SortCandlesByTimestamp"), ("removal of repeated times", "utils/klines/kline.go RemoveDuplicates"), ("range cutting", "utils/klines/kline.go RemoveOutsideRange"), ("emptying", "utils/klines/kline.go Clear")],
     ["times and contents of the history after each operation"])
prop("C15", "Resampling aggregates exactly and never revises a closed candle",
     "Resampling a gapless, ordered history that starts on the new interval's grid gives one candle per complete window: first open, highest high, lowest low, last close, summed volume, relative change and direction of exactly that window, leaving the input unchanged; candles of an incomplete last window are left out of every candle. As the history grows, candles already complete never change; a history with a missing, repeated or misplaced candle, an impossible interval or no complete window is refused with an error.",
     ["inputs", "histories", "fault_sequences"], "every base interval, multiple, phase on the grid and length, prices of any sign and size (zero included), every position of a missing, repeated or misplaced candle, several services resampling the same growing history under moving clocks",
     "The test resamples one fixed list once; partial windows, growth, gaps and the wall clock are not varied.",
     [K], [("window accumulation", "utils/klines/kline.go ConvertToNewInterval"), ("padding check", "utils/klines/kline.go ConvertToNewInterval errCandleDataNotPadded")],
     ["every resampled candle against a reference model"])
prop("C16", "A backfill plan covers every missing slot exactly once, through any failures",
     "Planning a date range gives consecutive requests of at most the allowed size whose slots cover the range, rounded to the interval, exactly once; the number of slots counted for a range agrees with the plan. Marking fetched candles and asking whether data exist for a time agree for every slot, so a backfill that re-requests what is missing ends, through failed, short and repeated answers and restarts, with every slot the venue has, fetched. A slot's start compares equal to every instant of its second, in any zone, and to no other.",
     ["inputs", "fault_sequences", "crash_points", "schedules"], "every range (in any era and any zone), interval (impossible ones included), alignment and request limit, every sequence of request failures and worker crashes",
     "The tests plan two or three fixed ranges; rounding, limits and re-planning after failures are not varied.",
     [K, "utils/klines/kline_type.go"], [("request splitting", "utils/klines/kline.go CalculateCandleDateRanges"), ("slot counting", "utils/klines/kline.go TotalCandlesPerInterval"), ("coverage lookup", "utils/klines/kline.go HasDataAtDate")],
     ["planned requests and slots, coverage answers, slots stored in the end"])
prop("C17", "Results for past candles never change when new candles arrive",
     "When the history grows, is recomputed after a restart, or ends in a still-forming candle that changes, the values every indicator and series function reported for candles already closed stay the same, bit for bit. This holds for every computation with one value per candle except those that mark pivots found later by their nature.",
     ["histories", "crash_points", "schedules"], "every history of appends, forming-candle updates and restarts, several services on the same growing data, every computation with supported parameters",
     "The tests compute once over one complete list; a value that looks ahead by one candle looks the same there.",
     INDS, [("recursions and windows that only look back", "utils/helper.go, utils/ta/ta.go and Calculation methods")],
     ["results for closed candles before and after growth"])
prop("C18", "Date ranges are judged correctly whatever the clock does",
     "Checking a date range reports an unset start, an unset end, a start after the end, a start equal to the end, or a start in the future, in that order of precedence, and accepts every other range. The verdict on the future agrees with some reading the clock had during the check, in every time zone, and a range refused as being in the future is accepted once its start is reached.",
     ["inputs", "schedules", "fault_sequences"], "every pair of dates around the clock's reading, wall clocks stepped back and forth before, during and after the check, machines that booted without a clock, dates with and without monotonic readings, any zone",
     "The tests do not call it with a moving clock; the boundary at the current time cannot be hit on purpose with a real one.",
     ["utils/commonutils/common.go"], [("ordered checks", "utils/commonutils/common.go StartEndTimeCheck")],
     ["verdict of each check against the clock's readings during it"])
prop("C19", "Computations do not depend on the clock or the local time zone",
     "Indicators, strategies, series functions, views and resampling give identical results whatever the wall clock reads, even if it is stepped during the computation or runs behind the data, and whatever the machine's local time zone is.",
     ["schedules", "configurations", "fault_sequences"], "every computation under every zone, clock reading and sequence of clock steps",
     "The tests run at one time in one zone.",
     INDS + [K], [("dates are derived from the candles", "utils/klines/kline.go"), ("no reading of the clock in computations", "indicator packages")],
     ["every result against a process in another zone at another time"])
prop("C20", "Loading market data from disk returns it whole and intact, or an error",
     "Reading a file returns either exactly the bytes one version of it held or the disk's error, through interrupted and short reads, wrong size hints, I/O errors at any point and concurrent readers, and leaves no file open. Decoding refuses damaged or truncated market data and destinations that cannot receive it, never crashes, never modifies the bytes, and reproduces intact market data exactly. The sample history is loaded the same way: each call gives its caller an own, exact copy of what the file holds now, or panics when the file is missing, damaged or unreadable.",
     ["fault_sequences", "crash_points", "schedules"], "every sequence of interruptions, short reads, errors and torn, truncated, zeroed or replaced file contents at any offset, files of every size, every kind of destination (nil ones included), several loaders",
     "The tests read intact files from a healthy disk.",
     ["utils/commonutils/common.go", "utils/helper.go", K], [("whole-file read with error propagation", "utils/commonutils/common.go ReadFile"), ("destination check and decoding", "utils/commonutils/common.go JSONDecode"), ("sample history", "utils/helper.go GetTestKlineItem")],
     ["bytes and errors returned, files left open, decoded values"])
prop("C21", "The queue hands out exactly what was put in, first in first out",
     "Values come out of a queue exactly once and in the order they were put in, whatever the mix of putting, taking and testing for emptiness by workers taking turns, and whatever happens to other queues. Taking from an empty queue yields no value, reports nothing invented and leaves it usable; emptiness is reported truthfully at every moment.",
     ["histories", "schedules"], "every sequence of operations by any number of workers that exclude each other, on any number of queues, including workers that stop half way",
     "The container has no test of long alternations through empty and back.",
     ["container/queue/"], [("list of values with a head", "container/queue Queue")],
     ["values taken, emptiness"])
prop("C22", "The search tree always holds exactly what was inserted and not removed",
     "After any sequence of insertions and removals, including duplicates and removal of absent values, the tree's smallest and largest values, and what each removal reports and takes out, are those of the multiset of values inserted and not yet removed. Trees in use by different owners do not affect each other, and a comparison that refuses a value (or fails) leaves the tree usable and unchanged.",
     ["histories", "schedules", "fault_sequences"], "every sequence of operations on integer, floating-point (without NaN, with infinities and the extreme values of each type) and caller-defined keys with equal keys and distinct payloads, comparisons that fail at any point",
     "Removal from a tree has many shapes (leaf, one child, two children, root, duplicates); the tests cover a few by hand.",
     ["container/bst/", "container/comparable.go"], [("ordered insertion and successor replacement", "container/bst Bst")],
     ["min, max, removal verdicts, draining the tree"])
prop("C23", "A batch of strategies returns every strategy's own result in its place",
     "Evaluating a batch of strategies evaluates each exactly once per occurrence and returns only when all are done, with as many results as strategies, each in the position of its strategy and equal to what it gives alone, however long each takes and in whatever order they finish. Batches run concurrently do not affect each other, results do not change afterwards, and nothing is left running.",
     ["schedules", "inputs"], "every batch size (including none), mix of strategies, repetition of one strategy, evaluation times and finishing orders, several batches at once",
     "The tests evaluate a few strategies that finish in whatever order the machine gives; a result in the wrong place or a batch that returns early needs a particular finishing order.",
     ["utils/interface.go"], [("each strategy's result stored in its own slot", "utils/interface.go RunStrategies")],
     ["results and evaluation counts at the moment the batch returns and after"])
prop("C24", "Every computation copes with a history of any length, down to none",
     "While a service starts with no candles, one, or fewer than a computation's window, every indicator, strategy and per-candle series function returns without crashing, with exactly one entry per candle in each of its per-candle results. The same holds at every later length and after every restart.",
     ["histories", "crash_points", "inputs"], "every computation with supported parameters (periods from one up, two where a window needs it; windows longer than the history included), every length from zero up, services starting side by side",
     "The tests use one list of one comfortable length.",
     INDS, [("results sized by the input", "utils/helper.go, utils/ta/ta.go and Calculation methods")],
     ["panics, lengths of results"])
prop("C25", "A long-running service does not accumulate memory or goroutines",
     "A service that computes, reads feeds, resamples, plans, streams, evaluates batches and uses its queues and trees for ever on ever new data uses memory bounded by what it still holds: once a result, history, stream, instance, plan, key or queued value has been dropped, removed or finished, the library does not keep it. With every stretch of such work the memory in use and the number of goroutines come back to where they were.",
     ["histories", "schedules", "fault_sequences"], "every mix of repeated work by one or several callers, with data, parameters and dates that are new each time, objects made anew and objects used on a moving window, documents that were cut short",
     "A test runs each computation once or twice and does not look at memory; what accumulates is only visible over many rounds, and only when the data keep changing.",
     INDS + ["helpertools/", "container/", "utils/klines/", "utils/interface.go", "utils/commonutils/"], [("results and temporaries owned by the call or the instance", "no package-level state outside constants"), ("removed values unlinked", "container/queue Dequeue, container/bst removeNode"), ("stages end with their input", "helpertools Pipe, Drain")],
     ["heap in use after collection, goroutines left, at the end of every stretch of work"],
     note="Growth is only reported after stretches of doubling length, up to some thousand rounds, each added memory in proportion; a cache with a bound below that passes.")
prop("C26", "Damaged candles do no harm beyond themselves",
     "When a feed delivers candles whose numbers are no prices (not a number, infinite, zero, negative, absurdly large or small, in any of the fields), every indicator, strategy, view and per-candle series function still returns, without crashing or hanging, with one entry per candle, and with its results for the candles before the first damaged one exactly as they are without the damage. Once the candles have been corrected, calculating again, with the same instance or a new one, gives what it gives on a history that was never damaged, and other computations never notice.",
     ["fault_sequences", "histories", "schedules"], "every kind, place, extent and combination of damage to any fields of a history of any length, every computation with supported parameters, services working side by side",
     "The tests compute on one clean list. What a damaged value does depends on where it stands, which window it is in and what is computed after it.",
     INDS, [("values are computed forward from the candles", "Calculation methods, utils/helper.go, utils/ta/ta.go"), ("ordered windows", "container/bst")],
     ["panics, lengths, results before the damage, results after the correction"])
prop("C27", "A service decides the same however its history reached it",
     "A service that plans what it lacks, collects it request by request from a venue that fails, repeats, reorders, shortens and pads its answers, saves its history, loses its memory, restores what it saved or starts again, orders, de-duplicates and cuts the history in any order, and goes on as the market does, ends up with exactly the venue's candles; and every indicator, strategy, batch, view and resampled history it then computes is identical to what one gives that had the venue's history from the start.",
     ["fault_sequences", "histories", "crash_points", "schedules"], "every sequence of request failures, short, doubled, disordered, padded and holed pages, crashes with whole, torn or no snapshots, read faults, clean-up orders and request limits, for several services side by side, with any computations after every step",
     "The tests look at each function alone, on data built for it; that the parts fit together after faults is not tested at all.",
     INDS + ["utils/klines/", "utils/commonutils/", "utils/interface.go"], [("planning, coverage, clean-up, decoding and computing on one history", "utils/klines, utils/commonutils and the indicators")],
     ["collected histories against the venue's; results against a fresh process; results on resampled histories against those on the original"])
prop("C28", "A computation that fails harms nobody else",
     "When a computation cannot be done (no history given, a candle that is missing, columns of different lengths, impossible parameters, a strategy that fails or never answers, a document, queue or tree that refuses), only its caller bears it: it fails or returns, the data it was given stay as they were, nothing of it is left running, and every other computation, before, beside and after it, in the same batch afterwards or with the same instance once the data are whole, completes with exactly the result it gives alone in a fresh process.",
     ["fault_sequences", "schedules", "histories"], "every kind and place of failure, in every interleaving with sound computations by the same and other callers, on shared and separate data",
     "The tests only compute what can be computed. What a failure leaves behind (a lock held, a shared table half filled, a history half reordered) shows only in what comes next.",
     INDS + ["utils/interface.go", "utils/klines/", "container/", "utils/commonutils/common.go"], [("instances hold their own results, nothing is shared between computations", "Calculation methods"), ("batch evaluation", "utils/interface.go")],
     ["results against a fresh process, data at the end, goroutines left, callers that never come back"])
prop("C29", "Computing leaves the process as it was",
     "The library computes and does nothing else. Importing it, computing indicators and series, running and joining streams, sorting, cutting, planning and converting candles, using its queues and trees, formatting numbers, decoding documents and evaluating strategies, whether they succeed or fail, write nothing to standard output, standard error or any file, read no file but the one they were asked for, create, remove and rename nothing, open no connection and start no process. What the whole process shares, i.e. environment variables, arguments, working directory, standard streams, the local time zone, the default loggers (destination, prefix, flags), the default random generator and the sequence it gives, processor count and garbage collector settings, resource limits, signal handling, the global settings of the decimal and JSON packages it uses and the error values it exports, is at every moment, also while a computation is under way, exactly what the program has set.",
     ["schedules", "fault_sequences", "histories"], "every history of computations that succeed or fail, at every moment of their interleavings, under any settings of the program and changes of them by the program in between",
     "The tests compare results and never look at what else happens; a setting that is changed for a moment and restored shows only to somebody who looks at that moment, and a change only under settings that the tests do not have.",
     INDS + ["helpertools/", "container/", "utils/interface.go", "utils/klines/", "utils/commonutils/common.go"], [("no process-wide state is set, nothing is printed", "all packages"), ("one file is read, the one asked for", "utils/commonutils/common.go")],
     ["system calls of simulated goroutines, process-wide settings at arbitrary moments and afterwards"],
     note="Time zone data may be read. Changes of settings that are not listed pass.")

NA = [
    ("N01", "Every indicator computes its published formula", "For every candle history each indicator's values equal its published definition (for example the exponential average's recursion, the relative strength ratio, the directional index).",
     INDS, "A pure function of its input: no schedule, clock, I/O, fault or history enters the value. Simulation could only replay input generation; what does depend on a schedule or history is claimed as C09 to C12, C17, C19 and C24."),
    ("N02", "Trading signals follow their stated rules", "For every candle the side (buy, sell, hold) each strategy reports is the one its rule gives for its indicator values.",
     ["trend/", "oscillator/", "volume/", "channel/"], "A pure function of the indicator's values; no schedule, clock, I/O or fault."),
    ("N03", "Series primitives compute their definitions", "Windowed sums, extremes, averages, deviations, differences and element-wise arithmetic equal their definitions for every series and window.",
     ["utils/helper.go", "utils/ta/ta.go"], "Pure functions of their arguments; no schedule, clock, I/O or fault."),
    ("N04", "Regression fits are least-squares fits", "Linear and moving regressions give the slope, intercept and fitted values that minimise the squared error, for every series and window.",
     ["utils/regression.go", "utils/ta/ta.go"], "Pure functions of their arguments; no schedule, clock, I/O or fault."),
    ("N05", "Bounded and ordered outputs stay in their ranges", "Oscillators defined on 0..100 stay there, and upper channel lines are never below middle or lower ones, for every candle history.",
     ["oscillator/", "channel/", "trend/Rsi.go"], "A relation between values of pure functions; no schedule, clock, I/O or fault."),
    ("N06", "Decimal rounding is exact", "Rounding to a number of digits gives the nearest decimal for every value and digit count, and number parsing refuses what is not a number.",
     [H + "RoundDigit.go", "utils/commonutils/common.go"], "Pure functions of their arguments. That rounding a stream rounds each of its elements, in order, is part of C01."),
    ("N07", "Heikin-Ashi candles follow their formula", "Each Heikin-Ashi candle's open, high, low and close are those of the published recursion.",
     [K, "utils/klines/technical_analysis.go"], "A pure function of the history. That the conversion is detached from its source, does not change it and does not revise past candles is part of C10, C13 and C17."),
    ("N08", "Interval names and durations agree", "Every supported interval's short and long name denote its duration, and names of different intervals differ.",
     ["utils/klines/kline_type.go", K], "A pure function over a finite table."),
]

def mech(l):
    return [{"name": a, "where": b} for a, b in l]

LEVEL_NOTE = ("Seeded exploration of simulated executions of the real code, each exactly repeatable from its seed; every violation is minimised, replayed in a fresh process and written to a replay file. "
              "Evidence, not proof: schedules, faults and workloads are sampled. Trusts the simulator's scheduler and clocks (patched Go runtime), the harness oracles, and preemption at statement granularity under sequentially consistent memory.")
TECH = {
    "C09": "deterministic simulation: seeded statement-level interleavings of concurrent callers, compared with fresh-process references",
    "C10": "deterministic simulation: seeded interleavings with an observer of the shared data",
    "C11": "deterministic simulation: seeded histories with results overwritten by their owners",
    "C12": "deterministic simulation: seeded operation histories and concurrent readers, compared with fresh-process references",
    "C13": "deterministic simulation: seeded histories of views and their destruction against a model",
    "C14": "deterministic simulation with fault injection: lossy, duplicating, reordering feed, partitions, collector crashes, against a model",
    "C15": "deterministic simulation with fault injection: growing histories, missing candles, clock steps, against a reference resampler",
    "C16": "deterministic simulation with fault injection: failing, short, repeated requests and worker crashes, against a slot model",
    "C17": "deterministic simulation with fault injection: growing histories, forming candles, restarts",
    "C18": "deterministic simulation with fault injection: stepped wall clock against the recorded clock readings",
    "C19": "deterministic simulation with fault injection: clock steps and zones, compared with fresh-process references",
    "C20": "deterministic simulation with fault injection: simulated disk under the real read and decode path",
    "C21": "deterministic simulation: seeded worker histories against a list model",
    "C22": "deterministic simulation with fault injection: seeded owner histories, failing comparisons, against a multiset model",
    "C23": "deterministic simulation: seeded finishing orders and interleavings of batches",
    "C24": "deterministic simulation with fault injection: cold starts and restarts at every history length",
    "C26": "deterministic simulation with fault injection: damaged and corrected feed data, compared with fresh-process references and with the undamaged history",
    "C27": "deterministic simulation with fault injection: whole services over a faulty venue, network and disk with crashes, compared with fresh-process references",
    "C28": "deterministic simulation with fault injection: failing computations among sound ones, compared with fresh-process references",
    "C29": "deterministic simulation with fault injection: seeded interleavings of computations, some failing, with an observer of process-wide state; system calls intercepted",
    "C25": "deterministic simulation with fault injection: long runs of changing work, memory and goroutines compared between stretches",
}

def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["qtext"]},
                                "why_tests_cant": x["why"],
                                "anchors": {"files": x["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]], "mechanism": mech(x["mech"]), "observe_at": x["observe"], "hook_needed": None}}) + "\n")
        for id, title, st, files, reason in NA:
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": ["inputs"], "text": "every input"},
                                "why_tests_cant": "The tests sample a few fixed inputs.", "anchors": {"files": files, "mechanism": []}}) + "\n")
    checks = []
    for x in P:
        checks.append({"property": x["id"], "quick_cmd": "./check %s" % x["id"], "thorough_cmd": "./check %s --tier thorough" % x["id"],
                       "technique": x["technique"] or TECH.get(x["id"], "deterministic simulation with fault injection: seeded schedules, stalls and abandoned peers around real stream stages, against a sequence model"),
                       "level": "exploration", "level_note": x["note"] or LEVEL_NOTE})
    m = {"version": 1, "setup_cmd": "./check build",
         "hooks": {"guard": "none: /repo carries no hooks", "enable": "The checks build /repo's working tree with 'go build -overlay': instrumented copies of its source files and of a few Go runtime and syscall files are generated below /verif/build; /repo itself is not changed.", "source_commits": []},
         "checks": checks,
         "not_applicable": [{"property": i, "reason": r} for i, _, _, _, r in NA],
         "notes": "Replay a violation: ./check replay replays/FILE.json. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
