#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOASSERT = ("The indicator tests load data/test.json, which the repository does not contain, so they all fail before "
            "computing anything, and they assert nothing; no test settles a single value.")
IND = ["trend", "channel", "oscillator", "volume"]

prop("C01", "Every indicator publishes exactly one record per candle, in candle order",
     "For any candle series, including an empty one and one shorter than the indicator's period, every indicator publishes exactly as many records as there are candles, and record i carries the time of candle i. Where the indicator offers signals, it also returns exactly one signal per candle. No indicator panics on such a series.",
     ["inputs", "configurations"], "all candle series of any length (0 included), all indicators, all positive parameters",
     NOASSERT + " Lengths around the period are where records get lost, duplicated or shifted.",
     IND, [("Calculation / GetData / AnalysisSide of every indicator", "trend/*.go, channel/*.go, oscillator/*.go, volume/*.go")],
     observe_at=["GetData()", "AnalysisSide()"])
prop("C02", "Published values and signals never depend on later candles",
     "For every indicator except the smart-money structure lines (which are drawn back to the pivot they start from), the records and signals published for the first k candles are the same whether or not more candles follow. Appending candles only ever appends records.",
     ["inputs", "histories"], "all series and every split point k of each series, all indicators and parameters",
     NOASSERT + " Look-ahead is a relation between two runs on different inputs, which no test compares.",
     IND + ["utils/ta/ta.go", "utils/regression.go"], [("moving window helpers", "utils/ta/ta.go"), ("indicator loops", "trend/*.go, channel/*.go, oscillator/*.go, volume/*.go")])
prop("C03", "Observing an indicator never changes what it shows",
     "Whatever the order and number of calls to an indicator's calculation, data getters, signal analysis and (while it keeps its candles) clearing, each call returns what a freshly built indicator over the same candles would return. Calculating again neither duplicates records nor carries state over from the previous calculation.",
     ["histories"], "all call sequences over the public methods of each indicator instance",
     "Each test calls one constructor and one getter once; the order and repetition of calls is a history no test varies. " + NOASSERT,
     IND, [("lazy calculation on first read", "GetData/AnalysisSide in every indicator"), ("state kept between calculations", "trend/SmartMoneyConcepts.go")])
prop("C04", "Indicators leave the candles untouched and do not influence one another",
     "Building, calculating, reading and clearing indicators never changes the candles, their order or their number. Two indicators over the same candles publish the same whatever other indicators are built, calculated or read before or between. Running a list of strategies returns their named signals in the order the strategies were given, each equal to what the strategy returns on its own.",
     ["histories", "inputs"], "all interleavings of calls on several indicators sharing one candle series",
     "Tests build a single indicator on its own copy of the data; sharing and aliasing between indicators is never exercised.",
     IND + ["utils/interface.go", "utils/klines/technical_analysis.go"], [("GetOHLC copies", "utils/klines/technical_analysis.go"), ("RunStrategies", "utils/interface.go")])
prop("C05", "Moving averages equal their definitions at every bar",
     "At every bar the simple, exponential, double exponential, smoothed (RMA) and weighted moving averages, as functions over a list and as indicators over closing prices, equal the textbook definition over the values so far. Warm-up follows the library's convention: simple and smoothed averages average what there is, the exponential one starts at the first value, the weighted one and the plain windowed mean are 0 until the window is full.",
     ["inputs", "configurations"], "all value series and all periods >= 1",
     NOASSERT + " A running-sum slip shows only past the first window, after the values a sample test would look at.",
     ["utils/ta/ta.go", "trend/Sma.go", "trend/Ema.go", "trend/Ma.go", "trend/Dema.go", "trend/Rma.go"],
     [("Sma, Ema, Dema, Rma, Wma, MA", "utils/ta/ta.go")])
prop("C06", "Window extremes and pivots are exact",
     "The moving maximum and minimum of a list are, at every bar, the extreme of the last period values (of all values during warm-up), whatever ties and repeats the list holds. Highest and lowest of the last n values, pivot highs and lows confirmed right bars later, and the Donchian channel (upper, lower, and their midpoint over closes) are exactly the values this definition gives.",
     ["inputs", "configurations"], "all value series including repeated values, all window lengths >= 1, all pivot widths >= 0",
     "The moving window is kept in a search tree that must hold duplicates and lose the right one; the two tree tests insert a handful of distinct values. " + NOASSERT,
     ["utils/ta/ta.go", "container/bst/bst.go", "channel/DonchianChannel.go"],
     [("Max, Min", "utils/ta/ta.go"), ("Highest, Lowest, PivotHigh, PivotLow, PivotMax, PivotMin", "utils/ta/ta.go")])
prop("C07", "Volatility measures equal their definitions at every bar",
     "At every bar true range, average true range and its normalised form, chandelier exits, standard deviation, variance, mean deviation, Bollinger bands (middle plus or minus the configured number of deviations), Keltner bands (exponential average plus or minus twice the ATR) and the Ulcer index equal their definitions over the candles so far. True range always counts the gap from the previous close in both directions.",
     ["inputs", "configurations"], "all candle series (gaps up and down, flat stretches), all periods",
     NOASSERT, ["utils/ta/ta.go", "trend/Atr.go", "channel/Boll.go", "channel/KeltnerChannel.go", "channel/UlcerIndex.go"],
     [("TRange, TrueRange, Atr, Natr, Variance, StdDev, Dev, MeanDeviation, SD", "utils/ta/ta.go"), ("Atr, ChandelierExit", "trend/Atr.go"), ("bands", "channel/*.go")])
prop("C08", "Momentum oscillators equal their definitions and stay in range",
     "At every bar RSI, stochastic RSI, the stochastic oscillator, KDJ, Williams %R, both CCI variants and the money flow index equal their definitions over the candles so far. RSI, RSV, stochastic %K and the money flow index lie in 0..100 and Williams %R in -100..0 for every series of valid candles.",
     ["inputs", "configurations"], "all valid candle series and all periods >= 2 (>= 1 where the definition allows it)",
     NOASSERT, ["trend/Rsi.go", "trend/StochRsi.go", "trend/Kdj.go", "trend/Cci.go", "trend/AiCoinCCI.go", "oscillator/WilliamsR.go", "oscillator/StochasticOscillator.go", "volume/MoneyFlowIndex.go", "utils/ta/ta.go"],
     [("rsi", "trend/Rsi.go"), ("calculationKD", "trend/Kdj.go"), ("Stochastic, CCI, AiCoinCCI", "utils/ta/ta.go")])
prop("C09", "Difference-of-average oscillators equal their definitions at every bar",
     "At every bar MACD (difference line, its signal average, and twice their gap), the absolute and percentage price oscillators, the awesome oscillator, the Chaikin oscillator, the volume oscillator and the Ichimoku lines equal their definitions over the candles so far, with the periods they were configured with.",
     ["inputs", "configurations"], "all candle series and all periods >= 1",
     NOASSERT, ["trend/Macd.go", "oscillator/AbsolutePriceOscillator.go", "oscillator/PercentagePriceOscillator.go", "oscillator/AwesomeOscillator.go", "oscillator/ChaikinOscillator.go", "oscillator/VolumeOscillator.go", "oscillator/IchimokuCloud.go"],
     [("Calculation", "trend/Macd.go, oscillator/*.go")])
prop("C10", "Volume accumulators equal their recurrences at every bar",
     "At every bar on-balance volume, accumulation/distribution, negative volume index, volume-price trend, force index, ease of movement, Chaikin money flow and the volume-weighted moving average equal their recurrences over the candles so far. Bars with zero volume or with high equal to low contribute nothing rather than an undefined value, and equal closes leave on-balance volume unchanged.",
     ["inputs", "configurations"], "all valid candle series including zero-volume and flat bars, all periods >= 1",
     NOASSERT, ["volume"], [("Calculation", "volume/*.go")])
prop("C11", "A signal is raised exactly when the published values meet its rule",
     "On every bar each strategy returns Buy or Sell exactly when the values it publishes for this bar and the previous ones (and the close) satisfy its documented crossing or threshold rule, and Hold otherwise. Touching a line without crossing it is not a crossing, and bars without enough history are Hold.",
     ["inputs", "histories"], "all candle series, in particular ones that touch thresholds exactly, all strategies",
     NOASSERT + " Touch-versus-cross and first-bar behaviour need exact ties that random prices never produce.",
     IND + ["utils/Side.go"], [("AnalysisSide", "trend/*.go, channel/*.go, oscillator/*.go, volume/MoneyFlowIndex.go")])
prop("C12", "Trailing-stop indicators follow their ratchet-and-flip state machine",
     "SuperTrend, pivot-point SuperTrend and the UT Bot trailing stop evolve bar by bar as their state machine prescribes: while the trend holds the stop only moves in the trend's direction, it flips exactly when the close crosses the previous stop, and the flip marker appears exactly on the flip bar. The values published are those of this machine at every bar.",
     ["inputs", "histories"], "all valid candle series and parameters; flips may lie any number of bars apart",
     NOASSERT + " Flip conditions depend on state accumulated over the whole history.",
     ["trend/SuperTrend.go", "trend/PivotPointSuperTrend.go", "trend/UTBot.go"], [("Calculation", "trend/SuperTrend.go, trend/PivotPointSuperTrend.go, trend/UTBot.go")])
prop("C13", "Counting strategies signal on the exact bar their count completes",
     "Trader XO signals only on the first bar of a new fast/slow ordering, the reversal-signal strategy signals exactly when the ninth consecutive close on one side of the close four bars earlier meets its price condition, and the EMA tunnel strategy signals only with all its averages stacked, a matching candle colour, and the averages' cross within the preceding ten bars. Each publishes the averages its signals are based on, equal to their definitions.",
     ["inputs", "histories"], "all candle series; the counted runs may start, break and restart anywhere",
     NOASSERT + " A run of nine, or a cross exactly ten bars back, is a history no sample hits by accident.",
     ["trend/TraderXO.go", "trend/ReversalSignals.go", "trend/EMAVegas.go"], [("AnalysisSide / Calculation", "trend/TraderXO.go, trend/ReversalSignals.go, trend/EMAVegas.go")])
prop("C14", "Smart-money structure lines and order blocks follow the structure machine",
     "Swing points alternate between tops and bottoms at both scales; a close crossing an unbroken swing level draws one structure line from the swing to the breaking bar, labelled change-of-character when it goes against the current trend of its own scale and break-of-structure otherwise, and each swing level is broken at most once. Each break records one order block, and a block stays listed until a close invalidates it or the list is full. Equal highs and lows, and the strong and weak levels, follow the same swings.",
     ["inputs", "histories"], "all valid candle series and swing lengths >= 1, in particular series long enough for volatility filtering (more than 200 candles)",
     NOASSERT + " The machine has a dozen state variables whose interplay shows over hundreds of bars.",
     ["trend/SmartMoneyConcepts.go", "trend/SmartMoneyConcepts_type.go"], [("Calculation, swings, obCoord", "trend/SmartMoneyConcepts.go"), ("order block list", "trend/SmartMoneyConcepts_type.go")])
prop("C15", "Breakout probabilities are the tallied frequencies of the history so far",
     "At every bar the breakout-probability levels lie at the configured percentage steps above the high and below the low, each shown with the percentage of earlier and current bars after a candle of the same colour on which that level's condition was met, as last updated. The win and loss counters together count exactly the bars judged so far, each bar once, by whether the side judged more probable was reached.",
     ["inputs", "histories"], "all valid candle series, all step sizes, any number of lines (fewer than 1 taken as 1, more than 5 as 5)",
     NOASSERT, ["trend/BreakoutProbability.go"], [("Calculation, score, backtest", "trend/BreakoutProbability.go")])
prop("C16", "The search tree is a multiset",
     "After any sequence of inserts and removals the tree holds exactly the values inserted and not yet removed, duplicates counted separately. Minimum and maximum report the smallest and largest value held (nothing when empty), and removal succeeds exactly when the value is held and takes out one copy.",
     ["histories", "inputs"], "all operation sequences over any values (floats, integers, custom comparables)",
     "Two tests check a few fixed sequences; removing inner nodes, roots and duplicates depends on the shape built by the history.",
     ["container/bst/bst.go", "container/comparable.go"], [("Insert, Remove, Min, Max", "container/bst/bst.go"), ("Compare", "container/comparable.go")])
prop("C17", "The queue is first-in first-out and loses nothing",
     "After any sequence of operations the queue returns exactly the values enqueued and not yet dequeued, in insertion order, each once. It reports empty exactly when nothing is held, and dequeueing an empty queue is refused with a panic that leaves the queue usable.",
     ["histories"], "all operation sequences",
     "One test runs a single short sequence; draining and refilling is not exercised.",
     ["container/queue/queue.go"], [("Enqueue, Dequeue, Empty", "container/queue/queue.go")])
prop("C18", "Channel operators deliver every value once, in order, and then close",
     "For every interleaving of producer, operator and consumers, mapping, combining, duplicating, shifting, skipping, piping and collecting channels deliver exactly the values their definition gives, each once and in order, to every output, and close every output after the last value. Combining two channels ends with the shorter one, and the comparison helper accepts exactly pairs of equal streams.",
     ["schedules", "inputs"], "all interleavings of producers, operators and consumers, all input lengths and buffer sizes, unequal input lengths",
     "Tests feed a pre-filled buffered channel and read it back in one goroutine; blocking producers, slow consumers and unequal lengths are schedules they never run.",
     ["helpertools"], [("Apply, Operate, Duplicate, Shift, Skip, Pipe, Drain, Slice2Chan, Chan2Slice, CheckEquals", "helpertools/*.go"), ("SmaT", "utils/ta/ta.go")])
prop("C19", "Channel pipelines neither deadlock nor strand a producer",
     "A pipeline built from the channel operators terminates once its inputs are closed and its outputs are read concurrently: no operator goroutine stays behind, and every producer can finish its sends. When one side of a combination ends early, the values still coming on the other side are consumed so that its producer is not blocked.",
     ["schedules"], "all interleavings and relative speeds of producers, operators and consumers; all input lengths",
     "Leaked goroutines and blocked senders do not fail a test that only looks at the output values.",
     ["helpertools", "utils/ta/ta.go"], [("Operate, Duplicate, Shift, Drain", "helpertools/*.go"), ("SmaT", "utils/ta/ta.go")])
prop("C20", "Upscaling candles conserves prices, volume and time",
     "Converting a gap-free series to a longer whole-multiple interval yields one candle per complete group counted from the first candle: it opens with the group's first open, closes with its last close, spans its highest high and lowest low, sums its volume, amount and trade count, and carries the time of its first candle and its own change and direction. Candles of an incomplete last group contribute to nothing. Anything that cannot be converted exactly is refused with an error and without panicking, and the source is unchanged.",
     ["inputs", "configurations"], "all gap-free series of any length (0 included) and alignment, all pairs of whole-second intervals",
     "The conversion test depends on the current date and checks counts of synthetic candles whose prices are all alike, so mixed-up groups cannot be seen.",
     ["utils/klines/kline.go"], [("ConvertToNewInterval", "utils/klines/kline.go")])
prop("C21", "Candle list maintenance keeps exactly the candles it should",
     "Removing duplicates keeps the first candle of every time and the order of the rest; restricting to a range keeps exactly the candles at or after the start and before the end (the start itself always included), in order; sorting permutes the candles into ascending or, when asked, descending time. The copying form of the restriction returns independent candles and leaves the original alone.",
     ["inputs", "histories"], "all candle lists (unsorted, with repeated times) all ranges of whole seconds, and all sequences of these operations",
     "The sort test fails on the original code and is not run; the other operations are tested on one sorted list.",
     ["utils/klines/kline.go"], [("RemoveDuplicates, RemoveOutsideRange(Copy), SortCandlesByTimestamp, Clear", "utils/klines/kline.go")])
prop("C22", "Date ranges are partitioned into whole intervals without gap or overlap",
     "Splitting a time range yields requests that cover it from the rounded start to the last whole interval without gap or overlap, in order, each holding at most the limit of intervals (no limit means one request), each interval exactly one interval long. A time has data exactly when it falls in an interval marked as having data, and the interval count is the number of whole intervals between two times.",
     ["inputs", "configurations"], "all start/end pairs, intervals and limits (0 included)",
     "Tests check a few date pairs with round numbers; limits that do not divide the count are where requests get lost.",
     ["utils/klines/kline.go", "utils/commonutils/common.go"], [("CalculateCandleDateRanges, HasDataAtDate, TotalCandlesPerInterval", "utils/klines/kline.go"), ("StartEndTimeCheck", "utils/commonutils/common.go")])
prop("C23", "Derived candles and price series match their definitions",
     "For every candle, the median, typical and average prices are the means of the prices they name, and the column view lists open, high, low, close, volume, direction and time of every candle in order. A Heikin-Ashi candle closes at the average price, opens at the middle of the previous candle's body (its own for the first), and spans the candle and its own open, so that low <= open and close <= high; it keeps the candle's time, volume, amount and trade count, and the source is unchanged.",
     ["inputs"], "all valid candle series of any length",
     "No test asserts anything about these series.",
     ["utils/klines/technical_analysis.go"], [("GetOHLC, HL2, HLC3, OHLC4, ToHeikinAshi", "utils/klines/technical_analysis.go")])
prop("C24", "Indicators stay finite and recover on degenerate markets",
     "On valid candles every published number is finite: flat stretches, zero volume, a single candle, or a series shorter than the period never produce NaN or infinity. A degenerate stretch does not disable an indicator: once prices move again its values again follow its definition.",
     ["inputs", "histories"], "all valid candle series including flat stretches and zero volume before, between and after movement, all indicators",
     NOASSERT + " Divisions by zero need stretches of exactly equal prices, and poisoned running sums show only afterwards.",
     IND + ["utils/ta/ta.go", "utils/regression.go"], [("divisions in indicator loops", "trend/*.go, channel/*.go, oscillator/*.go, volume/*.go"), ("Divide", "utils/ta/ta.go")])
prop("C25", "Regression values are the least-squares fit of their window",
     "At every bar the linear regression value, slope, intercept and angle, the moving least-square line and the values derived from it (regression candles with their signal line) are those of the least-squares line through the last period points, and 0 before the window is full where the definition needs a full window. Fitting an exact line returns that line.",
     ["inputs", "configurations"], "all value series and all periods >= 2",
     NOASSERT + " Incremental window sums go wrong only after the window has moved.",
     ["utils/ta/ta.go", "utils/regression.go", "trend/LinearRegressionCandles.go"], [("LinearReg, LinearRegSlope, LinearRegIntercept, LinearRegAngle", "utils/ta/ta.go"), ("LeastSquare, MovingLeastSquare and the regressions built on them", "utils/regression.go")])
prop("C26", "Directional, projection and heat indicators equal their definitions",
     "At every bar the vortex lines, the directional indicators and ADX, the Camarilla levels around each candle, the projection oscillator and its smoothing, and the stochastic heat lines equal their definitions over the candles so far, with the configured periods and averages.",
     ["inputs", "configurations"], "all valid candle series and all periods >= 1",
     NOASSERT, ["trend/Vortex.go", "trend/AverageDirectionalIndex.go", "oscillator/Camarilla.go", "oscillator/ProjectionOscillator.go", "trend/StochasticHeat.go"],
     [("Calculation", "trend/Vortex.go, trend/AverageDirectionalIndex.go, oscillator/Camarilla.go, oscillator/ProjectionOscillator.go, trend/StochasticHeat.go")])
prop("C27", "Series operators act element by element, cumulatively or shifted as defined",
     "Adding, subtracting, multiplying and dividing series, shifting, differencing, percentage change, sums over a window, signs, positive and negative parts, absolute values, powers, roots, rounding, totals, means and crossings of the last value give at every position what their definition gives, without modifying their arguments. Division by zero yields 0 in the element-wise quotient.",
     ["inputs"], "all series of equal length and all shifts and windows >= 1",
     "Only the standard deviation and one channel average have tests; the operators every indicator is built from have none.",
     ["utils/ta/ta.go"], [("Add, Subtract, Multiply, Divide, ShiftRight, Diff, PercentDiff, Sum, ExtractSign, Keep*, Abs, Pow, Sqrt, Round*, Cum, Mean, CrossOver, CrossUnder, GenerateNumbers, Nz", "utils/ta/ta.go")])
prop("C28", "Helpers round, parse, store and name exactly",
     "Rounding a number to a number of decimals (or to a power of ten) returns the nearest multiple, halves away from zero, whatever the size of the number; a whole number is its own rounding. A text is parsed exactly when it is a decimal number, to the nearest double, and anything else is refused with an error; a printed number parses to itself. Candle lists stored as JSON decode to equal lists, and broken data or a destination that is not a pointer is refused. A file is read byte for byte, and a missing one is refused. Replacing undefined values (NaN) changes nothing else. Signals print as BUY, SELL and HOLD in order, and every named interval lasts what its name says.",
     ["inputs"], "all finite numbers, numbers of decimals, texts, candle lists, lists of signals and named intervals",
     "Two tests round four numbers to two decimals; parsing, storing and the names have no test.",
     ["helpertools/RoundDigit.go", "helpertools/RoundDigits.go", "utils/ta/ta.go", "utils/commonutils/common.go", "utils/Side.go", "utils/klines/kline_type.go", "utils/klines/kline.go"],
     [("RoundDigit(s), RoundDigits(All), Nz(s)", "helpertools/*.go, utils/ta/ta.go"), ("FloatFromString, FormatDecimalFloat64, JSONDecode, If", "utils/commonutils/common.go"), ("Side.String, Sides.Strings", "utils/Side.go"), ("Interval constants, String, Duration", "utils/klines")])
prop("C29", "Indicators can be used at the same time",
     "Different indicators, functions of lists and readings of a candle list, over the same candles or over different ones, can be built, calculated and read by several goroutines at the same time: each call answers what it answers alone, however the calls overlap, and no two of them access memory without order. Each indicator itself is used by one goroutine at a time, and the candles are not changed meanwhile.",
     ["schedules", "inputs"], "all overlaps of calls on all combinations of indicators and all valid candle series",
     "Every test is sequential; a shared buffer or cache shows only when calls overlap, and then only sometimes.",
     IND + ["utils/ta/ta.go", "utils/regression.go", "utils/klines/technical_analysis.go", "container/bst/bst.go"],
     [("indicators keep what they compute to themselves", "trend/*.go, channel/*.go, oscillator/*.go, volume/*.go"), ("GetOHLC copies the columns", "utils/klines/technical_analysis.go"), ("list functions work on their own memory", "utils/ta/ta.go, container/bst/bst.go")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
