"""How much each check explores, and what it says about itself."""

MINIMISE_S = 60  # wall seconds spent on making a violation smaller

LIB = "github.com/idoall/stockindicator and every dependency it has, compiled from source with preemption points before every statement of the library"
RT = "Go runtime: goroutines, channels, select, mutexes, maps, timers (only the choice of who runs next, the clocks and the random numbers come from the simulator)"
CALLERS = "callers, services and market data feeds are simulated goroutines written by the harness"

ASSUMPTIONS = [
    "Preemption happens between statements, between the read and the write of x op= y, x++ and x = f(x), and at every channel, lock, sleep and goroutine start; not inside one machine-level operation. Data races that only weak memory ordering exposes are out of reach.",
    "GOMAXPROCS is 1 and one goroutine runs at a time, as the simulator decides.",
    "Garbage collection runs between simulated runs only (C25: also between stretches of work).",
    "A clean batch is evidence for the schedules, faults and workloads it sampled, not a proof.",
]


def p(rule, quick, thorough, chunk, det, real, stub, assume=(), cap=(420, 780)):
    return {"rule": rule, "quick": (quick[0], quick[1], chunk, cap[0]), "thorough": (thorough[0], thorough[1], chunk * 4, cap[1]),
            "det": det, "real": [LIB, RT] + list(real), "stub": [CALLERS] + list(stub), "assume": list(assume)}


STREAM = ["the stream stages: slice source, apply, pipe, duplicate, operate, shift, skip, round, streaming average, drain, collect"]
REFS = "reference results come from the same code, run alone in a fresh process, at another time and in another zone than the simulated one"

PLAN = {
    "C01": p("at least one element travelled through the pipelines", (210000, 21000), (2400000, 240000), 700, 600, STREAM, []),
    "C02": p("at least one element travelled through the pipelines", (210000, 21000), (2400000, 240000), 700, 600, STREAM, []),
    "C03": p("at least one element travelled through the fan-out", (210000, 21000), (2400000, 240000), 700, 600, STREAM, []),
    "C04": p("a producer was paused before its end and the delivered results were checked at that moment", (180000, 18000), (2000000, 200000), 700, 600, STREAM, []),
    "C05": p("a consumer stopped while producers had more to deliver", (72000, 7200), (500000, 50000), 200, 300, STREAM, []),
    "C06": p("every run: at least one comparison of streams", (210000, 21000), (2400000, 240000), 700, 600, ["stream comparison"], []),
    "C07": p("the stream was longer than the window", (180000, 18000), (2000000, 200000), 700, 600, ["streaming average", "slice source", "collect"], []),
    "C08": p("at least one element travelled through a pipeline that stayed healthy", (120000, 12000), (2000000, 200000), 700, 600, STREAM, []),
    "C09": p("two computations overlapped in simulated time", (36000, 4000), (200000, 24000), 50, 120, ["all indicators, strategies and series functions"], [REFS]),
    "C10": p("several callers worked on the shared data", (30000, 3400), (200000, 24000), 50, 120, ["all indicators, strategies, series functions and views"], []),
    "C11": p("several results were held and one of them was overwritten by its owner", (18000, 2000), (150000, 16000), 50, 120, ["all indicators and series functions"], [REFS]),
    "C12": p("one instance was calculated or read more than once", (34000, 3800), (240000, 28000), 50, 120, ["all indicators"], [REFS]),
    "C13": p("several views were held and one of them was destroyed by its owner", (60000, 6000), (1200000, 120000), 400, 400, ["copies, projections and conversions of candle histories"], []),
    "C14": p("at least one fault hit the feed", (72000, 9600), (2000000, 250000), 600, 600, ["sorting, de-duplication, range cutting and clearing of candle histories"], ["the venue, the relays and the network between them"]),
    "C15": p("at least one history was resampled and compared with the model", (180000, 24000), (2000000, 250000), 600, 600, ["resampling of candle histories"], ["the feed the history comes from"]),
    "C16": p("a plan was made and carried out", (120000, 12000), (2400000, 240000), 800, 600, ["backfill planning, slot counting, coverage marking and lookup"], ["the venue answering the requests, the store of fetched candles"]),
    "C17": p("results for closed candles were compared after the history had grown", (90000, 10000), (1000000, 110000), 300, 400, ["all indicators and causal series functions"], ["the feed the history comes from"]),
    "C18": p("every run: at least one range was checked", (160000, 16000), (2400000, 240000), 800, 600, ["date range checking"], ["wall and monotonic clock, time zone"]),
    "C19": p("a clock or zone fault was injected while computations ran", (14000, 1700), (130000, 16000), 50, 120, ["all indicators, strategies, series functions and views"], [REFS, "wall and monotonic clock, time zone"]),
    "C20": p("at least one disk fault was injected", (75000, 7500), (1600000, 160000), 500, 600, ["file reading (package os down to the system calls) and JSON decoding (bytedance/sonic, JIT-compiled)"], ["open, read, pread, seek, stat, fstat and close of files below the simulated directory: an in-memory disk"]),
    "C21": p("several workers used the queues", (160000, 16000), (2400000, 240000), 800, 600, ["the queue"], []),
    "C22": p("a tree held more than three keys", (75000, 9000), (1600000, 180000), 500, 600, ["the search tree"], ["comparison methods of the callers' key type"]),
    "C23": p("a batch of more than two strategies was evaluated", (16000, 1800), (260000, 30000), 60, 120, ["batch evaluation, all strategies"], ["most strategies of a batch are harness objects that count and delay their evaluation"]),
    "C24": p("a computation on a short history was carried out", (120000, 12000), (1200000, 120000), 400, 400, ["all indicators, strategies and causal series functions"], ["the feed the history comes from"]),
    "C25": p("memory in use was compared between stretches of work", (24000, 2000), (240000, 20000), 60, 100, ["all indicators, strategies, series functions, views, streams, plans, containers and JSON decoding", "garbage collector, at the end of every stretch of work"], []),
    "C26": p("a computation met damaged candles", (20000, 2000), (240000, 24000), 60, 120, ["all indicators, strategies, series functions and views"], [REFS, "the feed the candles come from"]),
    "C27": p("a service computed on a history it had collected", (8000, 800), (100000, 10000), 40, 100, ["planning, coverage, clean-up, resampling, file reading (down to the system calls), JSON decoding, batches, all indicators, strategies, series functions and views"], [REFS, "the venue and the network", "open, read, pread, seek, stat, fstat and close of files below the simulated directory: an in-memory disk"]),
    "C28": p("a computation failed among sound ones", (9000, 900), (110000, 11000), 50, 100, ["all indicators, strategies, series functions and views, batch evaluation, containers, JSON decoding"], [REFS]),
    "C29": p("everything that was asked for came to its end, under observation", (12000, 1200), (140000, 14000), 50, 100, ["all packages of the library, decimal rounding, JSON decoding"], ["writes, file and process operations and connections that computations may not do: refused at the system call and reported", "open, read, pread, seek, stat, fstat and close of files below the simulated directory: an in-memory disk"]),
}
