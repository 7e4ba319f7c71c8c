# Per property: harness, phases (variant, cases over all shards, soft seconds), rule.
COMMON = [
    "g++ 13 and glibc behave as documented; the flex and bison versions installed are the ones the build uses",
]
MATCH = COMMON + [
    "letters of the log are any bytes but 0, white space and '$'; letters of patterns are ASCII; timestamps are positive, strictly increasing multiples of 1/8 "
    "(so that floating point is exact)",
    "patterns whose skip tables need more than a fixed number of allocations are skipped and counted as discarded "
    "(the construction is exponential in the number of clocks)",
]
SMALL = COMMON + ["guard constants are small integers (the region graph is enumerated), or small integers times a common factor"]
CHECKS = {
    "C01": dict(
        harness="c01",
        quick=[("fast", 24000, 60), ("san", 320, 25)],
        thorough=[("fast", 240000, 560), ("san", 2400, 100)],
        rule="A random automaton (1-8 states, 0-3 clocks, multiple initial and accepting states, dense or sparse "
             "guards, read from DOT text or built through the API) and a log mixing walks of the automaton timed to "
             "the guards' boundaries with random events; the reported zones are compared, cell by cell, with the set of "
             "all matches computed by a reference matcher. Non-trivial: the pattern has a guard and at least one cell "
             "with a non-empty reference match set was compared exactly.",
        assumptions=MATCH),
    "C02": dict(
        harness="c02",
        quick=[("fast", 60000, 60), ("san", 320, 25)],
        thorough=[("fast", 240000, 560), ("san", 2400, 100)],
        rule="A random timed regular expression ending in '$' (all operators, all interval forms) is printed, parsed by "
             "the library, translated and matched against a log of timed samples of the expression; the reported zones "
             "are compared with a denotational reference matcher of the expression. Non-trivial: the expression has a "
             "time restriction and at least one cell with a non-empty reference match set was compared exactly.",
        assumptions=MATCH),
    "C03": dict(
        harness="c03",
        quick=[("fast", 400000, 50), ("san", 8000, 25)],
        thorough=[("fast", 1600000, 560), ("san", 8000, 100)],
        rule="A random timed regular expression (parsed, or built through the API) is translated to an automaton; 4-12 "
             "timed words (samples of the expression timed to its interval boundaries, mutations of them, random words) "
             "are judged by the automaton's own semantics and by the expression's. Non-trivial: the expression has a "
             "time restriction and at least one word belongs to the language.",
        assumptions=COMMON),
    "C04": dict(
        harness="c04",
        quick=[("fast", 160000, 45), ("san", 4000, 25)],
        thorough=[("fast", 2400000, 500), ("san", 64000, 150)],
        rule="A random automaton (1-12 states, 0-6 clocks, or translated from an expression) is printed as DOT and read "
             "back, written in a respelled form (order of statements and attributes, white space, quoting, comments, marks "
             "left out) and read, and copied; each result is compared with the original up to renaming of states. "
             "Non-trivial: at least three states and three transitions, one of them with a guard.",
        assumptions=COMMON + ["guards and resets are written in the printer's own form, which is the one documented",
                              "states are numbered or named; letters are printable characters that DOT can quote"]),
    "C14": dict(
        harness="c14",
        quick=[("fast", 24000, 50), ("san", 320, 25)],
        thorough=[("fast", 400000, 500), ("san", 4000, 120)],
        rule="A random expression (all operators) and a signal of up to ten values mixing timed samples of the expression "
             "with other values; the expression is parsed, translated for signal mode and matched by the library, and the "
             "zones are compared with a matcher that composes the relations between beginnings and ends by the operators' "
             "definitions. Non-trivial: the expression has a time restriction and a required match spans two values.",
        assumptions=COMMON + ["neighbouring values differ; durations under a repetition are closed or unbounded intervals",
                              "expressions whose unobservable steps can be repeated without time passing do not terminate; "
                              "they are cut off by the allocation budget and counted as discarded"]),
    "C15": dict(
        harness="c15",
        quick=[("fast", 240000, 45), ("san", 32000, 25)],
        thorough=[("fast", 4000000, 450), ("san", 400000, 200)],
        rule="An expression printed with random blanks, redundant or left-out parentheses and all interval forms, its "
             "mutations, or random token and byte strings are parsed by the library and by a reference parser: both "
             "reject, or both accept and the trees agree on the membership of sampled words. Non-trivial: the tree has at least four nodes and a sampled word belongs to it, or a "
             "mutated expression or a text of more than four bytes is rejected.",
        assumptions=COMMON + ["where the documented grammar is ambiguous, binary operators nest to the right with equal "
                              "rank and postfix operators bind to the nearest expression",
                              "texts are single lines; content after a newline is not judged, only that nothing crashes"]),
    "C16": dict(
        harness="c16",
        quick=[("fast", 12000, 60), ("san", 320, 25)],
        thorough=[("fast", 120000, 500), ("san", 3200, 150)],
        rule="A random automaton and a log of up to several thousand events are matched through a log container that "
             "records every read and discard and an answer container that records every report: reads per position, "
             "events held, memory growth, events read when a zone is reported, and the zones reported for prefixes of "
             "the log are judged. Non-trivial: zones were reported, for a log of at least five events whose read-ahead "
             "limits are known.",
        assumptions=MATCH),
    "C17": dict(
        harness="c17",
        quick=[("fast", 8000, 60), ("san", 240, 30)],
        thorough=[("fast", 96000, 560), ("san", 2400, 120)],
        rule="A random sequence of library calls (translate, copy, product, zone construction, print, match in each mode) "
             "on shared automata, expressions and logs, in event and signal mode, "
             "with DOT round trips and rejected expression texts in between; every result is compared with the same call in a fresh process, "
             "and inputs with themselves before the call. Non-trivial: two different kinds of call, and zones were reported.",
        assumptions=MATCH),
    "C05": dict(
        harness="c05", tools=["monaa", "tre2ta"], tool_variants=["san"],
        quick=[("fast", 16000, 45), ("san", 320, 25)],
        thorough=[("fast", 240000, 500), ("san", 4000, 120)],
        rule="A random expression or automaton and a log are given to the built tools along 2-4 random routes (expression "
             "positionally, with -e, or translated by tre2ta to standard output or to a file and read with -f; log on "
             "standard input, with -i or positionally; text or binary; long and short spellings in any order); the zones "
             "parsed from every output are compared with the reference matcher's. In a sixth of the cases the same in signal "
             "mode, compared with the library called in this process. Non-trivial: two different routes and "
             "at least one cell with a non-empty reference match set.",
        assumptions=MATCH + ["printed numbers have six decimals, which are exact for eighths"]),
    "C07": dict(
        harness="c07", tools=["monaa", "tre2ta"], tool_variants=["san"],
        quick=[("fast", 24000, 60), ("san", 1600, 25)],
        thorough=[("fast", 240000, 560), ("san", 16000, 120)],
        rule="A command line of one of eleven kinds (ordinary, help, conflicts, unknown or incomplete options, missing files, "
             "wrong expressions, wrong automata, damaged automata, damaged logs, translation, signal mode), each also in quiet mode, is run with the built tools; "
             "exit status, output and messages are compared with a model of the documented contract. Non-trivial: a "
             "command line with arguments.",
        assumptions=COMMON + ["files are in memory; numbers in damaged automata stay below 20",
                              "a run on a damaged file that takes more than 3 s of CPU time is discarded, not judged"]),
    "C06": dict(
        harness="c06",
        quick=[("fast", 3200000, 40), ("san", 160000, 25)],
        thorough=[("fast", 60000000, 400), ("san", 4000000, 200)],
        rule="A log of 0-60 events (rarely thousands) is written as text (all white space and number forms) or in the binary format and "
             "read back through the lazy reader by a random history of up to 40 fetches, accesses, discards (past the end too) and length "
             "queries, or at once through the vector reader; after every step the result is compared with a list model. "
             "Non-trivial: at least five events and a discard that removes events.",
        assumptions=COMMON + ["events are well-formed; letters are 1..126; binary doubles are in native byte order"]),
    "C08": dict(
        harness="c08",
        quick=[("fast", 400000, 45), ("san", 8000, 20)],
        thorough=[("fast", 1200000, 500), ("san", 16000, 150)],
        rule="Two random automata (0-2 clocks, with or without unobservable edges, or one automaton with itself); 3-8 "
             "timed words, walks of one of them or random, are judged by the product and by both inputs under one "
             "reference semantics. Non-trivial: some word is common and the product has a guard.",
        assumptions=SMALL + ["words have half-unit timestamps; unobservable steps are tried on the half-unit grid on all "
                             "three automata alike"]),
    "C09": dict(
        harness="c09",
        quick=[("fast", 320000, 45), ("san", 4000, 20)],
        thorough=[("fast", 1200000, 500), ("san", 16000, 150)],
        rule="A random automaton (up to 3 clocks, with or without unobservable edges) is unfolded by the library and "
             "compared with a region graph enumerated by the reference: reachable states, emptiness, states kept by "
             "pruning, untimed words up to five letters. Non-trivial: at least one clock, eight region states and three "
             "zones.",
        assumptions=SMALL + ["delays between steps are strictly positive, as in logs"]),
    "C10": dict(
        harness="c10",
        quick=[("fast", 16000, 60), ("san", 320, 20)],
        thorough=[("fast", 160000, 560), ("san", 3200, 100)],
        rule="A random automaton and a log of overlapping repetitions of its walks; every jump the skip tables allow "
             "(for a letter, for a state reached from a beginning) is checked against the beginnings of all matches "
             "computed by a reference. Non-trivial: a match begins after a cell from which some state was reached, and "
             "matches have at least two events.",
        assumptions=MATCH),
    "C11": dict(
        harness="c11",
        quick=[("fast", 3200000, 40), ("san", 160000, 20)],
        thorough=[("fast", 24000000, 400), ("san", 2400000, 200)],
        rule="Random intervals and sets of intervals (open, closed, unbounded, singular, with bounds 0..) are combined by "
             "one library operation and the result is compared with the set-theoretic result at every quarter up to 44. "
             "Non-trivial: the result is not empty, respectively the repetition has more than one summand.",
        assumptions=COMMON + ["bounds are small integers, so that a quarter grid decides equality of the sets",
                              "repetition is exact up to the single points where two adjacent open multiples touch, and "
                              "is not applied to singular intervals"]),
    "C12": dict(
        harness="c12",
        quick=[("fast", 8000000, 40), ("san", 400000, 20)],
        thorough=[("fast", 120000000, 400), ("san", 8000000, 200)],
        rule="A random history of up to 10 zone operations (tighten, elapse, reset, canonize, satisfiability, projection, "
             "intersection, guard extraction, comparison, abstraction) on 1-4 clocks; after every step the zone is "
             "compared with an independent integer difference-bound matrix. Non-trivial: at least three operations, one "
             "of which tightens.",
        assumptions=COMMON + ["integer bounds; clocks are non-negative"]),
    "C13": dict(
        harness="c13",
        quick=[("fast", 120000, 30), ("san", 4000, 15)],
        thorough=[("fast", 4000000, 400), ("san", 64000, 150)],
        rule="A random automaton (1-8 states, 0-5 clocks, built, read from DOT or copied) and 3-8 timed words (walks timed "
             "to the guards' boundaries, mutations of them, random words, words with simultaneous events) are judged by "
             "the library's membership test and by a reference that follows all runs. Non-trivial: a guard, and a "
             "member with at least two events.",
        assumptions=COMMON + ["no unobservable transitions; timestamps are multiples of 1/8"]),
    "C18": dict(
        harness="c18",
        quick=[("fast", 24000, 60), ("san", 320, 25)],
        thorough=[("fast", 240000, 560), ("san", 2400, 100)],
        rule="As C01 with automata whose accepting states may be entered by any letter; the reference reports matches "
             "ended by the inserted '$' anywhere and matches ended exactly by an event. Non-trivial: the pattern has a "
             "guard, some match ends at an event, and a cell was compared exactly.",
        assumptions=MATCH),
    "C19": dict(
        harness="c19",
        quick=[("fast", 24000, 60), ("san", 320, 25)],
        thorough=[("fast", 240000, 560), ("san", 2400, 100)],
        rule="As C01 through the signal-style matcher: the last event of a match is moved forward to the match's end. "
             "Non-trivial: the pattern has a guard and a cell with matches was compared exactly.",
        assumptions=MATCH),
    "C20": dict(
        harness="c20",
        quick=[("fast", 24000, 60), ("san", 320, 20)],
        thorough=[("fast", 240000, 560), ("san", 2400, 100)],
        rule="A random automaton with unobservable edges (no unobservable cycle, none into an accepting state) and a "
             "log; reported matches must be matches when unobservable steps may coincide with their neighbours, and all "
             "matches with strictly increasing steps must be reported. Non-trivial: an unobservable edge, a clock and a "
             "strict match.",
        assumptions=MATCH + ["when a state is reached only by simultaneous steps, completeness is not judged"]),
    "C21": dict(
        harness="c21",
        quick=[("fast", 24000, 15), ("san", 800, 10)],
        thorough=[("fast", 800000, 250), ("san", 8000, 100)],
        rule="Either a random history of reports, clears and reserves (zones with arbitrary finite or infinite bounds, "
             "the same object reported again after a change) on the list, the counter, the printer and the quiet "
             "printer, or one run of a matcher that reports to all four. The list is compared with a "
             "model, the counts with each other, the printed text with the reported zones. Non-trivial: at least three "
             "reports in a history, two zones in a run.",
        assumptions=COMMON + ["printed numbers are exact to the sixth decimal"]),
}
