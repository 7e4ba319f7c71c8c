PB = "property-based testing: "
SAMPLED = "Sampled, not exhaustive; trusts the reference in /verif/harness and the compiler. "
NOTES = {
 "C01": (PB + "generated automata and logs against a reference matcher, exact set comparison", SAMPLED + "Each case compares the complete set of (t,t') of a log, so that both missed and spurious matches show."),
 "C02": (PB + "generated expressions and logs against a denotational reference matcher", SAMPLED + "Complete set of (t,t') per case."),
 "C03": (PB + "generated expressions and timed words, automaton semantics against denotational semantics", SAMPLED + "Language equality is sampled on words timed to the interval boundaries."),
 "C04": (PB + "print-parse round trip and respelling of DOT texts of generated automata", SAMPLED),
 "C05": (PB + "differential runs of the command-line tools along different routes", SAMPLED + "The reference is agreement between routes and with the in-process reference matcher."),
 "C06": ("model-based (stateful) property-based testing of generated operation histories against a list model", SAMPLED),
 "C07": (PB + "generated command lines, files and byte mutations against a model of the documented contract", SAMPLED),
 "C08": (PB + "generated pairs of automata, product language against both components", SAMPLED + "Language equality is sampled on walks of either component."),
 "C09": (PB + "generated automata against an enumerated region graph", SAMPLED + "Complete per automaton for reachability, emptiness and pruning; untimed language to five letters."),
 "C10": (PB + "generated automata and self-overlapping logs, every permitted jump against the reference's match beginnings", SAMPLED + "Judges soundness of the jumps only, not their size."),
 "C11": (PB + "generated intervals against set arithmetic on a grid that separates them", SAMPLED),
 "C12": ("model-based (stateful) property-based testing of generated histories of zone operations against an independent matrix", SAMPLED),
 "C13": (PB + "generated automata and timed words, the membership test against a reference that follows all runs", SAMPLED),
 "C14": (PB + "generated signal expressions and signals against a denotational reference matcher", SAMPLED),
 "C15": (PB + "printed and mutated expressions against a reference parser, byte fuzzing under sanitizers", SAMPLED),
 "C16": (PB + "instrumented log and answer containers on generated histories: reads, reports, discards and prefixes", SAMPLED),
 "C17": ("metamorphic property-based testing: generated sequences of calls against the same calls in fresh processes", SAMPLED),
 "C18": (PB + "generated automata and logs against a reference matcher, exact set comparison", SAMPLED + "Complete set of (t,t') per case."),
 "C19": (PB + "generated automata and logs against a reference matcher, exact set comparison", SAMPLED + "Complete set of (t,t') per case."),
 "C20": (PB + "generated automata with unobservable transitions, reported set between strict and weak reference", SAMPLED + "Coincident unobservable steps are allowed but not required."),
 "C21": ("model-based property-based testing of generated report histories and matcher runs on four containers", SAMPLED),
}
NOT_APPLICABLE = {}
