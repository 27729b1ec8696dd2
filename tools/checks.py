"""What each check is, for the runner (rule, assumptions) and for MANIFEST.json (technique, note)."""

COMMON = ("Cases come from proptest generators seeded from VERIF_SEED, or from complete enumeration where a sub-check is "
          "marked exhaustive; the same sub-checks run against two builds of /repo (optimised; optimised with debug assertions "
          "and overflow checks). distinct_nontrivial counts, per sub-check, the distinct cases of the build that had more of them. ")
TRUST = "Trusts the reference model in harness/src/model.rs, which checks itself against a naive second model and the known counts at the start of every run."

C = {}
def check(id, technique, note, rule, trust=True):
    C[id] = dict(technique=technique, note=note + (" " + TRUST if trust else ""), rule=COMMON + rule)

check("C01", "property-based testing: exhaustive and generated five-card hands against an independent reference ranking",
      "Every five-card hand in a seed-dependent order, every one of the 7462 x 7462 pairs of strengths and every order of one hand per strength are compared with the reference; all orders of all hands are sampled.",
      "A case is a five-card hand or a pair of hands; all are non-trivial because each is judged against the reference; classes count categories and what decides a pair.")
check("C02", "property-based testing: exhaustive six- and seven-card hands and generated larger ones with a planted best five, against an independent n-card model",
      "Complete for sets of six and seven cards in the optimised build (one seed-dependent order each); larger sizes up to 52 are sampled, with the best five planted at chosen places so that any skipped combination shows.",
      "A case is an ordered list of 6 to 52 distinct cards, classed by size or category; all are non-trivial because each is judged against the model.")
check("C03", "property-based testing: exhaustive five-card hands, generated larger ones and all class values, against a reference for class, predicates and text",
      "Complete over five-card hands and over all constructible class values; hands of six and more cards are sampled.",
      "A case is a hand or a class value; all are non-trivial; classes count the categories reached.")
check("C04", "property-based testing: exhaustive pairs of strengths and generated tables of hands, all comparison interfaces against one order",
      "Complete over pairs of the 7462 strengths (one hand each) and over all five-card hands against BEST, WORST and an equal hand; larger hands and collections are sampled.",
      "A case is a pair or table of hands; classes separate ties from decided pairs; all are non-trivial.")
check("C05", "property-based testing: exhaustive pairs of class values and of strengths, generated hands, class order against hand order",
      "Complete over pairs of class values and pairs of strengths; pairs of larger hands are sampled.",
      "A case is a pair of class values or of hands; classes count equal classes, equal categories and different categories; all are non-trivial.")
check("C06", "property-based testing: generated and enumerated slices with and without repeated cards against set cardinality",
      "Complete over sets of fewer than five cards, one repeated card at every pair of positions for sixteen lengths, and lists over two cards up to length eight; other slices are sampled. A slice that gets no answer in 100 s counts as a violation.",
      "A case is a slice of cards; classes count evaluated, too few and not unique; all are non-trivial.", trust=False)
check("C07", "metamorphic property-based testing: permutations, suit renamings and containers",
      "Complete over five-card hands with all 24 suit renamings (one order each) and over all 120 orders of one hand per strength; other sizes are sampled.",
      "A case is a slice with a permutation and a suit renaming; it is trivial when the two do not change the slice.", trust=False)
check("C08", "stateful model-based property testing of evaluator histories, and generated concurrent runs",
      "Histories of up to 40 steps, runs of up to 70,000 calls on one evaluator and one of 600 million calls, concurrent runs, calls from containers, destructors, unwinding and thread ends, and first calls of new processes are sampled; thread schedules are those the operating system gives. An outcome that differs from the model counts only if a new process gives another outcome for the same cards.",
      "A case is a history, a concurrent run or a long run; a history with fewer than two evaluations is trivial.")
check("C09", "property-based testing and enumeration of strings against the table of 52 names",
      "Complete over every Unicode scalar value in each place of a two-character string, all ASCII strings up to three characters and strings up to length five over ten telling characters; other strings are sampled.",
      "A case is a string or a pair of characters, classed by the result the table gives; all are non-trivial.", trust=False)
check("C10", "exhaustive property testing of all cards through all constructors, macro forms and accessors against literal tables",
      "Complete over the 52 cards, every constructor and macro form, and all pairs of cards; sequences are sampled.",
      "A case is a card with a form and an accessor, a pair of cards or a sequence; a sequence of one card is trivial.", trust=False)
check("C11", "model-based property testing of iterator programs, sources and macro forms",
      "Lists of up to 200,000 strings, sources and programs of iterator calls are sampled, and how often a macro evaluates its arguments; each result is compared with parsing that string alone.",
      "A case is a list of strings with a program of iterator calls, a joined string, or a list of slices; cases without elements are trivial.", trust=False)
check("C12", "property-based testing of produced and constructed error values against message templates",
      "Complete over pairs of repeated cards in three patterns; other error values are sampled and rendered repeatedly.",
      "A case is an error value or an input that produces one; inputs that parse, and lists without repetition, are trivial.", trust=False)
check("C13", "exhaustive property testing of card and rank comparisons, generated lists to sort",
      "Complete over pairs and triples of cards and pairs of ranks; lists to sort are sampled. The listed known finding excludes only 'different cards of one rank compare Equal'.",
      "A case is a pair, a triple or a list; lists of fewer than two cards are trivial.", trust=False)
check("C14", "stateful property testing of interleaved decks, and generated (scripted, extreme and seeded) random sources",
      "Histories of several decks in use, random sources with extreme scripts or that make decks or panic themselves, threads and other processes are sampled.",
      "A case is a history of deck operations or a random source; all are non-trivial.", trust=False)
check("C15", "property-based testing of reproducibility, and statistical tests of generated shuffles with fixed seeds and extreme thresholds",
      "Position, succession, order, joint-position, parity, cycle, repetition and category frequencies over millions of shuffles, with thresholds that chance passes with probability below 1e-12 per run; biases below the resolution of the counts are not seen.",
      "A case is a deck counted in the tables, or a source used twice; all are non-trivial.")
check("C16", "differential property-based testing of the crate built with other feature sets",
      "The static lookup configuration is built from /repo's sources with a table generated from /repo's own lookup table (the published table cannot be fetched here); complete over five-card hands, sampled over larger ones and errors.",
      "A case is a slice of cards, a string or a deck operation given to the configurations; all are non-trivial.")
check("C17", "property-based testing of generated sessions of the built program against a session model",
      "Sessions of generated lines (cards, errors, odd white space, commands, thousands of words) run in the built example; output compared line by line with what the library says about the line.",
      "A case is a session; a session without a hand or an error is trivial.", trust=False)
check("C18", "model-based property testing of generated sessions of the built program, with the random source controlled from outside",
      "Sessions of generated lines run in the built example. The random seed that the program gets from the system is chosen by the check, which searches seeds for rare hands, so every payout is reached; the oracle judges what the program shows and accepts any shuffle; whether deals and draws are fair is tested over the hands of thousands of games together, with thresholds that chance passes with probability below 1e-9.",
      "A case is a session; a session in which no round is played is trivial.")
check("C19", "metamorphic property-based testing of nested sets of cards",
      "Chains, subsets and boards are sampled; every relation is between evaluations of the library itself.",
      "A case is a set of cards with its subsets; all are non-trivial.")
check("C20", "property-based testing with generated programs, compiled and run, against a model of what they print",
      "Programs in all editions use the documented macros, functions, types and traits at generated places, under generated imports and crate names and beside user items with the crate's names; every kind of use meets every place, import and set of names. They are compiled against the library as it is built from /repo. Names from the standard prelude are not hidden by user items.",
      "A case is a program; all have at least one use and are non-trivial.", trust=False)

check("C21", "property-based testing of long-running generated programs with a counting allocator",
      "Programs repeat one to six kinds of use, with the same sixteen sets of data or other data every round, in a process of their own whose allocator counts live bytes; what stays in use has to stop growing. A leak counts when it grows in proportion to the rounds and comes to at least a byte in 32 rounds. The programs are of generated kinds of use, not of all sequences of calls.",
      "A case is a program and its data; classes count the kinds of use; all are non-trivial.", trust=False)

check("C22", "property-based testing of generated calls with counted instructions, heap and stack",
      "Calls with generated sizes, data and ways of driving iterators run in a process of their own: once under valgrind's instruction counter at two sizes of which one is at least sixteen times the other, once with a counting allocator and 192 KiB of stack at up to a million units. The counts do not depend on the machine's load. Work may grow three times as fast as the input (1.3 times as fast as the choices of five cards) before it counts as a violation, so a logarithm passes and a square does not; slower growth that only sets in above these sizes is not seen.",
      "A case is a call with its sizes and data; classes count the kinds of call; all are non-trivial.", trust=False)

check("C23", "differential property-based testing of generated calls in generated surroundings, with system calls filtered",
      "Every case is a process that makes generated calls under an environment that answers any question, a wrong clock, other arguments, other threads, memory filled with a generated byte and arguments at generated places. Results are compared with those of a process in ordinary surroundings; a filter (seccomp) refuses and notes every system call but those of memory, threads, randomness and time. Where the system cannot filter, only the outputs, the environment and the results are compared. Files under /proc and /sys may be asked for.",
      "A case is a list of calls with its data and surroundings; classes count the kinds of call; all are non-trivial.", trust=False)
