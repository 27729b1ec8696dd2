#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": list(files), "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why, "anchors": a})

EV = "src/evaluate/evaluation.rs"; LT = "src/evaluate/lookup_table.rs"; UT = "src/evaluate/utils.rs"
ME = "src/evaluate/meta.rs"; EL = "src/evaluate/eval.rs"; CL = "src/evaluate/class.rs"; MO = "src/evaluate/mod.rs"
CA = "src/card/mod.rs"; RA = "src/card/rank.rs"; SU = "src/card/suit.rs"; MA = "src/card/macros.rs"
DE = "src/deck.rs"; ER = "src/error.rs"; SL = "src/evaluate/static_lookup.rs"

prop("C01", "Five-card hands are ranked exactly by the rules of poker",
 "For any two hands of five distinct cards, in any card order, comparing their evaluations gives the result the rules of poker give: category first (high card < pair < two pair < three of a kind < straight < flush < full house < four of a kind < straight flush), then the ranks that decide within the category, including every kicker. "
 "The ace plays low only in A-2-3-4-5, which is the lowest straight, and suits never break a tie. "
 "Two hands compare equal exactly when the rules call them a tie, so there are exactly 7462 distinct strengths.",
 ["inputs"], "every pair of five-card hands (2,598,960 sets of cards, 120 orders each)",
 "The tests check that 7462 distinct strengths occur and that one example per category gets its category. They never check which hand gets which strength, so any two strengths may be swapped, and they try one card order per hand.",
 [EV, LT, UT, "src/evaluate/hand_rank.rs", "src/constants.rs"],
 [("table of strengths by product of rank primes", LT), ("flush detection and key computation", EV)],
 state=[("lookup tables", "strength and class by product of rank primes, one table for suited hands and one for the others", LT)],
 observe=["Evaluator::evaluate", "Eval comparison operators"])

prop("C02", "Six or more cards evaluate to their best five-card hand",
 "For any 6 to 52 distinct cards, in any order, the evaluation equals the evaluation of the strongest five-card hand that can be chosen from them, in strength as well as in class. "
 "Every five-card choice counts, wherever its cards stand in the slice and however many cards there are.",
 ["inputs"], "every slice of 6 to 52 distinct cards, in every order",
 "The tests evaluate ten six-card and ten seven-card hands, all with the decisive cards at the front, check the category only, and never pass eight or more cards.",
 [EV, UT], [("enumeration of five-card combinations, keeping the best", EV), ("combination iterator", UT)],
 observe=["Evaluator::evaluate"])

prop("C03", "An evaluation names the hand correctly: class, ranks, predicates and text",
 "For every evaluated hand the class has the category and the ranks of the best five cards (high card, pair, trips, quads, the higher then the lower pair, trips then pair, highest card of a straight, with five-high for A-2-3-4-5), exactly one of the nine category predicates is true, and is_royal_flush is true exactly for an ace-high straight flush. "
 "The evaluation and its class display the same text: 'High card, ace', 'Pair, sevens', 'Two pair, kings and queens', 'Three of a kind, twos', 'Straight, five-high', 'Flush, jack-high', 'Full house, jacks over fours', 'Four of a kind, aces', 'Straight flush, nine-high' or 'Royal flush', with the ranks of the hand. "
 "A class value built by the caller displays its own ranks in the same way, and writing a text where it does not fit reports the failure.",
 ["inputs"], "every evaluated hand of five or more cards, and every class value that can be constructed",
 "Tests look at one hand per category and at a handful of texts. The ranks carried by the class and the names of most ranks in most categories are never looked at.",
 [LT, ME, CL, EL, RA], [("class ranks stored with each strength", LT), ("conversion to class, predicates", ME), ("text of a class", CL), ("names of ranks", RA)],
 observe=["Eval::class", "Eval::is_*", "Eval/EvalClass Display"])

prop("C04", "Comparing evaluations is one consistent total order with fixed extremes",
 "For any evaluations a, b, c the operators <, <=, ==, !=, >=, >, cmp, partial_cmp, max, min, is_better_than, is_worse_than and is_equal_to tell the same story, that story is a total order (reflexive, antisymmetric, transitive), and equal evaluations hash equally. "
 "Every evaluation lies between Eval::WORST and Eval::BEST, equals BEST exactly for royal flushes and equals WORST exactly for 7-5-4-3-2 not all of one suit. "
 "So sorting, taking maxima and collecting into sets or maps give the same answer by either interface.",
 ["inputs"], "all pairs and triples of evaluations, whatever hands (five cards or more) they come from",
 "One unit test compares four hands through three methods. The operators, hashing, partial_cmp and the two constants against real evaluations are not tested.",
 [EL, ME, "src/evaluate/hand_rank.rs"], [("Ord, PartialOrd, Eq and Hash by strength", ME), ("const comparison methods and constants", EL)],
 observe=["Eval Ord/PartialOrd/Eq/Hash", "Eval::is_better_than/is_worse_than/is_equal_to", "Eval::BEST", "Eval::WORST"])

prop("C05", "The order of hand classes never contradicts hand strength",
 "Class values compare by category and then by the ranks they carry, in the order written (first pair before second pair, trips before pair), by every comparison operator alike. "
 "So whenever one evaluated hand has a greater class than another it is the stronger hand, and hands of equal strength have equal classes.",
 ["inputs"], "all pairs of class values, and all pairs of evaluated hands",
 "One unit test compares three class values. Programs such as the bundled game compare classes of arbitrary hands.",
 [CL, ME, LT, "examples/jacks-or-better.rs"], [("derived order of the class enumeration: order of variants and of fields", CL), ("mapping from evaluation to class", ME)],
 observe=["EvalClass Ord/PartialOrd/Eq", "Eval::class"])

prop("C06", "Every slice of cards gets an evaluation or a truthful error, never a panic",
 "Evaluating any slice of cards, of any length and with any repetitions, returns and does not panic. "
 "It succeeds exactly when there are at least five cards and all are different. "
 "Otherwise an invalid-hand-size error carries the number of cards and is given only for fewer than five cards, and a cards-not-unique error carries the whole slice in its original order and is given only when some card occurs twice.",
 ["inputs"], "every slice of cards: any length from 0 up, any multiset, any position of the repeated cards",
 "Tests try one five-card hand with one adjacent duplicate and one hand of one card. Position of the duplicate, other lengths and other cards are not covered.",
 [EV, UT, ER], [("check for uniqueness and length before evaluation", EV), ("card-set bit mask", UT)],
 observe=["Evaluator::evaluate Result"])

prop("C07", "An evaluation depends only on the set of cards, up to renaming suits",
 "Reordering the cards, passing them in another container that exposes the same slice, or renaming the four suits consistently never changes the outcome: the evaluations are equal, with the same class and text, and an error stays the same kind of error. "
 "This holds for any number of cards.",
 ["inputs"], "every slice of cards, every permutation of it, every bijection between suits, every container type",
 "The tests pass every hand in one order with one assignment of suits. They never evaluate the same hand twice in two forms.",
 [EV, UT, CA], [("commutative key: product of primes; suit bits used only to detect a flush", EV)],
 observe=["Evaluator::evaluate"])

prop("C08", "Evaluators are interchangeable, stateless and safe to share between threads",
 "Every evaluator, however obtained (new, default, or a clone) and whatever it was used for before, returns the same outcome for the same cards, and any two evaluators compare equal. "
 "Earlier calls, failed calls included, and calls running at the same time on other threads, on the same or on another evaluator, never change an outcome.",
 ["histories", "schedules", "inputs"], "all histories of creating, cloning, dropping and evaluating, from one or several threads",
 "Tests use one shared evaluator made by new() and do not look at results as a function of history. A default evaluator and a clone are never evaluated.",
 [MO, EV, LT], [("no method takes the evaluator mutably; tables are built once at construction", MO)],
 state=[("lookup tables", "filled when the evaluator is created and constant afterwards", LT)],
 observe=["Evaluator::new/default/clone/evaluate/=="])

prop("C09", "Card parsing accepts exactly the 52 names and blames the right character",
 "A string parses as a card exactly when it is one of 23456789TJQKA followed by one of chsd, with nothing before, between or after, and then gives the card of that rank and suit. "
 "Any other string is rejected without panic and with the original input: a length error when it does not have exactly two characters (Unicode scalar values), else a rank error with the first character when that is no rank, else a suit error with the second. "
 "Building a card, rank or suit from characters accepts and rejects exactly the same characters, and errors carry the offending character.",
 ["inputs"], "every Unicode string and every pair of characters",
 "Tests parse the 52 names and three or four rejected inputs out of an unbounded space. Lookalike, lowercase, multi-byte, padded and longer inputs are not tried.",
 [CA, RA, SU, ER], [("two-character match in the string parser", CA), ("rank characters", RA), ("suit characters", SU)],
 observe=["Card::from_str", "Card::try_from_chars", "Rank::try_from", "Suit::try_from", "card!(expr)"])

prop("C10", "Every way of making a card agrees with every way of reading it",
 "For each rank and suit, the constructor, the characters, the two-character text and each form of the card! and cards! macros (in constants too) give the same card, whose rank, suit, characters and two-character text are the ones it was made from, and whose display is '[ ', rank character, suit symbol (♣ ♦ ♥ ♠), ' ]'. "
 "Two cards are equal, and hash equally, exactly when rank and suit are the same. "
 "The integer encoding is the documented layout: one rank bit from bit 16, the suit flag in bits 12 to 15 (clubs 8, diamonds 4, hearts 2, spades 1), the rank number in bits 8 to 11 and the rank's prime in the low bits.",
 ["inputs", "programs"], "all ranks and suits, all pairs of cards, through every constructor, macro form and accessor",
 "Tests check that the 52 names parse to the constructor's card, and display and encoding for one or two cards; the agreement of every form with every accessor is sampled at a few cards in doc examples.",
 [CA, RA, SU, MA, "src/constants.rs"], [("bit layout of a card", CA), ("characters and numbers of ranks and suits", RA), ("macros", MA)],
 observe=["Card::new", "Card::rank/suit/unique_integer/rank_suit_string", "Display", "card!/cards!"])

prop("C11", "Parsing and joining many cards keeps every element, in order",
 "Parsing a sequence of strings, or one whitespace-separated string, yields lazily exactly one result per string, in order, each the same as parsing that string alone, whichever iterator method drives it, and size hints that bound what is left. "
 "Bad strings do not stop the iteration, while try_collect gives all cards in order when every string is good and otherwise the error of the first bad one. "
 "Joining slices of cards gives their concatenation.",
 ["inputs", "histories"], "all finite sequences of strings, all ways of driving the iterator, all lists of card slices",
 "Tests collect a few short sequences of valid cards. Errors in the middle, laziness, size hints, other iterator methods, odd whitespace and longer joins are not tried.",
 [CA, MA], [("iterator adaptor over the parsed strings", CA), ("cards! and box_cards! macros", MA)],
 observe=["Card::parse_to_iter", "ParseToIter::try_collect", "cards!", "box_cards!"])

prop("C12", "Error messages state the facts of the failure",
 "A parse error's text quotes the original input and names the offending character with the accepted characters, or for a wrong length the number of characters in the input. "
 "An evaluation error's text gives the number of cards received, or lists each card that occurs more than once exactly once, by its two-character name, and no other card. "
 "The same error value always renders the same text, and writing it where it does not fit reports the failure.",
 ["inputs"], "every error value that parsing or evaluating can produce or a caller can construct",
 "Tests compare the text of one ASCII example per variant, with a single duplicated card.",
 [ER], [("Display of the two error types", ER)], observe=["ParseCardError Display", "EvalError Display"])

prop("C13", "Cards and ranks are ordered by rank, lawfully",
 "Ranks compare as 2 < 3 < ... < K < A, and a card of higher rank is greater than a card of lower rank, whatever their suits. "
 "Every comparison of cards (operators, cmp, partial_cmp, max, min, sorting) tells the same story, and that story is a total order. "
 "It agrees with equality: cards compare equal only when they are the same card.",
 ["inputs"], "all pairs and triples of cards and ranks, all lists of cards to sort",
 "No test compares two cards, and ranks are only compared within the table test.",
 [CA, RA], [("Ord and PartialOrd of Card", CA), ("derived order of Rank: order of variants", RA)], observe=["Card Ord/PartialOrd/Eq", "Rank Ord"])

prop("C14", "A deck always holds each of the 52 cards exactly once",
 "A generated deck yields each card of the 13 ranks and 4 suits exactly once and then ends, in the same order every time, independently of other decks in use and however the iterator is driven. "
 "A shuffled deck, from the default source or from any random number generator, is a permutation of those 52 cards.",
 ["inputs", "histories", "schedules"], "every random number generator and state, every number of earlier or concurrent calls, every way of driving the iterator",
 "Tests count 52 cards once for the generated and once for the shuffled deck; a shuffled deck with a card lost and another doubled would pass.",
 [DE], [("product of ranks and suits", DE), ("shuffle of the generated deck", DE)], observe=["deck::generate", "deck::shuffled", "deck::shuffled_with"])

prop("C15", "Shuffles are unbiased and come only from the given random source",
 "With a uniform random number generator every permutation is equally likely: every card is equally likely in every position, every ordered pair of cards equally likely in adjacent positions, and dealt hands have the category frequencies of poker. "
 "A shuffle with a given generator depends on nothing but that generator's output, so equal states give equal decks and leave equal states behind. "
 "The default shuffle is fresh on every call, thread and process.",
 ["inputs", "histories", "schedules"], "all generator states; the distribution over them; sequences of calls in one or more threads and processes",
 "One test counts the cards of one shuffled deck. Distribution and reproducibility are statements about many calls.",
 [DE], [("Fisher-Yates shuffle of the rand crate with the caller's generator", DE), ("thread-local generator for the default shuffle", DE)],
 observe=["deck::shuffled", "deck::shuffled_with"])

prop("C16", "Feature configurations do not change results",
 "With the static lookup table enabled, the free evaluate function returns for every slice of cards the same outcome as an evaluator: equal strength, the same class and text, or the same error. "
 "An evaluator, parsing and deck generation behave the same whether or not the optional features are enabled.",
 ["inputs", "configurations"], "all slices of cards, under each combination of the crate's features",
 "The build of the test suite uses the default features only. The static lookup module needs a downloaded table and is never compiled there.",
 [SL, EV, "Cargo.toml"], [("one evaluation routine, generic over the lookup tables", EV), ("static tables behind the same interface", SL)],
 observe=["evaluate::static_lookup::evaluate", "Evaluator::evaluate"])

prop("C17", "The example REPL answers each line with the hand's name or the error",
 "For every line entered, the bundled poker-repl program prints exactly the text of the evaluation of the cards on the line, or the parse error of the first bad card, or the evaluation error, and then reads the next line. "
 "It ends only on 'quit' or at the end of input, with success, and never crashes; 'help' prints the help text.",
 ["inputs", "histories"], "all finite sequences of input lines",
 "The examples are only compiled; no test runs them.",
 ["examples/poker-repl.rs", "examples/common/mod.rs", MA, ER], [("read-evaluate-print loop", "examples/poker-repl.rs")], observe=["standard output and exit status of the program"])

prop("C18", "The jacks-or-better game deals, pays and accounts correctly",
 "Every round shows five distinct cards with their correct hand name, any card as likely as any other whatever the rounds before; swapping replaces only the chosen positions, with cards drawn as fairly, and the game says whether the class of the hand became better or worse. A final hand pays, times the wager: pair of jacks or better 1, two pair 2, three of a kind 3, straight 4, flush 6, full house 9, four of a kind 25, straight flush 50, royal flush 250 (4000 in total at the maximum wager of 5), and anything else 0. "
 "Credits start at 100; a paying hand adds its winnings and keeps the wager, any other loses the wager; wagers outside 1 to 5 or above the credits, and bad swap lists, are refused without effect; the game ends on 'quit', end of input or zero credits, and never crashes.",
 ["inputs", "histories"], "all sequences of input lines and all shuffles",
 "The examples are only compiled; no test runs them.",
 ["examples/jacks-or-better.rs", "examples/common/mod.rs", DE, EV], [("game loop, payout and input validation", "examples/jacks-or-better.rs")], observe=["standard output and exit status of the program"])

prop("C19", "More cards never make a hand worse",
 "Evaluating a set of cards gives the best of the evaluations of its subsets of five or more cards: adding cards never lowers the evaluation, some five of the cards reach it on their own, and removing cards outside such a five leaves evaluation, class and text as they were. "
 "So a player's best hand with a board is at least as good as the board alone.",
 ["inputs"], "all nested sets of five or more distinct cards",
 "Tests never relate the evaluations of two sets of cards that share cards.",
 [EV, UT], [("maximum over all five-card combinations", EV)], observe=["Evaluator::evaluate"])

prop("C20", "The documented interface means the same anywhere in a user's program",
 "A program that writes cards, hands, decks and evaluations in the documented ways compiles and behaves as documented, wherever it does so: in any edition and module, with the crate under another name, with macros imported, renamed, re-exported or called by path and nothing else imported, and beside the user's own items named Card, Rank, card! and so on. "
 "That covers all macro forms over all expressions of strings and slices, constants and statics, every container that evaluation and parsing accept, passing errors on with '?', exhaustive matching on ranks, suits, classes and errors, use in collections and between threads, and generic code that asks for no more than the signatures do.",
 ["inputs", "programs"], "all programs that use the documented interface",
 "Unit tests and doc examples use the macros in a handful of fixed forms, in one edition, with the crate's own names imported.",
 [MA, CA, EV, ER, "src/lib.rs"], [("card!, cards! and box_cards!", MA), ("public types and their traits", "src/lib.rs"), ("containers accepted by evaluate and parse_to_iter", EV)],
 observe=["card!/cards!/box_cards!", "public types, traits and functions as used from another crate"])

prop("C21", "Using the library leaves nothing behind",
 "What a call takes on its caller's behalf - memory, files, threads - is given back by the time its results are dropped, however often it is called and however it ends: hands evaluated or rejected, texts parsed or refused, iterators run to their end or abandoned, decks, evaluators made, copied and dropped, values written as text, threads that use the library and end, and calls whose caller's code panics. A program that goes on doing this does not grow; only set-up of bounded size that is made once may stay. "
 "The static evaluator keeps nothing on the heap at all, as documented: its table is part of the program.",
 ["inputs", "histories"], "all sequences of calls that drop what they are given",
 "Unit tests run each operation a few times and never look at what remains in use.",
 [MA, CA, EV, ER, "src/deck.rs"], [("tables owned by an Evaluator", "src/evaluate/lookup_table.rs"), ("the static table allocates nothing", "src/evaluate/static_lookup.rs"), ("errors own their input", ER)],
 observe=["live bytes of the global allocator", "open files and threads of the process"])

prop("C22", "A call costs what its input calls for",
 "Work and space stay in proportion. Evaluating n cards takes work in proportion to the number of five-card choices, and working memory that does not depend on it; making, copying and comparing evaluators are the only long calls, and no other call repeats that work. Rejecting, parsing, joining, collecting, sorting and writing texts take work and memory at most in proportion to the input (sorting: times its logarithm). "
 "The parsing iterators are lazy and hold a bounded amount however many strings follow. No call needs stack in proportion to its input. And nothing becomes slower the more often, or after however many other calls, it is called.",
 ["inputs", "histories"], "all sizes of input and all histories of calls",
 "Unit tests use inputs of a few cards and never look at what a call costs.",
 [EV, UT, CA, MA, ER, "src/deck.rs"], [("combinations are visited one at a time", UT), ("lazy parsing", CA), ("tables made once per Evaluator", "src/evaluate/lookup_table.rs")],
 observe=["instructions executed", "peak heap in use", "stack"])

prop("C23", "A call uses only its arguments and does nothing but return",
 "What a call gives depends on its arguments alone: not on environment variables, arguments of the program, files, the directory, the clock, the user or the machine, the number of processors, the thread and its name, where in memory the arguments stand and how much room is behind them, what memory held before, or whether it is the first call of the process. Only `deck::shuffled` uses the randomness of the system. "
 "And a call has no effect but its result: it writes nothing to the program's outputs or to any file, reads no input, opens, sends and starts nothing, does not wait, does not end the process, and leaves the environment, the signals and the panic hook as they are; also when it rejects what it is given and when its caller's code panics. The same holds for the static evaluator.",
 ["inputs", "histories"], "all calls with all arguments, in all surroundings of a process",
 "Unit tests run in one kind of surroundings, the test runner's, capture what is written and never look at what else a call does.",
 [EV, LT, UT, SL, CA, MA, ER, DE], [("the only use of the system: randomness for shuffled decks", DE), ("tables computed from constants", LT), ("errors are returned and not reported", ER)],
 observe=["results of calls", "system calls made", "environment, outputs and panic hook of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
