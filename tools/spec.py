#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing: python3 tools/spec.py"""
import json, os, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/scheduler.rs"
TEST = "The repository's tests open a handful of hand-made libraries with fixed histories"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, observe=observe or []))


prop("C01", "Batches are well formed",
     "Every request for exercises on an open library returns a batch or an error, never a crash: each exercise in the batch exists in the library, appears once, is described exactly as the library on disk describes it, and the batch exceeds the configured size by no more than the share reserved for recently failed exercises. This holds with any filter, including filters naming unknown, repeated or overlapping units, and with any review list.",
     ["inputs", "histories", "configurations"],
     "all libraries, practice histories, blacklists, review lists, filters and valid scheduler options",
     TEST + "; duplicates appear only when filters or review entries overlap in combination with unmastered units.",
     [S, "src/scheduler/filter.rs", "src/scheduler/relearn_pile.rs", "src/scheduler/review_knocker.rs"],
     [("batch assembly", "src/scheduler.rs get_exercise_batch"), ("window selection", "src/scheduler/filter.rs filter_candidates")],
     "online batch monitor against the generated library as ground truth, over random sessions",
     "Every batch of generated sessions is compared with the abstract library it was generated from. Trusts the generator's abstract library and the JSON it wrote.")
prop("C02", "Prerequisites gate what is offered",
     "When exercises are requested from the whole library, from courses, by metadata or below given units, no exercise is offered from a lesson whose prerequisites (its own and, for the first lessons of a course, those of the course) are not met, except exercises the student recently failed. A prerequisite is met when its score and number of trials pass the configured thresholds, or when it is blacklisted, superseded, missing from the library or, for requests by metadata, replaced by what it in turn depends on.",
     ["inputs", "histories", "configurations"],
     "all dependency graphs, score histories, blacklists, metadata filters and scheduler options",
     TEST + " of one shape; gating errors depend on how dependencies, blacklist, superseding and filters combine in a graph.",
     [S, "src/graph.rs", "src/scheduler/data.rs", "src/scheduler/unit_scorer.rs"],
     [("dependency check", "src/scheduler.rs all_satisfied_dependencies"), ("search", "src/scheduler.rs get_candidates_from_graph_helper")],
     "online monitor of every batch against a reference search computed from the library, the stores and the public formulas",
     "Random libraries and sessions; states with a score within 1e-4 of a threshold are not judged. Scores come from the public scoring formulas (C08 judges those).")
prop("C03", "Everything is eventually offered",
     "A student who keeps answering perfectly is eventually offered every lesson that is neither blacklisted nor superseded, and as long as something is open to a filter a request with it does not come back empty. In a fixed state of practice, repeated requests eventually present every lesson that is open.",
     ["inputs", "histories", "configurations"],
     "all acyclic libraries, blacklists, filters and student histories",
     "Starvation only shows in particular graphs (courses with mixed starting lessons, superseded or blacklisted starting courses, missing units) after long histories; the tests simulate two fixed libraries.",
     [S, "src/graph.rs", "src/scheduler/filter.rs"],
     [("search", "src/scheduler.rs get_candidates_from_graph_helper"), ("start of the search", "src/scheduler.rs get_initial_stack"), ("fairness", "src/scheduler/filter.rs select_candidates")],
     "liveness monitor: perfect students run to completion and repeated requests in frozen states, against the reference search",
     "Bounded form of liveness: 1500 rounds where the longest observed needs about 100. The starvation of deep lessons by a limit of one lesson in progress is excluded in frozen states.")
prop("C04", "Filters confine the batch",
     "Every exercise returned for a filter or the current part of a study session belongs to what the filter selects (the named courses, lessons, metadata, review list, units below or behind the named units), apart from recently failed exercises up to their reserved share. Everything open that the filter selects is eventually returned by repeated requests.",
     ["inputs", "histories", "configurations"],
     "all filters of every kind, libraries, review lists and histories",
     TEST + " and a few filters each; confinement can break through dependents that leave the filtered units or through stale review entries.",
     [S, "src/data/filter.rs", "src/scheduler/data.rs"],
     [("filter dispatch", "src/scheduler.rs get_initial_candidates"), ("course search", "src/scheduler.rs get_candidates_from_course")],
     "online monitor of every filtered batch against a reference selection",
     "Random filters over random libraries; membership oracle independent of scores plus the reference search.")
prop("C05", "Blacklisted material is never offered",
     "After a course, lesson or exercise is added to the blacklist, no batch of any kind contains an exercise inside it until it is removed, including batches from the review list and recently failed exercises. Once removed it is offered again like any other unit.",
     ["histories", "inputs", "configurations"],
     "all sequences of blacklist edits, scores and requests with any filter",
     TEST + "; the blacklist is consulted in several places and cached, and leaks need specific orders of edits and requests.",
     [S, "src/blacklist.rs", "src/scheduler/data.rs", "src/scheduler/relearn_pile.rs"],
     [("blacklist check", "src/scheduler/data.rs inside_blacklisted"), ("cache", "src/blacklist.rs")],
     "online batch monitor against the recorded blacklist, plus removal liveness",
     "Every batch in random sessions with every kind of filter.")
prop("C06", "Superseded material gives way",
     "Once every unit that supersedes a course or lesson is mastered at the configured score and its own exercises were all practised, batches no longer contain its exercises (other than recently failed ones, or when named explicitly by a lesson or review request), and what depends on it is not held back. Until then it is offered as usual; chains of superseding units are followed.",
     ["histories", "inputs", "configurations"],
     "all superseding relations (including chains and units superseded by several others) and score histories",
     TEST + " with one superseding pair; chains and mixtures with dependencies and blacklist are not sampled.",
     [S, "src/scheduler/unit_scorer.rs", "src/graph.rs"],
     [("superseding check", "src/scheduler/unit_scorer.rs is_superseded"), ("chains", "src/scheduler/unit_scorer.rs get_superseding_recursive")],
     "online monitor of batches and repeated requests against a reference model of superseding",
     "Random superseding relations; same numerical exclusions as C02.")
prop("C07", "Reported scores match the recorded practice",
     "At any time the score reported for an exercise, lesson or course equals the one computed from the practice records, blacklist and options as they are at that time, at the present time or the one set to stand for it, no matter what was computed or cached before. A second instance opened on the same data reports the same.",
     ["histories"],
     "all interleavings of score requests with scoring, direct edits of the practice data, blacklist edits, and changes of options and of the overridden time",
     "A stale score needs a particular read, edit, read sequence on related units; tests check a few such sequences.",
     ["src/scheduler/unit_scorer.rs", "src/lib.rs", S],
     [("score caches", "src/scheduler/unit_scorer.rs"), ("invalidation", "src/lib.rs and src/scheduler.rs score_exercise")],
     "online cache-coherence monitor: every score re-derived from the stores after each operation, plus comparison with a fresh instance",
     "Tolerance 2e-3 for decay during a run.")
prop("C08", "Scores are sane for any history",
     "For every sequence of recorded trials, newest first, an exercise's score is a finite value between 0 and 5 (an error when out of order), 0 without trials, a function only of the trials, the differences, the kind of exercise and the time elapsed, with urgency between 0 and 1 and velocity the slope of the grades over time; differences move it in their direction by at most a quarter of their size. It never falls when the latest grade (without a failure becoming a pass) or every grade of a uniform history is replaced by a better one, never rises merely because time passes except for the documented floor after fifty days of a good record, and right after practice lies between the worst and the best grade. Rewards combine to a value within their range that fades with age, and leave alone exercises with too few trials or whose recent trials contradict them.",
     ["inputs", "histories"],
     "all trial, difference and reward histories, including equal timestamps, trials in the future, bursts, very long gaps and extreme times",
     "The tests evaluate fixed examples; the formula has divisions, powers and logarithms over intervals that can be zero, negative or huge.",
     ["src/exercise_scorer.rs", "src/reward_scorer.rs"],
     [("power-law scorer", "src/exercise_scorer.rs score"), ("reward weighting", "src/reward_scorer.rs")],
     "assertion monitors (range, determinism, metamorphic relations) on the real scorers over hostile histories, with overflow checks on",
     "Metamorphic relations chosen after reading the documented model; exact reference values only for velocity and single rewards.")
prop("C09", "The record of trials is exact",
     "Reading back an exercise's trials returns exactly the most recent ones recorded and not yet trimmed or removed, newest first, in the number asked for, and no edit affects the trials of other exercises. This holds for any identifiers and timestamps and across reopening.",
     ["histories", "inputs"],
     "all sequences of recording, reading, trimming, prefix removal and reopening with any identifiers",
     "The tests record a few trials under tame identifiers with distinct timestamps.",
     ["src/practice_stats.rs", "src/utils.rs"],
     [("store", "src/practice_stats.rs"), ("prefix removal and trimming", "src/practice_stats.rs")],
     "differential monitor: random operation histories against an in-memory reference store, full sweep after each edit",
     "Reference store written from the documented interface.")
prop("C10", "The record of rewards is exact",
     "Reading back a unit's rewards returns exactly the most recent ones kept, newest first; a reward that is nearly identical to a recent one for the unit is skipped and reported as such, the number kept is bounded, and trimming or removal affects only the units meant. This holds for any identifiers and timestamps, however reads were cached, and across reopening.",
     ["histories", "inputs"],
     "all sequences of recording, reading, trimming, prefix removal and reopening with any identifiers",
     "The tests use a few rewards under tame identifiers; caching and similarity interact over histories.",
     ["src/practice_rewards.rs", "src/utils.rs"],
     [("store and cache", "src/practice_rewards.rs")],
     "differential monitor: random operation histories against an in-memory reference store",
     "Reference store written from the documented interface.")
prop("C11", "Scoring records exactly one trial and its delta",
     "Scoring an exercise records one trial with the grade and time given and, if it was practised before, one difference between the grade and the score it had, and nothing for other exercises. Reading back the differences returns exactly the most recent ones kept, newest first, for any identifiers and timestamps.",
     ["histories", "inputs"],
     "all sequences of scoring, recording, reading, trimming, prefix removal and reopening",
     "The tests record a few differences under tame identifiers and check one scoring call.",
     ["src/practice_deltas.rs", S],
     [("store", "src/practice_deltas.rs"), ("scoring", "src/scheduler.rs score_exercise")],
     "differential monitor on the store and before/after monitor on every scoring call",
     "The score before is taken from the public formulas.")
prop("C12", "Blacklist and review list are exact sets",
     "The blacklist and the review list contain exactly the units added and not removed since, for any identifiers, repeated additions and removals, removal by prefix, and across reopening; membership tests agree with the listed entries.",
     ["histories", "inputs"],
     "all sequences of additions, removals, prefix removals, reads and reopening with any identifiers",
     "The tests use a few tame identifiers; caching and pattern characters are not sampled.",
     ["src/blacklist.rs", "src/review_list.rs"],
     [("blacklist and its cache", "src/blacklist.rs"), ("review list", "src/review_list.rs")],
     "differential monitor: random operation histories against reference sets",
     "Reference sets written from the documented interface.")
prop("C13", "Acknowledged changes survive a crash of the process",
     "Whatever was acknowledged before the process dies at any point (scores, lists, preferences) is there when the library is opened again, nothing that was never requested appears, and the library opens. At most the operation in progress is in doubt.",
     ["crash_points", "histories"],
     "all points of death of the process during any operation sequence",
     "No test kills a process; the loss of an acknowledged change needs a death at the right moment.",
     ["src/practice_stats.rs", "src/practice_rewards.rs", "src/practice_deltas.rs", "src/blacklist.rs", "src/review_list.rs", "src/utils.rs", "src/preferences_manager.rs"],
     [("SQLite commits", "src/practice_stats.rs, src/practice_rewards.rs, src/practice_deltas.rs, src/blacklist.rs, src/review_list.rs"), ("migrations", "src/lib.rs new_local")],
     "crash injection: a child process logs acknowledgements and is killed at random and at every write call; the reopened state is checked against the log",
     "Process death only (SIGKILL); loss of power is not simulated.", "fault_enumeration")
prop("C14", "A failed write leaves the records consistent",
     "When storage refuses a write in the middle of an operation, the operation reports an error unless its effect is complete. What is read afterwards from each store (trials, deltas, rewards, blacklist, review list, preferences), with or without reopening, is either the state before the operation or its complete effect, and the scores reported agree with it. Later operations work once storage recovers.",
     ["fault_sequences", "histories"],
     "all write statements of all operations failing at any row",
     "No test makes storage fail.",
     ["src/practice_stats.rs", "src/practice_rewards.rs", "src/practice_deltas.rs", "src/blacklist.rs", "src/review_list.rs"],
     [("transactions", "src/practice_rewards.rs record_unit_rewards, src/practice_stats.rs record_exercise_scores"), ("caches", "src/blacklist.rs, src/practice_rewards.rs")],
     "fault injection at every write-side system call (interposed) and through database triggers that refuse the n-th row, with before/after state monitors and fresh-instance comparison",
     "Faults are refused or cut-short write-side system calls and rows refused by the database; each store is judged on its own.", "fault_enumeration")
prop("C15", "Concurrent use is safe",
     "Requesting batches, scoring exercises, reading scores and editing practice data from several threads neither deadlocks, crashes nor races, loses no acknowledged score, and leaves every reported score consistent with the records.",
     ["schedules", "histories"],
     "all interleavings of the operations that may be called from several threads",
     "No test uses more than one thread.",
     ["src/scheduler/unit_scorer.rs", "src/scheduler/data.rs", S, "src/lib.rs"],
     [("score caches", "src/scheduler/unit_scorer.rs"), ("locks", "src/scheduler/data.rs")],
     "ThreadSanitizer on the real code under stress plus exactly-once, coherence and deadlock monitors",
     "Interleavings reached by stress with random delays; no exhaustive scheduling.")
prop("C16", "The unit graph mirrors the declared relations",
     "However and in whatever order units and relations are declared, each relation can be read in both directions consistently, the starting points cover everything without prerequisites, contradictory declarations are refused, and a library opens exactly when its dependency, encompassing and superseding relations are each free of cycles. The graph exported in the DOT format has exactly the courses, lessons and dependencies of the library, or those between courses alone when asked for.",
     ["inputs", "histories"],
     "all sequences of declarations and all finite relations between units",
     "The tests build a few small graphs in one order.",
     ["src/graph.rs"],
     [("graph", "src/graph.rs InMemoryUnitGraph"), ("cycle check", "src/graph.rs check_cycles")],
     "differential monitor: random declaration sequences against a reference graph; cycle verdicts against an independent algorithm",
     "Implicit cycles through course membership are outside of the promise (the code documents explicit relations).")
prop("C17", "A library is loaded exactly as written",
     "Opening a library makes available exactly the courses, lessons and exercises on disk, with all declared attributes and resolved paths, finds units by prefix, skips exactly the ignored paths, and refuses libraries with duplicate identifiers, mismatched parents or invalid manifests. The order of directory entries and the nesting of directories make no difference.",
     ["inputs", "configurations"],
     "all directory layouts, manifests, identifiers and ignored paths",
     "The tests open a few libraries under tame names.",
     ["src/course_library.rs", "src/data.rs", "src/lib.rs"],
     [("walk", "src/course_library.rs"), ("normalisation and verification", "src/data.rs")],
     "differential monitor: generated libraries on disk against their abstract form; mutated ones must be refused",
     "Manifests are generated; the search for units by text is judged by prefix of identifiers.")
prop("C18", "A serialized library behaves like the original",
     "A library converted to its serialized form, encoded, decoded and opened has the same units, attributes, relations and scheduling as the library opened from disk.",
     ["inputs", "configurations"],
     "all libraries",
     "The tests convert one library.",
     ["src/course_library.rs", "src/lib.rs"],
     [("serialization", "src/course_library.rs SerializedCourseLibrary")],
     "differential monitor: generated libraries opened both ways and compared through every query",
     "Random libraries, including generated courses.")
prop("C19", "Knowledge-base courses become what their files say",
     "A knowledge-base course directory with any mixture of lesson directories, property files and flashcards yields exactly one exercise per front file, with its back, name, description, type and the lesson's declared relations with short names expanded, independent of the order of files. Exercises without a front are left out, files that cannot be read as what their name says are reported as errors, and neither changes other exercises.",
     ["inputs"], "all directory contents within the documented naming scheme, plus foreign files",
     "The tests generate one course with the builder.",
     ["src/data/course_generator/knowledge_base.rs"],
     [("generator", "src/data/course_generator/knowledge_base.rs")],
     "differential monitor: generated directories against the expected course",
     "Naming scheme as documented in the source.")
prop("C20", "Literacy courses become what their files say",
     "A literacy course directory yields one reading exercise set per lesson directory (and a dictation set when asked for) with exactly the examples and exceptions found, the relations between lessons as declared, and the instructions found, independent of the order of files.",
     ["inputs"], "all directory contents within the documented naming scheme, plus foreign files",
     "The tests generate one course with the builder.",
     ["src/data/course_generator/literacy.rs"],
     [("generator", "src/data/course_generator/literacy.rs")],
     "differential monitor: generated directories against the expected course",
     "Naming scheme as documented in the source.")
prop("C21", "Transcription courses become what their passages say",
     "A transcription course yields the lessons and exercises prescribed for every passage and instrument, each exercise carrying its passage's asset, interval and instructions, with the dependencies between kinds of lessons and on other courses as declared, and the requested kinds skipped.",
     ["inputs", "configurations"], "all passages files, instruments, options and instructions",
     "The tests generate a few fixed courses.",
     ["src/data/course_generator/transcription.rs"],
     [("generator", "src/data/course_generator/transcription.rs")],
     "differential monitor: generated configurations against the expected course",
     "Naming scheme as documented in the source.")
prop("C22", "Music-piece courses mirror the passage tree",
     "A music-piece course yields one lesson with one exercise for every passage in the tree, each depending on exactly its sub-passages, with the passage's range shown and unique identifiers.",
     ["inputs"], "all passage trees",
     "The tests generate two fixed pieces.",
     ["src/data/course_generator/music_piece.rs"],
     [("generator", "src/data/course_generator/music_piece.rs")],
     "differential monitor: random trees against the expected course",
     "Passage identifiers are numeric keys of the tree.")
prop("C23", "What the course builders write is what opens",
     "A course written with the course builders opens as exactly the course that was described. A builder reports an error rather than write over an existing file or course, finish a course whose manifests name files that do not exist, or accept missing or repeated short ids.",
     ["inputs"], "all builder inputs",
     "The tests build a few fixed courses.",
     ["src/course_builder.rs", "src/course_builder/knowledge_base_builder.rs"],
     [("builders", "src/course_builder.rs, src/course_builder/knowledge_base_builder.rs")],
     "round-trip monitor: random descriptions built to disk, opened and compared",
     "Builds only inside scratch directories.")
prop("C24", "Scores propagate rewards along the right units",
     "Scoring an exercise rewards exactly the units reachable from its lesson and course along the encompassing relation (downwards for good grades, upwards for bad ones), with the strength of the strongest path, decaying with every step and vanishing below the threshold, at most once per unit, and never with the wrong sign.",
     ["inputs", "histories"], "all encompassing relations, weights and grades",
     "The tests propagate on two small fixed graphs.",
     ["src/scheduler/reward_propagator.rs", "src/graph.rs"],
     [("propagation", "src/scheduler/reward_propagator.rs")],
     "monitor of the recorded rewards after every score against enumerated paths",
     "Where value and weight order two paths differently, either may win.")
prop("C25", "Changed scheduler options take effect everywhere",
     "After the options are set or reset, every later batch and score follows the new options alone (sizes, thresholds, windows, numbers of trials considered, share of failed exercises), as if the library had been opened with them.",
     ["configurations", "histories"], "all sequences of valid option changes, requests and scores",
     "The tests set options once at the start.",
     [S, "src/scheduler/unit_scorer.rs", "src/scheduler/filter.rs", "src/scheduler/relearn_pile.rs"],
     [("options", "src/scheduler.rs set_scheduler_options")],
     "online monitors of batches and scores with frequent option changes",
     "Same oracles as C01-C07, C30 and C31 under the options in force.")
prop("C26", "Saved filters, sessions and preferences round-trip",
     "Every filter, study session and set of preferences that can be expressed is read back unchanged after being saved, listed exactly once with its identifier, used by requests as saved, and files that are invalid or share an identifier are reported when the library is opened.",
     ["inputs", "configurations"], "all filters, sessions, preferences and directory contents",
     "The tests save a few fixed values.",
     ["src/filter_manager.rs", "src/study_session_manager.rs", "src/preferences_manager.rs", "src/data/filter.rs"],
     [("managers", "src/filter_manager.rs, src/study_session_manager.rs, src/preferences_manager.rs")],
     "round-trip monitor over random values and directories",
     "Values are generated from the public data types.")
prop("C27", "Metadata filters mean what they say",
     "A metadata filter selects a course or lesson exactly when its metadata satisfies the expression: inclusion, exclusion, and nested conjunctions and disjunctions, on course and lesson metadata, with conditions on the other level of unit treated as documented.",
     ["inputs"], "all filter expressions and metadata",
     "The tests evaluate a few fixed expressions.",
     ["src/data/filter.rs"],
     [("filter evaluation", "src/data/filter.rs")],
     "differential monitor: random expressions and metadata against an independent evaluator",
     "Course-level treatment of lesson conditions follows the documented skip-or-pass rule.")
prop("C28", "A study session is always in the right part",
     "At any time since its start, a study session is in exactly the part whose time slot contains that time, parts follow one another in order, the last part lasts for ever, and no duration or start time makes the computation fail.",
     ["inputs"], "all lists of parts, durations and start times",
     "The tests look at fixed times in one session.",
     ["src/data/filter.rs"],
     [("part selection", "src/data/filter.rs")],
     "differential monitor: random sessions and start times against interval arithmetic",
     "Start times within the range of the clock type; slots within seconds of a boundary are not judged.")
prop("C29", "Malformed input is refused, not fatal",
     "Opening a library with any malformed, truncated, hostile or unreadable file or directory name, or corrupted practice data, returns an error or ignores the file; it never crashes, hangs or makes other units disappear silently. Requests naming unknown units behave likewise.",
     ["inputs"], "all byte contents of manifests, property files, preferences, filters, sessions and databases",
     "The tests try a few invalid manifests.",
     ["src/course_library.rs", "src/data/course_generator/knowledge_base.rs", "src/data/course_generator/literacy.rs", "src/lib.rs"],
     [("parsing and validation", "src/course_library.rs, src/data.rs, src/lib.rs")],
     "mutation fuzzing with a panic, hang and silent-loss monitor",
     "Byte and structure mutations of valid inputs; deeply nested JSON is bounded by the parser.")
prop("C30", "Full batches mix levels of mastery",
     "When there is enough material in every mastery range, a batch contains exercises of each range in about the configured share, and a shortage in one range is made up from the others so the batch is not needlessly small.",
     ["inputs", "configurations"], "all scores, batch sizes and shares",
     "The tests filter one fixed list of candidates.",
     ["src/scheduler/filter.rs", "src/scheduler/review_knocker.rs"],
     [("window selection", "src/scheduler/filter.rs filter_candidates")],
     "statistical monitor of batch composition on libraries with known score distributions",
     "The share adapts to the success rate by a bounded amount, so bounds are 12 points wide.")
prop("C31", "Failed exercises come back",
     "An exercise graded one or two is presented again in the following batches, up to the share reserved for failed ones in each and all of them in turn, until it is graded three or better; then it is no longer favoured. Exercises that were not failed never enter a batch this way.",
     ["histories", "configurations"], "all sequences of grades, requests, blacklist edits and option changes",
     "The tests check one fixed sequence.",
     ["src/scheduler/relearn_pile.rs", S],
     [("pile of failed exercises", "src/scheduler/relearn_pile.rs")],
     "online batch monitor with the pile tracked from the grades, under filters that select nothing else",
     "The pile lives as long as the open instance.")

prop("C32", "A batch groups hard material and varies",
     "Within a batch the exercises of one course that are not yet within reach (scored up to the top of the target range) come in contiguous groups of three and one group of what remains, while the others stand alone. The order of the groups changes from batch to batch, with groups of new exercises leaning to the end.",
     ["inputs", "histories", "configurations"], "all libraries, scores, filters and range bounds",
     "The tests shuffle a few fixed lists.",
     ["src/scheduler/shuffler.rs", S],
     [("grouping and ordering", "src/scheduler/shuffler.rs shuffle_candidates")],
     "monitor of the runs of each course in every batch, and of the distribution of orders",
     "Batches with re-learned exercises are judged by C31 only. Orders are judged over 40 and 120 batches, with odds of a false alarm below 1e-9.")
prop("C33", "The mix follows the session's success",
     "With 75% to 90% of the session's grades being three or better, a full batch holds each range of mastery in its configured share. Above that the shares of new and target material grow by a twentieth and those of easy and mastered material shrink by as much, below it the reverse, and twice as much below one half, each between 5% and 50%. A newly opened session counts as fully successful.",
     ["histories", "configurations"], "all sequences of grades, shares and batch sizes",
     "The tests adjust one set of shares at five rates.",
     ["src/scheduler/filter.rs", "src/scheduler/data.rs", S],
     [("success rate", "src/scheduler/data.rs update_success_rate"), ("shares", "src/scheduler/filter.rs adjusted_mastery_windows")],
     "online monitor of batch composition against the success rate tracked from the grades",
     "Plenty of material in every range; counts are compared to within rounding.")
prop("C34", "Material practised elsewhere is reviewed less",
     "Among the exercises a request may offer, those scored at least 4.5 whose lesson and course are practised by others with a total weight of at least ten are left out. Those scored at least 3.75 with a weight of at least five share the part of the batch meant for mastered material, and all others are treated by their score alone.",
     ["inputs", "configurations"], "all encompassing relations, weights, scores and filters",
     "The tests use fixed graphs and lists of candidates.",
     ["src/scheduler/review_knocker.rs", "src/scheduler/filter.rs"],
     [("knock-out", "src/scheduler/review_knocker.rs knock_out_reviews")],
     "monitor of what is offered over many batches on libraries with a known total weight",
     "Weights along several paths to one unit and within 0.02 of a threshold are not judged.")
prop("C35", "Selection prefers what matters most",
     "Among the exercises of one range of mastery, repeated requests in a session spread over the material, those offered less often so far being preferred. Otherwise those not practised for longer, of deeper lessons, of lessons whose dependents are still closed, of lessons that practise more of the others, of lessons less practised by others, and those whose scores improve or are stuck below mastery are offered more often.",
     ["histories", "configurations"], "all histories of requests, practice times and unit graphs",
     "The tests compare the cost of single candidates.",
     ["src/scheduler/filter.rs", "src/scheduler/data.rs", S],
     [("weighted selection", "src/scheduler/filter.rs candidate_weight"), ("frequency", "src/scheduler/data.rs increment_exercise_frequency")],
     "statistical monitor of selections between groups that differ in one respect",
     "About 3000 selections per factor; the threshold is at least five standard deviations below what is expected.")

prop("C36", "Records that cannot be read are not taken for missing",
     "While practice records cannot be read, the score of an exercise is reported as an error or as what it is, recording a grade fails or records the trial and its difference completely, and no batch offers blacklisted material. Once they can be read again every reported score follows them, whatever was asked in the meantime.",
     ["fault_sequences", "histories"], "all read failures, short or lasting, of any store during any requests, with any scores cached before",
     "No test makes a read fail.",
     ["src/scheduler/unit_scorer.rs", S, "src/practice_stats.rs", "src/practice_deltas.rs", "src/practice_rewards.rs"],
     [("reads behind a score", "src/scheduler/unit_scorer.rs get_exercise_cached_score"), ("scoring", "src/scheduler.rs score_exercise")],
     "fault injection at every read system call (interposed) and by taking tables away, with comparison of scores and records to those of an instance without faults",
     "What a lesson or course counts for is judged after the outage only, because it may rest on a superseding unit that cannot be read either.", "fault_enumeration")

prop("C37", "Everything completes on any shape of library",
     "On any valid library, however densely its units are connected and however deep the requested traversal, opening it, requesting batches with any filter, reading scores and recording grades complete without a crash, in time and memory bounded by the number of its units and relations, not by the number of paths between them.",
     ["configurations", "histories"], "all valid libraries and requests, with any part of the library mastered",
     "The tests use a few small libraries, whose units have at most two or three dependencies and few paths between them.",
     [S, "src/scheduler/data.rs", "src/scheduler/unit_scorer.rs", "src/scheduler/reward_propagator.rs", "src/scheduler/review_knocker.rs", "src/graph.rs"],
     [("search", "src/scheduler.rs get_candidates_from_graph_helper"), ("dependencies at a depth", "src/scheduler/data.rs get_dependencies_at_depth"), ("superseding", "src/scheduler/unit_scorer.rs replace_superseding"), ("rewards", "src/scheduler/reward_propagator.rs propagate_rewards"), ("review", "src/scheduler/review_knocker.rs")],
     "watchdog over processor time and memory of every operation, in a child process, on generated libraries with exponentially many paths",
     "Libraries of at most 600 lessons; an operation may take 40 s of processor time and 6 GiB of memory, at least ten times what the slowest one takes.")

prop("C38", "The benchmark simulates its students as described",
     "Running the benchmark leaves the library it is given untouched and simulates each student on a copy of its own, with the options given and the session rhythm, session size and grade probabilities of the student's profile. It reports the sessions, exercises and days to mastery as they happened, ending with the first session after which every course reaches the threshold, or after the maximum number of sessions. Its verification refuses probabilities that do not sum to one and invalid options.",
     ["configurations", "histories"], "all libraries, student profiles, thresholds, options and outcomes of chance",
     "The tests run one small library and look at the interpolation of one profile.",
     ["src/benchmark.rs"],
     [("simulation", "src/benchmark.rs simulate_student"), ("grades", "src/benchmark.rs get_score"), ("end", "src/benchmark.rs check_mastery"), ("verification", "src/benchmark.rs verify")],
     "offline monitor over the practice recorded in each student's copy, kept by interposing on the removal of files; scores recomputed on a fresh library with the records of each session",
     "Students up to 12 sessions; linear interpolation assumed; scores within 0.001 of the threshold are not judged; shares of grades judged at 6.5 standard deviations.")

prop("C39", "Options are refused exactly when they make no sense",
     "Scheduler options are accepted exactly when a batch and the lessons in progress may hold at least one, the fractions lie between zero and one, the passing score lies between zero and the score at which all exercises are offered and asks for at least one trial on average, the shares of the ranges of mastery add up to one, whatever the rounding of their sum, and the ranges run from 0 to 5, each starting where the one before it ends. A library whose preferences lead to options that are not accepted does not open, and those that are accepted apply from its opening.",
     ["inputs"], "all options made of numbers, and all preferences",
     "The tests refuse one value of some options and accept the default ones.",
     ["src/data.rs", "src/lib.rs"],
     [("options", "src/data.rs SchedulerOptions::verify"), ("passing options", "src/data.rs PassingScoreOptions::verify"), ("preferences", "src/lib.rs create_scheduler_options")],
     "monitor with an exact oracle: options generated in whole thousandths, sensible ones and each kind of mistake",
     "Shares and ranges are multiples of a thousandth; values that are not numbers are not judged.")


def main():
    mod = open(os.path.join(HERE, "harness/src/checks/mod.rs")).read()
    done = set(re.findall(r'"(C\d\d)" =>', mod))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert len(re.findall(r"[.](?:\s|$)", p["statement"])) <= 3, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in done:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./run.sh {p['id']} quick",
                "thorough_cmd": f"./run.sh {p['id']} thorough",
                "technique": "runtime monitoring: " + p["technique"],
                "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every monitor observes the public interface, the databases and the process. Commits in /repo are repairs only (see KNOWN_FINDINGS.txt)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")


main()
