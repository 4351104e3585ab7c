"""The properties, what decides them, and what is not claimed."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech=None, note="", na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, tech=tech, note=note, na=na, state=state))


P("E01", "A failure inside the library reaches the caller",
  "Whenever a step of analysing, building a dictionary, loading or saving a model or training reports a failure, the "
  "operation that ran the step also reports failure; no failure is dropped, overwritten by a later success or answered "
  "with a success result, and no exception handler turns an exception into success.",
  ["inputs", "fault_sequences"],
  "every failing step of every library operation, for every input and every fault",
  "The tests make a few dozen chosen steps fail; there are several hundred places where a failure could be dropped, most "
  "of which need a corrupted file, a full disk or an odd configuration to be reached.",
  ["src/util/status.hpp", "src/core/", "src/rnn/", "src/jumandic/shared/"],
  [("error result type and the return-if-failed idiom", "src/util/status.hpp"),
   ("fallible primitives", "src/util/coded_io.h, src/util/csv_reader.h, src/core/dic/field_import.h")],
  tech="path-sensitive dataflow over clang CFGs: fate of every error value, catch-handler outcome, must-use booleans",
  note="A failing edge is followed to a returned error, throw, abort, stored error or failure exit value.")

P("E02", "The command line tools exit with failure when something failed",
  "When loading the model, parsing options, opening or reading an input, building, training or saving fails, the command "
  "line programs end with a non-zero exit status; a single sentence which can not be analysed or formatted is reported "
  "on standard error and answered with an error record instead.",
  ["inputs", "configurations", "fault_sequences"],
  "every failing operation the programs perform, for every command line and input",
  "The tests never run the programs; their exit status under failures is not sampled at all.",
  ["src/jumandic/main/", "src/core/tool/", "src/jumandic/shared/jumanpp_args.cc", "src/jumandic/shared/jumandic_env.cc"],
  [("program entry points", "src/jumandic/main/jumanpp.cc, jumanpp_train.cc, bootstrap.cc, path_diff.cc; "
    "src/core/tool/jumanpp_tool.cc")],
  tech="path-sensitive dataflow over clang CFGs: fate of every error value up to the process exit status")

P("A01", "Every option takes effect on the setting it names and overrides the files",
  "Every documented command line option, given on the command line or in a configuration file, changes exactly the "
  "setting it names, and that setting is used by the part of the program it is meant for; an option given on the "
  "command line overrides the configuration file, which overrides what the model stores; an option not given leaves "
  "the lower level's value unchanged.",
  ["configurations"],
  "every documented option of every program, alone and combined with a configuration file and values stored in a model",
  "No test parses a command line; the combinations of options, configuration files and stored values are too many to "
  "sample and a swapped or dropped setting is silent.",
  ["src/jumandic/shared/jumanpp_args.cc", "src/jumandic/shared/jumandic_env.cc", "src/jumandic/main/",
   "src/core/training/training_types.h", "src/rnn/mikolov_rnn.cc"],
  [("options of the analyser", "src/jumandic/shared/jumanpp_args.cc"),
   ("options of training", "src/jumandic/main/jumanpp_train.cc, src/core/tool/jumanpp_tool_args.h"),
   ("defaults, merging and precedence of settings", "src/util/cfg.h, src/jumandic/shared/jumanpp_args.h")],
  tech="interprocedural value-flow analysis from option declarations to settings and from settings to their consumers",
  note="Tables in the rule module name each documented option and the setting it stands for.")

P("S01", "What a model file stores is read back into the same place",
  "Every value which building or training writes into a model is read back with the same encoding, in the same order "
  "and into the same place: each field of every stored structure, each block of every model part, dictionary entry "
  "pointers, key-value lists and string storage; and when one stored value can not be read, loading fails.",
  ["inputs", "histories"],
  "every structure stored in a model and every value of its fields",
  "Tests round-trip a few small structures; a forgotten or reordered field, block or shift shows only with values that "
  "differ from the defaults.",
  ["src/util/serialization.h", "src/util/coded_io.h", "src/core/spec/spec_serialization.cc", "src/core/dic/",
   "src/core/impl/model_format_ser.h", "src/core/analysis/rnn_scorer_gbeam.cc", "src/core/impl/model_io.cc"],
  [("archives", "src/util/serialization.h"), ("structures", "src/core/spec/spec_serialization.cc, dic_impl.h"),
   ("model parts", "src/core/dic/dic_builder.cc, perceptron.cc, rnn_scorer_gbeam.cc")],
  tech="symmetry analysis of save and load code over the type-checked AST: wire sequences, field coverage, chunk layout",
  note="Compares what each saver writes with what the matching loader reads, and stored fields with declared fields.")

P("H01", "The result for a sentence does not depend on earlier sentences",
  "Analysing, formatting or training on one sentence gives the same result whatever was analysed before with the same "
  "objects: every piece of state which a reader, analyser, formatter or trainer keeps between sentences is set anew "
  "before it is used for the next one, also after a sentence which failed or was empty, and nothing per sentence is kept "
  "in static storage.",
  ["histories", "inputs"],
  "every sequence of sentences given to one reader, analyser, formatter or trainer",
  "Tests use a fresh analyser for most sentences; state left over shows only after particular pairs of sentences, such as a "
  "comment, unknown word or long sentence followed by one without it.",
  ["src/core/analysis/", "src/core/training/", "src/core/input/", "src/core/impl/", "src/jumandic/shared/", "src/util/memory.hpp"],
  [("reset of the analyser", "src/core/analysis/analyzer_impl.h, extra_nodes.h, lattice_builder.cc"),
   ("readers and formatters", "src/core/input/stream_reader.cc, src/jumandic/shared/*_format.cc"),
   ("trainers", "src/core/training/trainer.h, partial_trainer.cc")],
  tech="interprocedural must-define-before-use dataflow over fields of long-lived objects; effect analysis of static storage",
  note="An episode is reading, analysing and formatting one sentence, or preparing and computing one training example.")

P("C01", "Analysers and trainers running at once share no state that changes",
  "Several analysers or trainers which use the same model, dictionary and scorers from different threads do not influence "
  "each other: the code that reads, analyses, formats or trains changes no member of the shared objects (specification, "
  "dictionary, features, scorers, configuration), no variable with static storage, and none of the shared classes has "
  "mutable members.",
  ["schedules", "inputs"],
  "every interleaving of analysers or trainers on one loaded model",
  "A race needs an unlucky schedule; the tests run one analyser at a time.",
  ["src/core/analysis/", "src/core/impl/", "src/core/dic/", "src/core/core.h", "src/core/training/", "src/jumandic/shared/"],
  [("shared objects", "src/core/core.h, src/core/dic/dictionary.h, src/core/analysis/score_api.h"),
   ("per-thread objects", "src/core/analysis/analyzer_impl.h, src/core/training/trainer.h")],
  tech="interprocedural effect analysis: stores to shared classes and static storage in everything reachable from thread roots",
  note="Weights updated by the training thread while others score are shared by design and outside the rule.")

P("C02", "Training with several threads loses no example and always ends",
  "The queues between the training threads are only used under their lock, a refused item stays with the caller, each item "
  "is handed out once, a waiting thread is woken up for every item and tests again before it takes one; each trainer that "
  "is taken is answered exactly once also when it failed, the main thread waits for as many answers as it submitted, and "
  "the threads are stopped and joined in every case.",
  ["schedules", "fault_sequences"],
  "every interleaving of the main and worker threads, and failures at any point",
  "No test runs training with more than one thread or makes a worker fail.",
  ["src/util/bounded_queue.h", "src/core/training/training_executor.cc", "src/core/training/training_env.cc"],
  [("queue", "src/util/bounded_queue.h"), ("worker threads", "src/core/training/training_executor.cc"),
   ("main thread", "src/core/training/training_env.cc")],
  tech="lock-set and typestate analysis over CFGs: guarded fields, wait loops, notify after put, answer per take, stop and join")

P("R01", "Exceptions become error results and never end the program",
  "An exception the library throws - a dictionary which is too large, a malformed specification, a trie which can not be "
  "built, a number which is not one, a failure inside a training thread - is caught by the operation that was running and "
  "becomes its error result: none of them leaves the program's main function or a thread.",
  ["inputs", "fault_sequences"],
  "every throw reachable from an operation, for every input and fault",
  "The throws sit on paths no test takes (dictionaries of gigabytes, failing workers); an uncaught one ends the process.",
  ["src/core/dic/", "src/core/spec/", "src/core/training/training_executor.cc", "src/core/codegen/", "src/jumandic/shared/"],
  [("handlers", "src/core/dic/dic_builder.cc, src/core/dic/darts_trie.cc, src/core/spec/spec_parser.cc, "
    "src/core/training/training_executor.cc, src/core/codegen/feature_codegen.cc")],
  tech="interprocedural exception-flow analysis: every throw has a compatible handler on every call path from main or a thread",
  note="Out-of-memory exceptions and exceptions of the analyser itself on valid models are outside the rule.")

P("D01", "Results depend on nothing but the model, the options and the input",
  "Analysing the same text with the same model and options prints the same result, and building, or training one example at a time "
  "(one thread, batches of one), from the same files with the same options and seed gives the same model up to the recorded creation time: no clock, "
  "environment, process or thread identity, object address, uninitialised variable or hash container order decides a result, "
  "and every random engine is created from the configured seed where it is used.",
  ["inputs", "histories"],
  "every input, and every pair of runs on it",
  "Two runs in one test process see the same addresses and hash tables; differences show between processes, machines and "
  "histories.",
  ["src/core/analysis/", "src/core/training/", "src/core/dic/", "src/core/spec/", "src/jumandic/shared/"],
  [("random engines", "src/core/training/trainer.cc, src/core/training/scw.cc"),
   ("hash containers whose contents are printed", "src/jumandic/shared/lattice_format.cc, src/jumandic/shared/jumanpp_pb_format.cc"),
   ("creation time", "src/core/dic/dic_builder.cc")],
  tech="taint analysis from nondeterministic sources, seeding and storage rules for random engines, sort-after-collect dataflow "
       "over CFGs, clang's uninitialised-variable flow analysis",
  note="In larger batches the training applies an update while other examples of the batch are being scored, by design; when exactly is up to the "
       "scheduler.")

P("S03", "A truncated, corrupted or incompatible model file is refused",
  "Loading a model ends with an error, not with a half-read model or a crash, when the file does not start with the model's "
  "magic bytes, when a stored block does not lie inside the file, when a part has fewer chunks than its reader uses, when a "
  "structure can not be decoded completely, when the specification's magic numbers or version are wrong, when dictionary "
  "columns, storages or limits do not fit the specification and the program, or when stored sizes of weights and RNN matrices "
  "do not agree with the stored bytes.",
  ["inputs"],
  "every content of a model or RNN file",
  "The tests load models they have just saved; damage shows only for particular sizes and offsets.",
  ["src/core/impl/model_io.cc", "src/core/dic/dic_builder.cc", "src/core/analysis/perceptron.cc",
   "src/core/analysis/rnn_scorer_gbeam.cc", "src/util/serialization.h", "src/rnn/mikolov_rnn.cc"],
  [("container", "src/core/impl/model_io.cc"), ("dictionary part", "src/core/dic/dic_builder.cc"),
   ("weights", "src/core/analysis/perceptron.cc, src/core/analysis/rnn_scorer_gbeam.cc, src/rnn/mikolov_rnn.cc"),
   ("decoder", "src/util/serialization.h, src/core/spec/spec_types.cc")],
  tech="path-based guard analysis over CFGs: every use of a stored offset, size, count or version is only reachable through "
       "a comparison of it whose failure returns an error",
  note="Damage inside the dictionary's own encoded data, which carries no sizes to compare with, is outside the rule.")

P("B01", "Decoding of binary data never leaves the buffer",
  "Whatever bytes a model, dictionary or RNN file contains, decoding them reads only inside the buffer it was given: a byte is "
  "read only where the distance to the end of the buffer was shown to be enough, a truncated value makes the decoder report "
  "failure, positions and lengths given by the data are limited to the buffer, lists which run into the end of their storage "
  "are not read further, the answer of each reading step is tested before the value is used, and encoders only write into "
  "memory they have reserved.",
  ["inputs"],
  "every content of the decoded bytes and every position in them",
  "The tests decode what the encoder wrote; a missing or off-by-one bound shows only when a value is cut at a particular byte, "
  "and then silently reads the neighbouring memory.",
  ["src/util/coded_io.h", "src/core/dic/dic_entries.h", "src/core/dic/field_reader.h", "src/util/char_buffer.h",
   "src/core/features_api.h", "src/core/impl/model_io.cc"],
  [("varint and fixed size decoding", "src/util/coded_io.h"),
   ("lists and strings of the dictionary", "src/core/dic/field_reader.h"),
   ("buffers of entry values", "src/core/analysis/dic_reader.h, src/core/dic/dic_entries.h")],
  tech="dataflow over CFGs: byte cursors with proven distances to the end of the buffer, reaching comparisons for each read, "
       "typestate of reading results",
  note="Cursors are recognised by type and use, not by name.")

P("B02", "Reading of text (UTF-8, CSV, numbers) never leaves the text",
  "Whatever bytes an input text, dictionary or corpus contains, taking it apart into characters, CSV fields or numbers reads only "
  "inside the text; a character of n bytes is accepted only if its first byte announces n and n-1 continuation bytes follow; a "
  "text which is not valid UTF-8 or ends inside a character is reported as an error instead of being used; and a number is "
  "accepted only if all of its characters are digits.",
  ["inputs"],
  "every byte string given as text",
  "The tests use well-formed Japanese text and a few broken sequences; a missing bound or a wrong mask shows only for particular "
  "broken bytes at the end of the text.",
  ["src/util/characters.cc", "src/util/characters.h", "src/util/csv_reader.cc", "src/util/parse_utils.cc",
   "src/core/input/", "src/core/analysis/analysis_input.cc"],
  [("UTF-8 decoder", "src/util/characters.h, src/util/characters.cc"),
   ("CSV reader", "src/util/csv_reader.cc"), ("numbers", "src/util/parse_utils.cc"),
   ("readers of inputs", "src/core/input/")],
  tech="dataflow over CFGs with byte cursors; finite evaluation of each branch condition over all 256 byte values along every "
       "acyclic path of the decoder")

P("F01", "Files which are read are never changed, and mappings stay inside the file",
  "Models, dictionaries and corpora which are read are opened and mapped read-only and are never created, extended, changed or "
  "removed; a file is opened for writing only where output is meant to be written, and never under the name of an input; a "
  "mapped range lies inside the file (a file opened for writing is extended to contain it first), and the view which is handed "
  "out starts at the requested offset, has the requested size, and is unmapped with exactly the address and length it was "
  "mapped with.",
  ["configurations", "inputs"],
  "every file the library and the programs open, with any offset and size",
  "Tests map whole small files at offset 0; protection flags, page alignment and the end of the file matter only for other "
  "offsets, and a changed input file is not looked at afterwards.",
  ["src/util/mmap_impl_unix.h", "src/util/mmap.h", "src/util/mmap.cc", "src/core/impl/model_io.cc", "src/util/csv_reader.cc",
   "src/jumandic/shared/jumandic_env.cc", "src/jumandic/main/"],
  [("memory mapped files", "src/util/mmap_impl_unix.h, src/util/mmap.h"),
   ("users", "src/core/impl/model_io.cc, src/util/csv_reader.cc, src/rnn/, src/jumandic/main/")],
  tech="constant propagation of open modes through the call graph, symbolic linear forms of offsets and sizes, dominance of "
       "range checks; disjointness of configuration fields used as input and as output paths")

P("O01", "Every input gets exactly one complete result, in order, and nothing else",
  "The analyser writes exactly one result for each input it has read, before it reads the next one: the formatted analysis, or, "
  "if reading, analysing or formatting failed, the substitute for it; it stops only at the end of the inputs. Analysis, "
  "formatting and writing each happen only after the step before succeeded. A result ends with the terminator of its format, "
  "which it contains once, also when the sentence is empty; the substitute ends the same way; a comment given with the input is "
  "printed also for an empty sentence; and nothing else is written to the standard output.",
  ["inputs", "configurations", "fault_sequences"],
  "every sequence of inputs, valid or broken, in every line-based output format",
  "No test runs the analyser's main loop; alignment of inputs and results breaks only at a broken or empty input in the middle "
  "of a stream, and all later results are then attributed to the wrong input.",
  ["src/jumandic/main/jumanpp.cc", "src/jumandic/shared/jumandic_env.cc", "src/jumandic/shared/juman_format.cc",
   "src/jumandic/shared/lattice_format.cc", "src/jumandic/shared/morph_format.cc", "src/core/impl/segmented_format.cc"],
  [("main loop", "src/jumandic/main/jumanpp.cc"), ("substitutes", "src/jumandic/shared/jumandic_env.cc"),
   ("formats", "src/jumandic/shared/, src/core/impl/segmented_format.cc")],
  tech="path counting over the CFG of the input loop and its callees, dominance by the success edge of the step before, "
       "last-literal and terminator-count dataflow through the formats, call-graph search for uses of the standard output",
  note="Binary formats (protobuf) and the dictionary subset have no terminator; the rule covers the others.")

P("K01", "Sorting, searching, beams and hashing use consistent orders",
  "Every order given to a sort, heap or search is a strict weak ordering of the elements it is used on, and every use which relies on an order "
  "(binary search, removal of duplicates, merging, heap operations, partial sorting) works on data arranged by that same order "
  "and keys. Of the candidates of a beam the best are kept, sorted from best to worst, and a better candidate never loses its place to a "
  "worse one. Equality is symmetric and compares every part of the values, equal values have equal hashes, and the packed form of a "
  "beam candidate rises with its score and gives back the beam and element numbers it was made from.",
  ["inputs", "configurations"],
  "every set of elements compared, sorted, put into a beam or hashed, in any arrival order, with ties",
  "A comparator which is wrong for ties or for one combination of keys, or a beam which drops a better candidate, changes the "
  "result only for particular scores and arrival orders; undefined behaviour of std::sort shows rarely.",
  ["src/core/analysis/score_processor.h", "src/core/analysis/score_processor.cc", "src/core/training/", "src/util/stl_util.h",
   "src/core/dic/", "src/core/spec/", "src/core/impl/", "src/rnn/"],
  [("beam", "src/core/analysis/score_processor.h"), ("dictionary building", "src/core/dic/"),
   ("training", "src/core/training/loss.cc, src/core/training/gold_example.h"), ("equality and hashing", "src/core/spec/, src/util/")],
  tech="finite abstract interpretation of the comparison functions over all orderings of the fields they read (case split, no "
       "solver), bit provenance of packed values, and dataflow from a use back to the sort of the same data",
  note="Numbers are compared as totally ordered values (no NaN).")

P("P01", "Readers report malformed data, and lose or repeat no example",
  "A reader of dictionaries, corpora or partially annotated data which finds no next line succeeds only after asking whether "
  "the data has ended or is malformed; a malformed line is not skipped. The end of the input is reported exactly when nothing "
  "is left: not while there are lines, always when there are none, and not together with an example which has been read (also when its "
  "terminating line is missing). Users of a reader use each example once and use none after the end; a reader that starts over "
  "does not claim to have ended.",
  ["inputs", "configurations"],
  "every corpus or dictionary text, well-formed or not, with any number of examples, batch size and number of epochs",
  "Tests read one or two complete examples; the last example without a terminator, an input whose size is a multiple of the batch, "
  "or a malformed line behind many good ones are not covered.",
  ["src/util/csv_reader.cc", "src/core/input/partial_example_io.cc", "src/core/input/pex_stream_reader.cc",
   "src/core/training/full_example.cc", "src/core/training/trainer.cc", "src/core/training/training_env.cc",
   "src/core/dic/dic_build_detail.cc", "src/rnn/mikolov_rnn.cc"],
  [("CSV reader", "src/util/csv_reader.cc"), ("examples", "src/core/training/full_example.cc, src/core/input/"),
   ("batches and epochs", "src/core/training/trainer.cc, src/core/training/training_env.cc"),
   ("dictionary and RNN words", "src/core/dic/, src/rnn/")],
  tech="typestate of the readers over CFGs: paths after a failed advance, values of end flags at each successful return, "
       "accumulation between advances, and paths of the users cut at tests of the flag",
  note="What an example contains is not decided here.")

P("N01", "No input makes it loop or recurse forever",
  "Every loop of the library and the programs ends: each turn of a loop changes something its exits depend on, a counter moves "
  "towards its bound and is wide enough to reach it, and a loop over items advances in every turn also when an item is skipped. A "
  "reader or iterator moves on whenever it answers that there is an item, says that there is a next one exactly when something is left, and "
  "every recursion has a path which does not call itself again and a depth which gets closer to its limit.",
  ["inputs", "configurations"],
  "every input, model file, corpus and option, for every loop and every recursive function",
  "A test only shows that the inputs it contains end; a turn which changes nothing is reached only for the items which are skipped, "
  "for a malformed or empty item, or for sizes which overflow a narrow counter.",
  ["src/core/analysis/", "src/core/input/", "src/core/dic/", "src/core/training/", "src/core/features_api.h", "src/core/impl/",
   "src/util/", "src/rnn/", "src/jumandic/"],
  [("loops", "src/"), ("iterators", "src/core/dic/field_reader.h, src/core/dic/darts_trie.h, src/util/csv_reader.cc"),
   ("recursion", "src/core/analysis/unk_nodes_creator.cc, src/core/codegen/, src/core/spec/")],
  tech="natural loops of the CFG cut at changes of what the exit conditions read (a turn without one is reported), direction of "
       "counters against their bounds, and strongly connected components of the call graph cut at non-recursive paths",
  note="How long a loop runs is not decided; an infinite input stream is not considered.")

P("T01", "Training updates move the weights towards the annotation",
  "Training moves the weights towards the annotation: features only the annotation has get a positive contribution, features only the "
  "analysis has a negative one; feature numbers are reduced to the size of the weight table before contributions to the same "
  "feature are ordered and added up, and none is lost. Every example of a batch, full or partial, contributes exactly its own loss and "
  "difference once per pass, by the published soft confidence weighted formulas; the weights which are updated are the ones the analyser "
  "scores with during training, and all of them are exported after the last epoch. The loss of an epoch is the sum over all its batches, and "
  "training ends before the last epoch only when that loss changes by less than the configured bound.",
  ["inputs", "configurations"],
  "every corpus, full or partial annotation, weight table size, number of threads and confidence parameters",
  "The tests check that a loss falls on a few sentences, which it also does with a wrong sign for a rare kind of difference, a lost "
  "contribution or a wrong confidence update.",
  ["src/core/training/"],
  [("differences", "src/core/training/loss.cc, src/core/training/partial_trainer.cc"),
   ("updates", "src/core/training/scw.cc, src/core/training/scw.h"),
   ("batches", "src/core/training/trainer.cc, src/core/training/training_env.cc, src/core/training/training_executor.cc")],
  tech="symbolic canonical-form comparison of the update formulas (value numbering, no solver), sign and origin dataflow of the "
       "contributions, path cuts per kind of difference, dominance of masking before sorting",
  note="That training converges is not decided.")

P("M01", "Memory, files and mappings are released once and not used after that",
  "Memory, files and mappings are released exactly once: what is allocated or opened has exactly one owner on every path, also when an "
  "error is returned in between, and is released in the matching way; an owner gives up what it is moved from, releases what it is "
  "assigned over, and is not copied; objects deleted through a base class have a virtual destructor. Nothing is used after it was "
  "moved away or released, no reference or pointer into a container is used after the container may have grown, and no view outlives "
  "what it points to (text of a reader is kept only after it was copied, and a copy which does not fit is an error). Pool memory is handed out "
  "once, aligned and inside its page, and pools restart together with their memory.",
  ["inputs", "crash-points", "configurations"],
  "every input, model, sequence of operations and error path",
  "The tests run without leak or address checking, and most of these errors keep working by chance: freed memory still holds the old "
  "content, a vector does not always move, and errors between acquiring and releasing are not provoked.",
  ["src/util/char_buffer.h", "src/util/memory.hpp", "src/util/memory.cpp", "src/util/mmap_impl_unix.h", "src/util/status.hpp",
   "src/util/inlined_vector.h", "src/core/impl/model_io.cc", "src/core/analysis/", "src/core/training/", "src/core/dic/", "src/rnn/"],
  [("owners", "src/util/"), ("models and dictionaries", "src/core/impl/model_io.cc, src/core/dic/"),
   ("analysis and training", "src/core/analysis/, src/core/training/")],
  tech="ownership typestate per acquisition over CFGs, move/delete typestate of locals and fields, container growth versus reference "
       "uses on paths, provenance of views with lifetimes of what they point to, and arithmetic provenance of the pool allocator",
  note="Objects of the specification compiler which live in its own pool are not destroyed one by one; exhaustion of memory "
       "(std::bad_alloc) is not considered.")


P("I01", "Every number is used in the numbering it belongs to",
  "The code numbers many things: columns of the dictionary csv, fields of the specification, features of dictionary entries (and, as "
  "complements, the data which is not a feature), string and integer storages, columns of the training corpus, primitive and pattern "
  "features, placeholders, code points of the input, boundaries of the lattice (two more than code points), nodes which start and nodes "
  "which end at a boundary, and places in a beam. What indexes an array is a number of the kind the array is numbered by, a number "
  "which is stored or passed on as one of some kind is one, compared numbers are of the same kind, arrays are made as large as there are things which "
  "number them, and a conversion between kinds (columns of a specification start at one, boundaries are shifted by two) happens exactly once. "
  "So training, loss and output look at the field they name also when dictionary columns, features and corpus columns are ordered differently, "
  "and a step of a path refers to the node, the predecessor and the beam it was computed for.",
  ["inputs", "configurations"],
  "every specification (order and subset of columns, features and training fields), lattice shape and beam size",
  "The specifications of the tests number columns, features and training fields in the same order, and their lattices often have one node per boundary, "
  "so that a mixed-up number is usually equal to the right one.",
  ["src/core/spec/spec_compiler.cc", "src/core/dic/", "src/core/training/", "src/core/input/training_io.cc", "src/core/analysis/",
   "src/core/impl/"],
  [("dictionary", "src/core/dic/dic_build_detail.cc, src/core/spec/spec_compiler.cc"),
   ("training", "src/core/training/gold_example.cc, src/core/training/loss.cc, src/core/input/training_io.cc"),
   ("lattice", "src/core/analysis/lattice_builder.cc, src/core/analysis/score_processor.cc, src/core/impl/global_beam_position_fmt.cc")],
  tech="kind (unit) inference for integers: kinds seeded at fields and containers, propagated forwards through locals, fields, returns and arguments "
       "and backwards as requirements of indexes and parameters; every use with two known kinds is compared",
  note="A number whose kind is not known at either end of a use is not judged, and neither are numbers of the same kind mixed up with each "
       "other (two different boundaries, two training fields).")

P("G01", "A feature has one value on every evaluation route",
  "The value of an n-gram feature depends only on its number, its order and the pattern values of the word, of the word before and of the one before that. "
  "Jumanpp computes it on several routes: all features at once for training and loss, in steps (uni-, bi- and trigram state) for the local beam, "
  "jointly for bigrams and trigrams in the global beam, interpreting the specification or with code generated from it. All routes give the same value, "
  "take each feature of the order once, add up the weights of all of them, and store the score with the word it was computed for. Pattern values are the "
  "same whether interpreted or generated, patterns used only by unigrams come last (so that they may be left out), and generated code is used only with a "
  "model whose specification it was generated from.",
  ["inputs", "configurations"],
  "every specification (numbers, order and patterns of features), sentence, beam setting and route",
  "The tests compare routes on toy specifications with few features and rows, where exchanged patterns, places or rows often hold equal values; the generated "
  "code of the distributed specification is never compared with the interpreting code.",
  ["src/core/impl/feature_impl_ngram_partial.h", "src/core/impl/feature_impl_ngram_partial.cc", "src/core/impl/feature_impl_ngram_partial_kernels.h",
   "src/core/impl/feature_impl_combine.h", "src/core/impl/feature_impl_pattern.cc", "src/core/codegen/", "src/core/analysis/perceptron.h",
   "src/core/features_api.cc", "src/core/spec/spec_hashing.cc"],
  [("steps of a feature", "src/core/impl/feature_impl_ngram_partial.h"),
   ("joint computation", "src/core/impl/feature_impl_ngram_partial_kernels.h"),
   ("generated code", "src/core/codegen/partial_ngram_feature_codegen.cc, pattern_feature_codegen.cc")],
  tech="global value numbering with inlining: each route is reduced to a term over feature constants and pattern slices, and the terms are compared with each "
       "other; row/buffer tag dataflow over CFGs for the pipelined loops; table comparison in the generated code of the distributed specification",
  note="Generated code is analysed for the specification the repository distributes; for other specifications the generator is judged by the order in which it "
       "prints constants. Floating point summation order is not part of the value.")

P("Y01", "Training compares with the whole annotation",
  "What training learns is the difference between the analysis and the whole annotation, and nothing else. A word of the lattice is taken for the annotated "
  "one only when it has the right surface and kind and every annotated field which counts agrees, exact matches before allowed ones; every annotated word gets "
  "one place on the golden path, as the word which was found or as one which is added, with all its values, behind those which are there. The two paths are "
  "compared step by step: each side moves on exactly when its word was compared, each step says everything that is read from it, the worst word of a boundary stands "
  "for it, and updates stop where the chosen mode says. With partial annotation a word violates it exactly when it begins or ends where no boundary may be, spans a given "
  "boundary, has another length or differs in a given tag; all constraints are looked at; only paths whose words all agree are learned from, each kind of violation is "
  "answered with candidates of the right kind and place, and the loss counts the words with a violation and no others.",
  ["inputs", "configurations"],
  "every training example (fully or partially annotated), specification, lattice and beam",
  "The tests train on a few toy sentences whose words are in the dictionary and whose analyses differ in one place, and check that training ends, not what was compared.",
  ["src/core/training/gold_example.cc", "src/core/training/gold_example.h", "src/core/training/loss.cc", "src/core/training/loss.h",
   "src/core/training/partial_trainer.cc", "src/core/input/partial_example.cc"],
  [("golden path", "src/core/training/gold_example.cc, src/core/training/gold_example.h"),
   ("comparison", "src/core/training/loss.cc, src/core/training/loss.h"),
   ("partial annotation", "src/core/training/partial_trainer.cc, src/core/input/partial_example.cc")],
  tech="path analysis of loop turns over CFGs under assumed relations (field agrees or differs, place before/on/inside/behind the word), must-set analysis of the fields of a step, "
       "and region tables: for each relative position of a constraint the outcomes reachable in the source are compared with the required one",
  note="Which features the differences are made of and how weights change is T01; which numbering an index belongs to is I01.")

P("L01", "The lattice has exactly the words the dictionary and the rules allow",
  "For every sentence the lattice has a word for each dictionary entry whose surface stands at a position of the input, and for each word a rule for unknown words "
  "makes there, whatever else stands before or behind it, and no others; every word starts and ends where its characters do. Looking up goes on as long as some entry "
  "starts so and stops where none does; an unknown word is made where its rule applies and is noted with whether longer entries start so. A word "
  "written in another way is found through the characters it stands for and is noted with what was changed. Characters are looked at only inside the input. "
  "Words are counted where they start and end, each is found again at the boundary where it starts and among those which end where it ends, the nodes before and behind "
  "the sentence are connected. The rules of the second stage are used exactly when the first leaves a gap, and a sentence which can not be covered is an error.",
  ["inputs", "configurations"],
  "every sentence, dictionary and set of rules for unknown words",
  "The tests look for a few words in short inputs, most of them in the middle; a word left out at an edge, or after a particular neighbour, an off by one of a boundary, "
  "or a read behind the end which finds the characters of an earlier sentence, shows only for particular inputs.",
  ["src/core/analysis/dictionary_node_creator.cc", "src/core/analysis/unk_nodes_creator.cc", "src/core/analysis/numeric_creator.cc",
   "src/core/analysis/onomatopoeia_creator.cc", "src/core/analysis/normalized_node_creator.cc", "src/core/analysis/charlattice.cc",
   "src/core/analysis/unk_nodes.cc", "src/core/analysis/lattice_builder.cc", "src/core/analysis/analyzer_impl.cc"],
  [("words of the dictionary", "src/core/analysis/dictionary_node_creator.cc"),
   ("unknown words", "src/core/analysis/unk_nodes_creator.cc, numeric_creator.cc, onomatopoeia_creator.cc"),
   ("other spellings", "src/core/analysis/charlattice.cc"),
   ("boundaries", "src/core/analysis/lattice_builder.cc")],
  tech="path analysis over CFGs under each answer of the dictionary and each test of a character, linear forms of positions with the facts of dominating branches (every index "
       "into the input is compared with its length), pairing rules for counters and boundary indices",
  note="What counts as a number, an onomatopoeia or another spelling is the definition in the code; only where its parts are looked for, and what is made of them, is decided. "
       "Merging of equal words (LatticeCompactor) is not used by the analyser.")

P("W01", "A word is scored by the RNN in the context of its own path",
  "With a recurrent network in the model, each connection of the paths in the global beam gets the network's score of its word after exactly the words which precede it in its "
  "path: the state is the one after the preceding word, the history has the preceding words with the nearest first, the embeddings and weights are those of the word which is "
  "scored, and the score is the product plus the weights minus the constant. Words which are the same for the network (same id, length and words before) share one computation, "
  "yet each connection has its own score; a word the network does not know gets the constant and the penalty for its length. Nothing of an earlier sentence is used, "
  "and a model which was written and loaded again gives the same scores as the network's own file.",
  ["inputs", "configurations"],
  "every sentence, global beam, network and dictionary",
  "The tests score a single sentence with a toy network whose paths hardly differ, and compare nothing which was written and loaded again; wrong contexts change scores, not whether a test passes.",
  ["src/core/analysis/rnn_scorer_gbeam.cc", "src/core/analysis/rnn_id_resolver.cc", "src/core/analysis/rnn_id_resolver.h",
   "src/rnn/mikolov_rnn_impl.h", "src/rnn/mikolov_rnn.cc", "src/rnn/mikolov_rnn.h"],
  [("paths become words of the network", "src/core/analysis/rnn_id_resolver.cc"),
   ("states, histories and scores of a boundary", "src/core/analysis/rnn_scorer_gbeam.cc"),
   ("the network", "src/rnn/mikolov_rnn_impl.h"),
   ("files", "src/rnn/mikolov_rnn.cc, src/core/analysis/rnn_scorer_gbeam.cc")],
  tech="access-path analysis (each value as the chain of members from a parameter, or from a walker over a list), compared between the two sides of every store and lookup; path "
       "analysis of loop turns for lists, counters and histories; order obligations over CFGs; pairing of written and read parts",
  note="The floating point arithmetic itself (Eigen, SIMD) is not decided, only which operands take part with which sign; that hashes of different words differ is assumed.")

# ---------------------------------------------------------------------------------------------------- not applicable
P("V01", "The printed analysis is the best scoring one",
  "The analysis the program prints is the path with the highest score among all paths which the dictionary and the unknown word rules "
  "allow for the sentence (among those which the beam keeps, when a beam is used).",
  ["inputs", "configurations"],
  "every sentence, model and beam width",
  "Tests compare a few short sentences under toy weights.",
  ["src/core/analysis/score_processor.cc", "src/core/analysis/score_processor.h", "src/core/analysis/analyzer_impl.cc"],
  [("beam search", "src/core/analysis/score_processor.cc"), ("scores", "src/core/impl/feature_impl_combine.h")],
  na="A maximum over sums of runtime weights on runtime lattices: no static argument bounds it without executing the search "
     "concretely or symbolically. The structural parts are decided elsewhere (orders and heaps K01, ends of input P01, state H01).")

P("V02", "Training makes the model better on its training data",
  "After training, the model analyses the training corpus at least as well as before, and repeated epochs converge.",
  ["inputs", "histories"],
  "every corpus and configuration",
  "Tests train on a handful of sentences.",
  ["src/core/training/training_env.cc", "src/core/training/scw.cc"],
  [("online learning", "src/core/training/scw.cc, src/core/training/loss.cc")],
  na="Convergence is a statement about data and floating point trajectories, out of reach of static analysis; that each update is "
     "the soft confidence weighted update of the right features is decided under T01.")

P("V03", "Output can be read back to the analysis it was made from",
  "Text in each output format, read by a reader of that format, gives exactly the surfaces, fields and comments of the analysis it was "
  "printed from, whatever characters these contain.",
  ["inputs"],
  "every analysis and every dictionary content",
  "Tests format a few analyses and compare with fixed text.",
  ["src/jumandic/shared/", "src/core/analysis/"],
  [("formatters", "src/jumandic/shared/juman_format.cc, src/jumandic/shared/morph_format.cc, src/jumandic/shared/lattice_format.cc")],
  na="The readers of these formats are other programs and jumanpp does not escape separators in every format, so the property "
     "is over the contents of dictionaries and sentences, not over the source; terminators and order of results are decided under O01.")

P("V04", "Analysis time and memory stay proportionate to the input",
  "The time and memory for a sentence are bounded by a moderate function of its length and of the dictionary.",
  ["inputs", "configurations"],
  "every sentence",
  "Tests use short sentences.",
  ["src/core/analysis/", "src/util/memory.hpp"],
  [("pool allocator", "src/util/memory.hpp")],
  na="Sizes of lattices depend on how many dictionary entries match, which no static bound in reach describes; that each loop "
     "ends is decided under N01.")
