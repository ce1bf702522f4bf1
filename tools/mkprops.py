#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One call of P() per property."""
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

P("C01", "Cursor probes return exactly the annotation their definition selects",
  "For every annotation list and every sequence of probes in any order, each probe (first starting at or after k, first ending at or after k, last ending at or before k, last starting at or before k) returns exactly the interval and value that a linear scan of the list would select, or the documented end-of-list sentinel. "
  "The answer never depends on earlier probes on the same cursor, on the distance jumped, or on how the list is held (empty, single, fixed width, plain arrays, cached or compressed posting, or split over several overlapping shards).",
  ["inputs", "histories"], "all minimal-interval lists (adjacent, overlapping, huge gaps, negative and extreme addresses), all probe histories mixing the four access methods and forward/backward jumps",
  "Tests probe a few fixed lists mostly in ascending order; galloping search state, memoised last probe and extreme addresses are a function of the entire probe history.",
  ["src/hopper.h", "src/hopper.cc", "src/array_hopper.cc", "src/array_hopper.h", "gcl/vector_hopper.cc", "src/simple_posting.cc", "src/bits.h"],
  [("galloping/binary search from the current position", "src/array_hopper.cc"), ("memoisation of last probe", "src/hopper.h"), ("merge of shard cursors", "gcl/vector_hopper.cc")],
  ["Hopper::tau/rho/uat/ohr/L/R"], [("current_", "search start left by the previous probe", "src/array_hopper.h")])

P("C02", "Query operators compute the documented interval algebra",
  "For every query built from the documented operators (words, phrases, fixed width, and, or, ordered-before, containing, contained-in and their negations, link) over any content, the solutions enumerated forwards, backwards, by start or by end are exactly the minimal intervals that the operator definitions give on the sets of annotations of the operands, with the left operand's value kept by the containment operators. "
  "The same solutions are reached whatever probe order the caller uses.",
  ["inputs", "programs", "histories"], "all operator trees to a bounded depth over arbitrary annotation lists, all probe sequences",
  "Tests check a handful of hand-written queries over two sonnets; the algebra is quantified over all expressions, all interleavings of intervals and all probe orders.",
  ["gcl/gcl.h", "gcl/gcl.cc", "gcl/parse.cc", "gcl/vector_hopper.cc"],
  [("combinators", "gcl/gcl.cc"), ("SExpression to_hopper and phrase expansion", "gcl/parse.cc")],
  ["Warren::hopper_from_gcl", "gcl::SExpression::to_hopper"])

P("C03", "Query text parses, prints and translates without changing meaning",
  "Every query string either parses or is rejected with an error message, never crashing, hanging or reading outside its input; a query that parses prints to a text that parses back to an expression with the same solutions and prints identically again. "
  "Queries in the infix language translate to s-expressions with the meaning given by the documented operator correspondence and grouping, and malformed infix input is rejected with an error.",
  ["inputs", "programs"], "all byte strings up to a bounded length, all grammar-generated queries in both syntaxes, with random spacing and nesting",
  "Tests parse about a dozen strings; robustness and meaning preservation are claims over all strings.",
  ["gcl/parse.cc", "gcl/parse.h", "gcl/mt.cc", "gcl/mt.h"],
  [("SExpression::from_string / to_string / expand_phrases", "gcl/parse.cc"), ("infix compiler", "gcl/mt.cc")],
  ["gcl::SExpression::from_string", "gcl::SExpression::to_string", "gcl::Mt::infix_expression", "gcl::Mt::s_expression"])

P("C04", "Query optimisation never changes results",
  "For every query and every index content, evaluating with the optimizer enabled yields the same solutions in the same order with the same values, and the same answers to any probe sequence, as evaluating with it disabled. "
  "Requesting materialisation of any subexpression explicitly likewise changes nothing but cost.",
  ["inputs", "programs", "configurations"], "all operator trees (biased to shapes the optimizer rewrites) over all annotation lists, optimizer on and off, materialize nodes inserted anywhere",
  "Tests compare the two modes on a few fixed queries; equivalence is over all expressions and contents.",
  ["gcl/optimizer.cc", "gcl/optimizer.h", "gcl/materialize.cc", "gcl/parse.cc"],
  [("rewrite rules", "gcl/optimizer.cc"), ("eager materialisation", "gcl/materialize.cc")],
  ["Warren::hopper_from_gcl", "gcl::Optimizer::enable/disable"])

P("C05", "Posting lists stay canonical and merge independently of grouping",
  "A posting list built from any batch of tokens or annotations of a feature is exactly the minimal-interval reduction of that batch, and a list that satisfies the ordering invariants reports so while one that does not is reported as invalid. "
  "Merging lists gives the reduction of their union with the latest list's value for an identical interval, minus exactly the annotations contained in an excluded interval, and merging in one step or in any grouping of consecutive steps gives the same list.",
  ["inputs", "histories"], "all batches of annotations with ties, nesting, duplicates, single-address runs; all merge groupings; all exclusion lists",
  "Tests merge a few small constructed lists; canonical form is needed for every merge schedule the background merger may choose.",
  ["src/simple_posting.cc", "src/simple_posting.h"],
  [("posting_from_tokens / posting_from_annotations / posting_from_merge", "src/simple_posting.cc"), ("invariants()", "src/simple_posting.cc")],
  ["SimplePostingFactory", "SimplePosting::get", "SimplePosting::hopper"])

P("C06", "Compression and list serialisation are lossless",
  "Every compressor restores exactly the bytes it was given for every input it accepts, within its declared output bound, and a posting list written to a file or blob reads back equal, followed correctly by whatever was written after it. "
  "This holds for every value range, list shape and list length, including empty, single-element and incompressible data.",
  ["inputs", "configurations"], "all address/value/byte arrays up to bounded size with extreme and adversarial deltas, all compressor combinations, several postings written back to back",
  "Tests round-trip a few arrays; losslessness is over all inputs and the varint/gap code paths depend on value magnitude.",
  ["src/post_compressor.cc", "src/tfdf_compressor.cc", "src/zlib_compressor.cc", "src/null_compressor.h", "src/compressor.h", "src/simple_posting.cc"],
  [("crush/tang", "src/*_compressor.cc"), ("posting write / posting_from_file / posting_from_compressed_blob", "src/simple_posting.cc")],
  ["Compressor::crush/tang", "SimplePosting::write", "SimplePostingFactory::posting_from_file", "cache_entry_from_compressed_blob"])

P("C07", "Tokenisation, skipping and splitting agree on every text",
  "For every text, tokenising yields tokens at consecutive addresses whose offsets and lengths lie inside the text in increasing order, and skipping n tokens lands exactly where token n's text starts, so a range of addresses maps to exactly the characters of those tokens. "
  "Splitting the same text yields the same terms in the same order as the index uses for lookup, letter case folds equally on both paths, and no byte sequence (malformed UTF-8 included) crashes or reads outside the buffer.",
  ["inputs", "configurations"], "all byte strings (ASCII, markup, multi-script Unicode, malformed sequences) for the ASCII, markup-aware and Unicode tokenizers",
  "Tests tokenise a few sentences; alignment of addresses with text is a claim over every byte string.",
  ["src/ascii_tokenizer.cc", "src/utf8_tokenizer.cc", "src/unicode.h", "src/tokenizer.h"],
  [("tokenize_/skip_/split_", "src/ascii_tokenizer.cc, src/utf8_tokenizer.cc")],
  ["Tokenizer::tokenize", "Tokenizer::skip", "Tokenizer::split"])

P("C08", "Feature naming is deterministic, distinguishing and reversible",
  "The same string always maps to the same feature across objects, processes, restarts and featurizers rebuilt from their saved recipe; wrappers map structural or tagged features as documented, and short strings are mapped without collision. "
  "A featurizer that can translate a feature back yields a string that maps to that same feature.",
  ["inputs", "configurations"], "all strings (empty, short, long, binary, numeric literals), all featurizer compositions, dictionary contents",
  "Tests featurize a few words; determinism and invertibility are over all strings and all recipe compositions.",
  ["src/hashing_featurizer.cc", "src/tagging_featurizer.cc", "src/json_featurizer.cc", "src/vocab_featurizer.cc", "src/featurizer.cc", "src/null_featurizer.h"],
  [("featurize_/translate_", "src/hashing_featurizer.cc"), ("recipe of composed featurizers", "src/tagging_featurizer.cc")],
  ["Featurizer::featurize", "Featurizer::translate", "Featurizer::make"])

P("C09", "Index configuration text round-trips; parameters read back as stored",
  "Any set of configuration keys and values, including nested ones, quotes, backslashes and control characters, written in the configuration format reads back as the same set, and any text either parses or is rejected with an error, never crashing. "
  "A parameter stored in an index reads back exactly, now and after reopening, and storing one parameter never changes another or makes the index unreadable.",
  ["inputs", "histories"], "all key/value maps with arbitrary bytes in values and nesting, all sequences of parameter settings, all malformed configuration texts",
  "Tests store two or three simple alphanumeric parameters.",
  ["src/recipe.cc", "src/dna.cc", "src/warren.cc"],
  [("cook/freeze", "src/recipe.cc"), ("set_parameter_in_dna / get_parameter_from_dna / read_dna / write_dna", "src/dna.cc")],
  ["cook", "freeze", "Warren::set_parameter", "Warren::get_parameter"])

P("C10", "JSON stored in an index keeps its structure, values and text",
  "For every JSON document, storing it yields one annotation per object, array, field and element whose extent, path name and numeric, boolean or length value match the document's structure, and translating the stored range gives back JSON equal to the original up to the documented number precision. "
  "Strings cannot forge structure, and unparsable input is rejected with an error leaving the transaction usable or aborted.",
  ["inputs"], "all JSON documents (nesting, empty containers, duplicate-looking keys, Unicode, escapes, big and small numbers) appended in any number per transaction",
  "Tests store a few hand-written documents with plain ASCII strings.",
  ["src/json.cc", "src/json.h", "src/json_txt.cc", "src/scribe.cc", "src/json_featurizer.cc"],
  [("json_scribe / json_encode / json_translate", "src/json.cc"), ("structural markers", "src/json.cc")],
  ["json_scribe", "json_translate", "json_encode", "Txt::translate"])

P("C11", "A static index holds exactly the text and annotations given to it",
  "After building a static index from any sequence of texts and annotations, every token is found at the address range reported when its text was added, translating any address range returns exactly the corresponding text, and every annotation of every feature is returned with its value and no other. "
  "Token and vocabulary counts and per-feature counts match, and everything is the same after close and reopen and for every clone.",
  ["inputs", "configurations"], "all sequences of texts and annotations, all tokenizers, compressors, chunk/block sizes and merge thresholds",
  "Tests build a few small indexes with default settings; storage blocks, add-file merging and compression choices only matter on other shapes.",
  ["src/simple_builder.cc", "src/builder.cc", "src/simple_idx.cc", "src/simple_txt.cc", "src/simple_warren.cc", "src/simple_txt_io.cc"],
  [("SimpleBuilder merge of temporary files", "src/simple_builder.cc"), ("SimpleIdx lookup and cache", "src/simple_idx.cc"), ("SimpleTxt block map and translate", "src/simple_txt.cc")],
  ["SimpleBuilder::add_text/add_annotation/finalize", "Txt::translate", "Idx::hopper", "Idx::count", "Txt::tokens"])

P("C12", "Static index updates are all-or-nothing across reopen and crash",
  "Text appended and annotations added to a static index in a committed transaction are all present when it is next opened, in addition to everything already there, and those of an aborted or failed transaction leave no trace. "
  "A process stopped at any point during a transaction leaves an index that, once recovered, holds either the full state before or the full state after it.",
  ["histories", "crash_points"], "all sequences of append/annotate transactions with commit, abort or abandonment, and a stop at each file-system operation of the transaction",
  "Tests run a few commits and aborts without interruption.",
  ["src/simple_appender.cc", "src/simple_annotator.cc", "src/simple_txt_io.cc", "src/simple_idx.cc", "src/simple_warren.cc"],
  [("ready/commit via .new files and lock files", "src/simple_annotator.cc, src/simple_appender.cc"), ("recover()", "src/simple_appender.cc, src/simple_annotator.cc, src/simple_txt_io.cc")],
  ["Warren::transaction/ready/commit/abort", "SimpleAppender::recover", "SimpleAnnotator::recover", "Warren::make"])

P("C13", "A dynamic index shows exactly the committed transactions, as snapshots",
  "In a dynamic index, a reader sees exactly the text and annotations of the transactions committed before it started reading, unchanged for as long as it keeps reading whatever commits, aborts or merges happen meanwhile, and clones of a reader share its view. "
  "Uncommitted, aborted and failed transactions are never visible in any part, appended text keeps commit-stable addresses, and misuse of the transaction protocol is refused without effect.",
  ["histories", "inputs"], "all interleaved histories of several writers and readers: append, annotate, ready, commit, abort, start, end, clone, reopen, with merging on or off",
  "Tests run a few scripted histories; snapshot stability is a claim over all histories and merge timings.",
  ["src/bigwig.cc", "src/bigwig.h", "src/fiver.cc", "src/owsla.cc", "src/owsla.h", "src/committable.h", "src/fluffle.h"],
  [("shard list snapshot at start", "src/bigwig.cc"), ("address relocation at ready", "src/fiver.cc"), ("shared posting cache", "src/owsla.cc")],
  ["Warren::start/end/clone", "Warren::transaction/ready/commit/abort", "Idx::hopper", "Txt::translate", "Appender::append", "Annotator::annotate"])

P("C14", "Erasing a range hides exactly the annotations inside it, permanently",
  "After a committed erasure of an address range, exactly the annotations lying entirely within one erased range are hidden from every new reader, whichever transaction and feature they belong to, and all others stay visible with their values, for any combination of nested, overlapping and repeated erasures. "
  "Aborted erasures have no effect; erased content stays hidden after merging, conversion and reopening, and physical removal never changes what is visible.",
  ["histories", "inputs"], "all sequences of annotations and erasures (nested, overlapping, partial, spanning shards) with merges and reopens in between",
  "Tests erase one or two disjoint ranges.",
  ["src/bigwig.cc", "src/annotator.cc", "src/simple_posting.cc", "src/fiver.cc", "src/hazel.cc"],
  [("exclusion of null-feature intervals", "src/bigwig.cc"), ("exclusion during merge", "src/simple_posting.cc")],
  ["Annotator::erase", "Idx::hopper", "Fiver::merge", "Hazel::merge"])

P("C15", "Merging and converting shards is invisible to readers",
  "Whatever subset of adjacent shards is merged, converted to the immutable file form or merged again, in any order and grouping, the index returns the same annotations with the same values and the same text for every address range as before, and the same counts where nothing was erased or superseded. "
  "Parallel and chunked variants give the same result, and reading every storage form of the same content gives the same answers.",
  ["histories", "configurations", "schedules"], "all contents spread over shards, all merge groupings and orders, conversion chunk sizes and compressors",
  "Tests merge a couple of fixed shard sequences and spot-check.",
  ["src/fiver.cc", "src/hazel.cc", "src/bigwig.cc", "src/simple_posting.cc"],
  [("Fiver::merge", "src/fiver.cc"), ("Fiver::hazel and Hazel::merge", "src/fiver.cc, src/hazel.cc"), ("merge worker policy", "src/bigwig.cc")],
  ["Fiver::merge", "Fiver::hazel", "Hazel::merge", "Bigwig::merge", "Idx::hopper", "Txt::translate"])

P("C16", "Committed data survives a crash; uncommitted data never appears",
  "If the process stops at any point, reopening the dynamic index yields exactly the transactions whose commit had returned, plus possibly the one in progress if its commit had begun, each whole; background merging interrupted at any point loses nothing and duplicates nothing. "
  "Reopening works from whatever files were left, is itself restartable if interrupted, and further use after recovery behaves normally; this holds in every build configuration.",
  ["crash_points", "histories", "configurations"], "all histories with a stop at each file-system mutation during transaction, commit, merge, conversion and recovery; assertion-enabled and assertion-disabled builds",
  "Tests simulate a few leftover-file situations by hand; crash points number in the dozens per operation.",
  ["src/fiver.cc", "src/bigwig.cc", "src/hazel.cc", "src/working.cc", "src/dna.cc"],
  [("pickle to temporary, link to final name", "src/fiver.cc"), ("recovery at open", "src/bigwig.cc"), ("sanitize", "src/fiver.cc, src/hazel.cc")],
  ["Warren::commit", "Bigwig::make", "Idx::hopper", "Txt::translate"])

P("C17", "A joint commit of several transactions takes effect in all or none",
  "When the open transactions of several clones of a dynamic index are committed together, after the call returns all are visible, and if the process stops at any point, reopening the index shows all of them or none. "
  "Transactions on different indexes committed in one call are all visible when it returns, and leftovers of an interrupted joint commit never affect later transactions.",
  ["crash_points", "histories"], "joint commits over 1 to 4 clones with a stop at each file-system mutation, followed by reopening, itself possibly stopped",
  "Tests commit jointly once without interruption.",
  ["src/warren.cc", "src/bigwig.cc", "src/scribe.cc"],
  [("commit script written before and replayed at reopen", "src/bigwig.cc")],
  ["Warren::commit_all", "Scribe::commit_all", "Bigwig::make"])

P("C18", "An interrupted merge of immutable files resumes to the same result",
  "A merge of immutable index files that is stopped at any point and run again, from whatever partial and checkpoint files were left including ones cut short at any byte, finishes with an index that answers exactly like an uninterrupted merge. "
  "Until the merge completes its sources stay valid, and afterwards stale leftovers are discarded and never used.",
  ["crash_points", "fault_sequences"], "all source contents, stop at each file-system mutation and truncation of each left-over side file at any length, repeated interruptions",
  "Tests truncate at a few hand-chosen sizes.",
  ["src/hazel.cc", "src/bigwig.cc"],
  [("checkpoint side files and repair", "src/hazel.cc"), ("sanitize", "src/hazel.cc")],
  ["Hazel::merge", "Hazel::sanitize", "Hazel::make"])

P("C19", "Damaged or foreign index files are refused, never misread as valid",
  "Opening an immutable index file cut short at any length, or with its magic number, its dictionary or a header field altered, is refused with an error message or serves exactly the right content; "
  "altered directory entries, configuration or payload bytes never lead to reading outside memory, hanging or an unexplained crash. "
  "A saved shard cut inside a record or with its text length altered is refused. A directory or file that is not an index is refused with an error, "
  "a refused open leaves the files as they were, and a dynamic index with a damaged shard, a file misnamed as a shard, or shards overlapping in part is refused and keeps its files. Creating a dynamic index where one exists is refused and changes nothing.",
  ["inputs", "fault_sequences"], "all truncation lengths and byte alterations of header, trailer and directory of immutable index files and of saved shard files; arbitrary junk as configuration",
  "Tests try a few truncations and wrong magic numbers.",
  ["src/hazel.cc", "src/fiver.cc", "src/warren.cc", "src/dna.cc"],
  [("layout and bounds validation at open", "src/hazel.cc"), ("unpickle", "src/fiver.cc")],
  ["Hazel::make", "Warren::make", "Fiver::unpickle"])

P("C20", "Block text storage reads back every byte range ever appended",
  "For any sequence of appends and any read range, compressed block storage returns exactly the bytes a flat string would, including ranges across blocks, past the end and of zero length, during and after a transaction and through clones. "
  "Aborting or recovering a transaction restores exactly the contents before it, committing keeps exactly the contents after it, and reopening changes nothing.",
  ["histories", "inputs", "configurations"], "all append/read/transaction histories with arbitrary sizes around the block size, all compressors and block sizes",
  "Tests append a fixed text in a few sizes.",
  ["src/simple_txt_io.cc", "src/simple_txt_io.h"],
  [("block map and last-block rewrite", "src/simple_txt_io.cc")],
  ["SimpleTxtIO::append/read/transaction/ready/commit/abort/recover/clone"])

P("C21", "Working-directory files read, write, list and vanish as named",
  "Bytes written through a working directory's writer read back exactly through the matching readers, plain files at any offset and size and in any pattern, compressed ones in sequence with any sizes, from several readers at once, with short counts only at end of file. "
  "Listing by prefix returns exactly the matching names, the temporary names one directory object gives never repeat and are cleaned up on the next opening, removed files are gone, nothing outside the directory is touched whatever its name, and loading of text files, plain or compressed, returns their exact contents or an error.",
  ["inputs", "histories"], "all byte contents, access patterns and file names",
  "Tests use one small file and sequential reads.",
  ["src/working.cc", "src/working.h", "src/read_gate.h", "src/builder.cc"],
  [("Reader/Writer implementations", "src/working.cc"), ("temporary and listing", "src/working.cc"), ("gzip-aware loading", "src/builder.cc")],
  ["Working::reader/writer/ls/make_temp/remove", "inhale"])

P("C22", "Concurrent readers, writers and mergers behave as in some serial order",
  "With many threads appending, annotating, erasing, committing, aborting, reading, cloning and merging at once, every reader sees a set of whole transactions that includes every commit finished before it started and excludes every transaction not yet begun to commit, views never shrink, and each view is stable. "
  "There is no data race, deadlock or lost update, and addresses given to different transactions never overlap.",
  ["schedules", "histories"], "all interleavings of up to 8 threads of random transactions and readers with background merging on, under random delays",
  "Tests run one multi-threaded scenario without checking intermediate views.",
  ["src/bigwig.cc", "src/fluffle.h", "src/owsla.cc", "src/owsla.h", "src/cache_gate.h", "src/read_gate.h", "src/fiver.cc", "src/hazel.cc", "src/committable.h"],
  [("lock on shared shard list", "src/bigwig.cc"), ("cache gates", "src/cache_gate.h, src/owsla.h")],
  ["Warren::clone/start/end", "Warren::transaction/ready/commit/abort"])

P("C23", "Evaluation measures equal their published definitions",
  "For every ranking and every set of relevance judgements, each reported effectiveness measure (average precision, reciprocal rank, precision, recall, DCG and normalised DCG at each cutoff, rank-biased precision, time-biased gain, counts, means over topics) and the maximized effectiveness difference of two rankings equals the value its definition gives. "
  "Measures are finite, do not depend on the order of judgement lines, and are unaffected by unjudged documents beyond occupying a rank.",
  ["inputs"], "all rankings and graded judgement sets (empty, all relevant, none relevant, tied grades)",
  "Tests compare one topic's printed output.",
  ["src/eval.cc", "src/eval.h"],
  [("eval / mean / med / load_trec_qrels", "src/eval.cc")],
  ["eval", "med", "mean", "load_trec_qrels", "trec_docno"])

P("C24", "Ranking functions score and order exactly as their formulas state",
  "For every collection and query, passage ranking, tiered Boolean ranking, BM25, language-model and product ranking and rank fusion return exactly the items their published scoring formula selects, in non-increasing score order, cut at the requested depth, without duplicates and each with the container it lies in. "
  "Parallel, batch and pipeline variants return the same items and scores as the serial ones.",
  ["inputs", "configurations", "schedules"], "all small collections, weighted queries, parameter settings, depths and thread counts",
  "Tests check a couple of scores on a tiny fixed collection.",
  ["src/ranking.cc", "src/ranker.cc", "src/ranking.h", "src/parameters.cc"],
  [("ssr_ranking, tiered_ranking, bm25_ranking, lmd_ranking, product_ranking, rrf_fusion", "src/ranking.cc"), ("Ranker pipeline and trec", "src/ranker.cc")],
  ["ssr_ranking", "parallel_ssr", "tiered_ranking", "rrf_fusion", "bm25_ranking", "product_ranking", "Ranker::from_pipeline", "trec"])

P("C25", "Tabular files are ingested field for field",
  "Appending a delimited text file stores one record per line, one annotation per field in order, and a per-file entry, so that enumerating records and fields gives back exactly the fields of the file that hold words, with the header named as requested, for any separator, line ending, thread count, and empty fields or lines; lines are in file order within what one thread stores. "
  "Files already present are recognised, and no others; compressed input equals plain input; and an ingestion that fails, or whose process ends, leaves either all of the file or nothing.",
  ["inputs", "configurations"], "all delimited files (ragged rows, empty fields, header or not, separators, CRLF), thread counts, repeated appends",
  "Tests ingest one small well-formed file.",
  ["meadowlark/meadowlark.cc", "meadowlark/meadowlark.h", "src/core.cc", "src/scribe.cc"],
  [("append_tsv", "meadowlark/meadowlark.cc"), ("split_tsv / split_lines", "src/core.cc")],
  ["append_tsv", "already_appended", "Warren::hopper_from_gcl", "Txt::translate"])

P("C26", "JSON-lines ingestion is all-or-nothing and order preserving",
  "Appending a JSON-lines file stores each line's document once, under the file's name, in file order within what one thread stores and retrievable as equal JSON, for any thread count, and reports success; if any line is malformed or the file cannot be read to its end, the call fails with an error and nothing of the file becomes visible. "
  "A later correct ingestion then succeeds, and other content is untouched.",
  ["inputs", "configurations", "fault_sequences"], "all JSON-lines files with or without malformed, blank and unterminated lines at any position, thread counts",
  "Tests ingest one well-formed file.",
  ["meadowlark/meadowlark.cc", "src/scribe.cc", "src/json.cc"],
  [("append_jsonl joint commit over clones", "meadowlark/meadowlark.cc")],
  ["append_jsonl", "scribe_jsonl", "Warren::hopper_from_gcl", "Txt::translate"])

P("C27", "Computed term statistics equal direct counts over the collection",
  "Term frequencies, document frequencies, document lengths, inverse document frequencies and averages produced by the statistics and foraging tools equal what counting terms in the stored documents directly gives, for every collection, tag and stemming setting. "
  "Statistics read back from the index are those that were stored, and do not depend on the number of threads or shards.",
  ["inputs", "configurations"], "all small collections of documents with repeated, mixed-case and stemmable terms; all tags, thread counts and shard layouts",
  "Tests spot-check two or three terms.",
  ["meadowlark/tf-idf_forager.cc", "meadowlark/tf-idf_stats.cc", "meadowlark/forager.cc", "src/df_stats.cc", "src/idf_stats.cc", "src/field_stats.cc", "src/ranking.cc", "src/tf_hopper.h"],
  [("forage", "meadowlark/tf-idf_forager.cc"), ("tf/df annotation", "src/ranking.cc"), ("Stats implementations", "src/*_stats.cc")],
  ["forage", "tf_df_annotations", "tf_idf_annotations", "Stats::idf/rsj/avgl/tf_hopper"])

P("C28", "Stemming follows the Porter algorithm and is a pure function",
  "For every word, the stemmer returns the stem the Porter algorithm defines for its lower-cased form, flags whether stemming applied, and returns words it does not stem unchanged. "
  "The result does not depend on earlier calls, on other threads, or on how the stemmer was created.",
  ["inputs", "schedules"], "all letter strings up to the length limit and beyond, non-letters, suffix-biased words, concurrent calls",
  "Tests stem a short word list.",
  ["src/porter.cc", "src/porter.h", "src/stemmer.cc", "src/stemmer.h"],
  [("steps 1a to 5", "src/porter.cc")],
  ["Stemmer::stem", "Stemmer::make"])

P("C29", "Forager descriptions survive storage and are validated",
  "Any forager description (name, tag and parameters, the query among them) converts to its stored JSON form and back without change, is found again by querying the index, and malformed or incomplete descriptions are refused with an error. "
  "What a forager counts equals direct counting, and does not depend on how the documents were divided into batches.",
  ["inputs", "histories"], "all descriptions with arbitrary strings and parameter maps, malformed JSON variants, repeated foraging with data added in between",
  "Tests convert two descriptions.",
  ["meadowlark/forager.cc", "meadowlark/forager.h"],
  [("forager2json / json2forager", "meadowlark/forager.cc")],
  ["forager2json", "json2forager", "forage"])

P("C30", "Every storage engine answers the same content identically",
  "The same texts and annotations stored in the static index, in the dynamic index with any split into transactions, in memory, in a saved shard and in an immutable file give, up to the address assigned to each text, the same solutions to every query and the same text. "
  "This holds for one-by-one probing, for clones, and after reopening.",
  ["inputs", "configurations", "programs"], "all contents, splits into transactions and queries; the five storage forms of the index",
  "Each engine is tested separately on its own small fixture.",
  ["src/simple_warren.cc", "src/bigwig.cc", "src/fiver.cc", "src/hazel.cc", "src/warren.cc"],
  [("common Idx/Txt interfaces", "src/idx.h, src/txt.h"), ("dispatch on stored configuration", "src/warren.cc")],
  ["Warren::make", "Warren::hopper_from_gcl", "Txt::translate"])

P("C31", "The command-line tools do what the library operations they name do, or nothing",
  "Run as separate processes on any index, the tools that build (simple, jsonl, meadowlark), convert and merge (fiver2hazel, merge-hazels), compute statistics (tf-df, tf-idf, forage), set parameters (set), list containers (containers) and rank (rank) leave the index, or print the output, that the library operation gives. "
  "A refused or failing command line exits with an error status and a message and leaves the index as it was; files already converted stay readable and the rest untouched.",
  ["inputs", "histories", "faults"], "all indexes and command lines (valid, incomplete, misspelt, naming missing or damaged files), sequences of tools on one index, writes failing at any file size",
  "No test runs a tool.",
  ["apps/fiver2hazel.cc", "apps/merge-hazels.cc", "apps/meadowlark.cc", "apps/forage.cc", "apps/set.cc", "apps/containers.cc", "apps/rank.cc", "apps/jsonl.cc", "apps/simple.cc", "apps/tf-df.cc", "apps/tf-idf.cc"],
  [("main() of each tool", "apps/*.cc")],
  ["fiver2hazel", "merge-hazels", "meadowlark", "forage", "set", "containers", "rank", "jsonl", "simple", "tf-df", "tf-idf"])

P("C32", "The search server answers as the library would, and outlives every client",
  "Served over any burrows, a query's results come one by one, best first and each exactly once, with the document, the burrow and a passage around what matched, until the server says there are no more, whatever other queries, clients and errors come between; a document request returns that document, or says that the name is unknown or ambiguous. "
  "Requests that make no sense are answered with an error, and neither they, nor documents of any bytes, nor clients that leave early end the server.",
  ["inputs", "histories"], "all sequences of requests and clients over all collections: queries, interleaved result lists, documents by name, malformed and mistyped requests, clients that leave before their answers",
  "No test runs the server.",
  ["apps/ssr-server.cc", "src/ranking.cc", "src/eval.cc"],
  [("requests and answers", "apps/ssr-server.cc"), ("parallel_ssr", "src/ranking.cc")],
  ["ssr-server"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out))
