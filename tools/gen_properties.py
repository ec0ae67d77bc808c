import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe_at=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state}]
    if observe_at: a["observe_at"]=[observe_at]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ENC=["encodings/alp/src","encodings/bytebool/src","encodings/datetime-parts/src","encodings/dict/src","encodings/fastlanes/src","encodings/fsst/src","encodings/roaring/src","encodings/runend/src","encodings/runend-bool/src","encodings/zigzag/src","vortex-array/src/array"]
p("A01","Encoding is logically transparent",
 "Encoding a sequence of values with any Vortex encoding and decoding (canonicalising) it again yields the same dtype, the same length, nulls in the same positions and the same values, floats bit for bit. This holds for every encoding in the tree (primitive, bool, varbin, varbinview, null, struct, extension, constant, sparse, chunked, ALP, ALP-RD, bytebool, datetime-parts, dict, bit-packing with and without patches, delta, frame-of-reference, FSST, roaring bool/int, run-end, run-end bool, zigzag) and for encodings nested inside one another.",
 ["inputs","configurations"],"all sequences of nullable values of each supported dtype, all encodings that accept them, all nestings",
 "Tests encode a handful of hand-picked vectors; defects sit at block boundaries (1024), bit widths, exception/patch positions, null patterns and value extremes that a sample does not hit.",
 ENC+["vortex-array/src/canonical.rs"],[("encoders / compress functions","encodings/*/src"),("IntoCanonical implementations","encodings/*/src, vortex-array/src/array/*/")],observe_at="Array::into_canonical and the canonical array's values")
p("A02","Point access agrees with the decoded array",
 "For every encoded array and every index i below its length, scalar_at(i) returns the value at position i of the decoded array, or a null scalar exactly where that position is null, as a scalar of the array's data type (nullability included), and is_valid(i) and logical_validity() agree with it. An index at or beyond the length is rejected with an error.",
 ["inputs","histories"],"all encoded arrays, including those produced by earlier slices, takes and filters, and all indices",
 "Each encoding has its own random-access path (bit offsets, patch lookup, run search, chunk search) that differs from its bulk decoder; tests probe a few indices of a few arrays.",
 ["vortex-array/src/compute/unary/scalar_at.rs","vortex-array/src/validity.rs"]+ENC,[("ScalarAtFn implementations","encodings/*/src/**/compute*.rs"),("ArrayValidity implementations","encodings/*/src")],observe_at="compute::unary::scalar_at, ArrayValidity::is_valid/logical_validity")
p("A03","slice returns exactly the requested range",
 "slice(a, start, stop) on any encoded array has length stop-start, keeps the dtype, and its element k equals element start+k of a in value and nullness; slices of slices compose. Ranges that are out of bounds or reversed are rejected with an error.",
 ["inputs","histories"],"all encoded arrays, all ranges, all nestings of slices",
 "Slicing is implemented per encoding with offsets into blocks, runs, patches and bitmaps; the interesting cases are second and third slices at unaligned offsets.",
 ["vortex-array/src/compute/slice.rs"]+ENC,[("slice dispatcher and bounds check","vortex-array/src/compute/slice.rs"),("SliceFn implementations","encodings/*/src, vortex-array/src/array/*/compute")],observe_at="compute::slice")
p("A04","take returns the elements at the given indices",
 "take(a, indices) on any encoded array has the length of indices, keeps the dtype, and its element k equals element indices[k] of a in value and nullness, for indices of any unsigned or signed integer type, in any order, with repetitions, and for empty index lists.",
 ["inputs","histories"],"all encoded arrays, all in-bounds index lists of any integer type and any encoding",
 "Per-encoding take kernels choose between bulk-decode and per-element strategies from the index pattern; a few test vectors exercise one branch each.",
 ["vortex-array/src/compute/take.rs"]+ENC,[("take dispatcher","vortex-array/src/compute/take.rs"),("TakeFn implementations","encodings/*/src, vortex-array/src/array/*/compute")],observe_at="compute::take")
p("A05","filter keeps exactly the rows whose mask is true",
 "filter(a, mask) on any encoded array keeps, in order, exactly the elements of a at the positions where the mask is true, with the same values and nullness and the same dtype. This holds for masks of any density and for masks that are themselves sliced or encoded bool arrays; a mask of a different length or of a non-bool type is rejected.",
 ["inputs","histories"],"all encoded arrays and all non-null boolean masks of the same length",
 "Kernels switch between index and slice iteration by selectivity and between specialised and canonical paths by encoding; each combination with bit offsets and chunk boundaries is a separate case.",
 ["vortex-array/src/compute/filter.rs","vortex-array/src/array/bool/compute/filter.rs","vortex-array/src/array/chunked/compute/filter.rs","vortex-array/src/array/varbin/compute/filter.rs"]+ENC,[("filter dispatcher","vortex-array/src/compute/filter.rs"),("FilterFn implementations","encodings/*/src, vortex-array/src/array/*/compute")],observe_at="compute::filter")
p("A06","search_sorted finds the insertion point",
 "For a sorted array (no nulls, or nulls last in a sparse array) in any encoding and any value v, search_sorted(a, v, Left) returns the number of elements smaller than v and search_sorted(a, v, Right) the number of elements not greater than v; the result is Found exactly when v occurs in a. The answer does not depend on the encoding of the array.",
 ["inputs","histories"],"all sorted arrays in every encoding, all probe values inside, between, below and above the elements, both sides",
 "Encodings search in their own encoded space (packed words, FoR-shifted values, run ends, patches), so probes that are not representable there or fall on duplicates and patches are the failing ones.",
 ["vortex-array/src/compute/search_sorted.rs","vortex-array/src/array/primitive/compute/search_sorted.rs","vortex-array/src/array/sparse/compute/mod.rs","encodings/fastlanes/src/bitpacking/compute/search_sorted.rs","encodings/fastlanes/src/for/compute.rs","encodings/runend/src/compute.rs","encodings/roaring/src/integer/compute.rs"],[("SearchSorted binary search","vortex-array/src/compute/search_sorted.rs"),("SearchSortedFn implementations","encodings/*/src, vortex-array/src/array/*/compute")],observe_at="compute::search_sorted")
p("A07","compare is element-wise and null-propagating",
 "compare(a, b, op) for op in {Eq, NotEq, Gt, Gte, Lt, Lte} on arrays in any pair of encodings, including a constant operand, yields a bool array of the same length whose element k is null exactly when a[k] or b[k] is null and otherwise the result of comparing a[k] with b[k]. Operands of different lengths or incompatible dtypes are rejected.",
 ["inputs","histories"],"all pairs of equally long arrays of one dtype without NaN or negative zero, all operators, all encoding pairs",
 "Specialised kernels push the comparison into dictionary values, ALP-encoded integers, FSST codes or constants, where rounding and unrepresentable constants break the equivalence only for particular values.",
 ["vortex-array/src/compute/compare.rs","vortex-array/src/array/primitive/compute/compare.rs","vortex-array/src/array/varbin/compute/compare.rs","vortex-array/src/array/constant/compute.rs","vortex-array/src/array/chunked/compute/mod.rs","encodings/alp/src/alp/compute.rs","encodings/dict/src/compute.rs","encodings/fsst/src/compute.rs","encodings/fastlanes/src/for/compute.rs"],[("compare dispatcher","vortex-array/src/compute/compare.rs"),("CompareFn / MaybeCompareFn implementations","vortex-array/src/array/*/compute, encodings/*/src")],observe_at="compute::compare")
p("A08","Boolean operators follow their truth table",
 "and(a, b) and or(a, b) on bool arrays in any pair of encodings are element-wise: where both inputs are non-null the result is the conjunction or disjunction, and where an input is null the result is null. invert() of a bool array negates every non-null element.",
 ["inputs","histories"],"all pairs of equally long bool arrays with nulls, all encoding pairs including constants",
 "Dispatch picks the left kernel, the right kernel or a canonical fallback depending on the encodings; null handling differs between them.",
 ["vortex-array/src/compute/boolean.rs","vortex-array/src/array/bool/compute/boolean.rs","vortex-array/src/array/constant/compute.rs","vortex-array/src/array/bool/mod.rs","encodings/runend-bool/src/array.rs","encodings/roaring/src/boolean/mod.rs"],[("and/or dispatchers","vortex-array/src/compute/boolean.rs"),("AndFn/OrFn implementations and BoolArrayTrait::invert","vortex-array/src/array/*/compute")],observe_at="compute::and, compute::or, BoolArrayTrait::invert")
p("A09","A reported statistic is true of the data",
 "Whenever an array reports a statistic (computed, cached, inherited through an operation or read back from a serialised array), it is true of the array's logical values: min and max bound the non-null values and are attained, null_count and true_count are exact, is_constant / is_sorted / is_strict_sorted never claim what does not hold. A statistic may be absent, but never wrong, and computing it never changes the data.",
 ["inputs","histories"],"all encoded arrays, all statistics, after any sequence of operations and serialisation round trips",
 "Statistics are cached, propagated by slice/take/compress/chunk merge and stored in files; stale or wrongly propagated entries only show when a later operation trusts them.",
 ["vortex-array/src/stats","vortex-array/src/array/primitive/stats.rs","vortex-array/src/array/bool/stats.rs","vortex-array/src/array/varbin/stats.rs","vortex-array/src/array/chunked/stats.rs","vortex-array/src/array/constant","encodings/dict/src/stats.rs","encodings/roaring/src/boolean/stats.rs","encodings/bytebool/src/stats.rs","vortex-array/src/view.rs","vortex-array/src/data.rs"],[("Statistics::compute/get caches","vortex-array/src/data.rs, vortex-array/src/view.rs"),("ArrayStatisticsCompute implementations","vortex-array/src/array/*/stats.rs, encodings/*/src")],state="per-array StatsSet cache",observe_at="Array::statistics().compute/get")
p("A10","Merging statistics of parts is sound for the whole",
 "If statistics sets A and B are true of two sequences, then A.merge(B) is true of their concatenation: min and max are those of both, counts add up, frequency vectors add element-wise, run_count is an upper bound on the number of runs, and a sortedness or constancy claim survives only if it holds across the boundary. A value of a statistic that holds for only one of the parts is never kept for the whole.",
 ["inputs","histories"],"all pairs (and sequences) of statistics sets, with any subset of statistics present, over all pairs of sequences",
 "The merge rules are a table of cases over presence and values of ten statistics; tests cover single statistics in isolation, not their interaction (sortedness depends on min and max that another rule may drop).",
 ["vortex-array/src/stats/statsset.rs","vortex-array/src/array/chunked/stats.rs"],[("StatsSet::merge","vortex-array/src/stats/statsset.rs"),("ChunkedArray statistics","vortex-array/src/array/chunked/stats.rs")],state="StatsSet",observe_at="StatsSet::merge, ChunkedArray::statistics")
p("A11","cast, fill_forward and subtract_scalar are element-wise",
 "try_cast between integer types, and of integers to floats that represent them exactly, keeps every value that the target type can represent, keeps nulls and fails rather than produce a different value; fill_forward replaces each null by the closest preceding non-null value and keeps non-null elements (an array of nulls becomes all default values, no nulls remain); subtract_scalar(a, c) yields a[k]-c for non-null elements and null for null elements. Each keeps the length and gives the same answer in every encoding; an encoding without the operation declines it with a not-implemented error.",
 ["inputs"],"all numeric arrays with nulls, all target types, all constants whose result is representable, all encodings",
 "Kernels are per encoding and per ptype with shortcuts on cached min/max and on the reference value; wrong answers need particular value ranges and null patterns.",
 ["vortex-array/src/compute/unary","vortex-array/src/array/primitive/compute/cast.rs","vortex-array/src/array/primitive/compute/fill.rs","vortex-array/src/array/bool/compute/fill.rs","vortex-array/src/array/primitive/compute/subtract_scalar.rs","vortex-array/src/array/chunked","encodings/fastlanes/src"],[("try_cast / fill_forward / subtract_scalar dispatchers","vortex-array/src/compute/unary")],observe_at="compute::unary::{try_cast, fill_forward, subtract_scalar}")
p("A12","Chunk boundaries are invisible",
 "A chunked array behaves as the concatenation of its chunks for every operation, however the rows are split and including empty chunks. rechunk(bytes, rows) keeps all rows in order and respects the row limit whenever it combines chunks; array iterators and streams yield the rows in order exactly once.",
 ["inputs","histories","configurations"],"all splits of all arrays into chunks, all rechunk targets, all operations",
 "The number of ways to split is exponential and the chunk search and per-chunk filters/takes fail only at boundaries, empty chunks and indices that revisit chunks.",
 ["vortex-array/src/array/chunked","vortex-array/src/iter","vortex-array/src/stream"],[("find_chunk_idx, rechunk, swizzle/pack","vortex-array/src/array/chunked/mod.rs, canonical.rs"),("chunked compute","vortex-array/src/array/chunked/compute")],observe_at="ChunkedArray operations, rechunk, array_iterator, array_stream")
p("A13","Arrow conversion preserves values and nulls",
 "Converting an Arrow array or record batch to Vortex and back yields an equal Arrow value: same length, nulls and values for every supported type, including sliced Arrow inputs with bit and value offsets. Converting any Vortex array to Arrow yields its logical contents in the Arrow type that corresponds to its Vortex type, the type of an imported array is the type of its Arrow field, a scalar becomes the Arrow scalar of the same value and type, and an array that a record batch cannot represent (null rows) is refused. An array made from Arrow offsets or null buffers claims no statistic that is untrue.",
 ["inputs"],"all Arrow arrays of supported types at any offset, with and without validity bitmaps; all Vortex encodings on the way out",
 "Zero-copy conversion depends on buffer offsets, validity bitmap offsets and view buffers; tests convert unsliced arrays.",
 ["vortex-array/src/arrow","vortex-array/src/canonical.rs","vortex-array/src/array/varbin/arrow.rs","vortex-datetime-dtype/src/arrow.rs"],[("FromArrowArray, Canonical::into_arrow","vortex-array/src/arrow/array.rs, vortex-array/src/canonical.rs")],observe_at="Array::from_arrow, into_canonical().into_arrow(), RecordBatch conversions")
p("A14","Compression never changes data",
 "SamplingCompressor::compress(a) with any set of compressors, with or without a compression tree learnt from other data of any type, returns an array with the same dtype, length, nulls and values as a. Reusing a tree from an earlier chunk (chunked arrays, compress-like) never makes it fail or alter values.",
 ["inputs","histories","configurations"],"all arrays, compressor subsets and sequences of chunks whose later chunks differ from the earlier ones",
 "The encoding chosen depends on samples and on earlier chunks; the risky case is data outside the sample or chunk that determined the parameters (bit width, reference, exponents, symbol table).",
 ["vortex-sampling-compressor/src"]+ENC[:2]+["encodings/fastlanes/src/bitpacking/compress.rs","encodings/fastlanes/src/for/compress.rs"],[("SamplingCompressor::compress and CompressionTree reuse","vortex-sampling-compressor/src/lib.rs, compressors/")],state="CompressionTree carried from chunk to chunk",observe_at="SamplingCompressor::compress result, canonicalised")
p("A15","Any history of operations equals the same history on plain values",
 "Applying any sequence of slice, take, filter, canonicalise, re-encode, re-chunk and serialise steps to an encoded array gives the same logical array as applying the sequence to the plain list of values. Arrays are immutable: no operation changes the contents observed through an earlier handle.",
 ["histories"],"all finite sequences of operations over all encodings",
 "Individually tested operations interact through offsets, cached statistics and lazily kept patches; only sequences of several operations show it.",
 ["vortex-array/src/compute","vortex-array/src/array"]+ENC[:3],[("all compute kernels","vortex-array/src/compute, encodings/*/src")],state="register file of live arrays",observe_at="canonical contents of every live array after every step")
p("M01","Concurrent readers see the sequential result",
 "When several threads use the same array at once (computing statistics, slicing, taking, decoding, reading scalars), every call returns what it returns single-threaded, and no statistic observed by any thread is ever wrong or changes its value once reported.",
 ["schedules"],"all interleavings of read-only operations by several threads on shared arrays",
 "The statistics cache is filled lazily behind a lock while other threads read it; tests are single-threaded.",
 ["vortex-array/src/data.rs","vortex-array/src/stats"],[("ArrayData::stats_map lock","vortex-array/src/data.rs")],state="shared lazily filled statistics cache",observe_at="results of operations in each thread")
p("S01","An IPC stream returns the arrays that were written",
 "Writing any sequence of arrays (dtype, then array chunks) to a Vortex IPC stream and reading it back yields the same dtypes, chunk boundaries and contents in order, for every encoding, and whatever the sizes of the pieces in which the transport delivers the bytes. Arrays read back support all operations with the same results as the originals.",
 ["inputs","schedules"],"all sequences of arrays in all encodings, all fragmentations of the byte stream",
 "Readers buffer partial messages; correctness depends on where the transport splits the bytes and on buffer padding and alignment, which tests with whole in-memory buffers never vary.",
 ["vortex-serde/src/messages","vortex-serde/src/message_reader.rs","vortex-serde/src/message_writer.rs","vortex-serde/src/stream_reader","vortex-serde/src/stream_writer","vortex-serde/src/io","vortex-array/src/view.rs"],[("MessageReader / MessageWriter","vortex-serde/src/messages"),("StreamArrayReader / StreamArrayWriter","vortex-serde/src/stream_reader, stream_writer"),("ArrayView","vortex-array/src/view.rs")],state="message reader buffer and peeked message",observe_at="arrays yielded by StreamArrayReader")
p("S02","A truncated or failing IPC stream never yields wrong data",
 "If an IPC byte stream is cut at any point, or the transport returns an error at any read, the reader delivers a prefix of the written chunks with exact contents and then ends or reports an error; it never yields an altered or invented chunk, panics or hangs.",
 ["crash_points","fault_sequences"],"every truncation offset and every failing read of streams of arrays",
 "A truncation test at one offset says nothing about the others: length prefix, message body, buffers and padding each have their own failure path.",
 ["vortex-serde/src/messages","vortex-serde/src/message_reader.rs","vortex-serde/src/stream_reader","vortex-serde/src/io"],[("MessageReader::load_next_message / next_raw / read_buffers","vortex-serde/src")],state="message reader state after a short read",observe_at="items yielded by StreamArrayReader until end or error")
p("S03","Random row access returns the requested rows",
 "Taking rows by a sorted list of distinct row indices from a chunked stored array (ChunkedArrayReader::take_rows and take_rows on an array stream) returns exactly the rows at those indices, in order, whatever the chunking of the stored array and however the indices fall on chunk boundaries.",
 ["inputs"],"all chunkings of stored arrays and all strictly increasing index lists",
 "Correctness hinges on mapping row numbers to chunks and byte ranges at boundaries and in empty or skipped chunks; tests use one layout and a few indices.",
 ["vortex-serde/src/chunked_reader","vortex-array/src/stream/take_rows.rs"],[("ChunkedArrayReader::take_rows","vortex-serde/src/chunked_reader/take_rows.rs"),("TakeRows stream","vortex-array/src/stream/take_rows.rs")],observe_at="arrays returned by take_rows")
p("F01","A Vortex file returns the rows that were written",
 "Writing struct arrays (without null rows) to a Vortex file in any chunking and reading the file back returns the written rows in order, exactly once, with the declared dtype, row count and column names. This holds for every non-empty projection (subset and order of columns), every batch size, every input chunking and any encodings or compression of the columns.",
 ["inputs","configurations","histories"],"all tables, chunkings, encodings, projections and batch sizes",
 "The reader reassembles rows from per-column chunks with its own batch boundaries; the product of chunk sizes, batch sizes and projections is far beyond sampled tests.",
 ["vortex-serde/src/layouts"],[("LayoutWriter","vortex-serde/src/layouts/write"),("LayoutBatchStream, ColumnLayout/ChunkedLayout/FlatLayout readers, BufferedReader","vortex-serde/src/layouts/read")],state="LayoutBatchStream state machine, message cache, buffered rows",observe_at="batches yielded by LayoutBatchStream")
p("F02","A filtered file scan returns exactly the matching rows",
 "Reading a Vortex file with a row filter returns, in file order, exactly the rows for which the filter expression evaluates to true (not false, not null), projected to the requested columns, whether or not the filter columns are among them. The result is the same for every batch size and chunking, including batches in which no row or every row matches.",
 ["inputs","configurations","histories"],"all tables, filters over comparisons and and/or, projections, batch sizes and chunkings",
 "The filter reader and the data reader advance separately and must stay in step across all-false, all-true and mixed batches; tests use single patterns.",
 ["vortex-serde/src/layouts/read/stream.rs","vortex-serde/src/layouts/read/filtering.rs","vortex-serde/src/layouts/read/batch.rs","vortex-serde/src/layouts/read/buffered.rs","vortex-expr/src"],[("LayoutBatchStream filter/data phases","vortex-serde/src/layouts/read/stream.rs"),("RowFilter","vortex-serde/src/layouts/read/filtering.rs")],state="filter state machine",observe_at="batches yielded by LayoutBatchStream")
p("F03","A damaged or incomplete file is rejected",
 "Opening a file that was cut off at any byte (a crash during writing), that has extra bytes appended, or whose magic or version is damaged, reports an error; it never panics, hangs or returns rows as if the file were complete. Damage to the offsets in the postscript is reported as an error unless the rows read are still exactly the written ones. The bytes that were written before the footer are never presented as a finished file.",
 ["crash_points","fault_sequences"],"every truncation offset, appended suffixes and damage in the end-of-file marker",
 "Only an exhaustive sweep over cut points shows that no prefix of a file is mistaken for a file; tests read complete files.",
 ["vortex-serde/src/layouts/read/footer.rs","vortex-serde/src/layouts/read/builder.rs","vortex-serde/src/layouts/write/footer.rs","vortex-serde/src/layouts/write/writer.rs"],[("LayoutDescriptorReader::read_footer","vortex-serde/src/layouts/read/footer.rs"),("Footer, Postscript, EOF magic","vortex-serde/src/layouts/write")],observe_at="LayoutReaderBuilder::build and the batches of the resulting stream")
p("F04","File scans do not depend on I/O timing and surface I/O errors",
 "The rows returned by a file scan are the same for every completion order and delay of the underlying reads and every polling pattern of the consumer. If a read fails or returns too few bytes, the scan reports an error after a correct prefix of batches; it does not panic, hang, skip or repeat rows.",
 ["schedules","fault_sequences"],"all completion orders and delays of concurrent range reads, all failing reads",
 "In-memory readers complete at once and in order; reordering and failures of individual reads never occur in the tests.",
 ["vortex-serde/src/layouts/read/stream.rs","vortex-serde/src/layouts/read/cache.rs","vortex-serde/src/io"],[("LayoutBatchStream::poll_next, buffered reads","vortex-serde/src/layouts/read/stream.rs"),("LayoutMessageCache","vortex-serde/src/layouts/read/cache.rs"),("VortexReadAt implementations","vortex-serde/src/io")],state="in-flight reads, message cache",observe_at="batches yielded by LayoutBatchStream under a scripted VortexReadAt")
p("E01","Expressions evaluate to their meaning",
 "Evaluating an expression tree (columns by name or index, literals, the six comparisons, and, or) on a struct array gives the element-wise result on its columns, with nulls propagated. A RowFilter built from an expression evaluates to the same selected rows as the expression, in whatever order its conjuncts are split or reordered. An expression names exactly the columns it reads, two expressions are equal exactly if their trees are, and selecting (or excluding) columns keeps exactly the named (other) ones.",
 ["inputs","configurations"],"all expression trees over all tables with nulls, all encodings of the columns",
 "The space of trees, column encodings and null patterns is unbounded; conjunct splitting and constant operands only matter for particular shapes.",
 ["vortex-expr/src","vortex-serde/src/layouts/read/filtering.rs"],[("VortexExpr::evaluate, references, eq","vortex-expr/src"),("Select","vortex-expr/src/select.rs"),("split_conjunction / RowFilter::evaluate","vortex-expr/src, vortex-serde/src/layouts/read/filtering.rs")],observe_at="VortexExpr::evaluate, RowFilter::evaluate")
p("T01","Types and scalars survive serialisation",
 "Every dtype (including nested structs, lists, extensions with metadata, and both nullabilities) and every scalar survives the flatbuffer, protobuf, flexbuffer and JSON encodings unchanged, with numbers of the width the type asks for (the integer width inside an extension type of unknown storage is not part of the value). Projecting a struct dtype or a struct scalar selects exactly the named fields in the given order, projecting a serialised struct dtype equals projecting the dtype, and a field that does not exist is an error. Scalars of different types are never equal nor ordered, scalars of one type are ordered like their values with nulls last, and casting a scalar gives the same value in the target type or an error.",
 ["inputs"],"all dtypes up to a nesting depth, all scalar values of all types",
 "The set of nested types is unbounded and the three encodings are written by hand per variant; tests check single examples.",
 ["vortex-dtype/src/serde","vortex-scalar/src/serde","vortex-dtype/src/dtype.rs","vortex-dtype/src/ptype.rs","vortex-scalar/src"],[("dtype flatbuffers/proto/serde","vortex-dtype/src/serde"),("scalar flatbuffers/proto/serde","vortex-scalar/src/serde")],observe_at="deserialise(serialise(x))")
p("D01","DataFusion queries over Vortex tables give SQL results",
 "A query with a projection and a WHERE clause over an in-memory or on-disk Vortex table returns the same rows as the same query over the equivalent Arrow table, with filter pushdown enabled or disabled, for any chunking. Row counts and column statistics given to the planner are exact where they are declared exact.",
 ["inputs","configurations"],"all tables with nulls, chunkings, projections and filters over comparisons and and/or",
 "Pushdown replaces the engine's filter by Vortex kernels (declared exact), so any difference in null or boundary semantics becomes a wrong query answer that no residual filter corrects.",
 ["vortex-datafusion/src"],[("VortexMemTable::scan, supports_filters_pushdown, RowSelectorExec, TakeRowsExec","vortex-datafusion/src/memory.rs, plans.rs"),("file format opener and execution","vortex-datafusion/src/persistent"),("chunked_array_df_stats","vortex-datafusion/src/statistics.rs")],observe_at="collected record batches of a query")
import os;open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
