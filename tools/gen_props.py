#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Integer compression is lossless",
 "Compressing any integer array with bit-packing (with or without exceptions), frame-of-reference, zig-zag or delta encoding, at every width, sign and nullability, and then decompressing it gives back the same length, type, null positions and non-null values. This holds for every bit width the encoder accepts, including values that do not fit the packed width and lengths that do not fill the last block.",
 ["inputs"],"all integer arrays (u8..u64, i8..i64), all lengths including 0, 1023..1025, all null patterns, all accepted bit widths and values up to the type limits",
 "unit tests round-trip a handful of short hand-picked vectors; the claim is over every value, width, exception position and block remainder",
 ["encodings/fastlanes/src/bitpacking/compress.rs","encodings/fastlanes/src/bitpacking/mod.rs","encodings/fastlanes/src/for/compress.rs","encodings/fastlanes/src/delta/compress.rs","encodings/zigzag/src/compress.rs"],
 [("1024-value block packing with an exceptions array merged back on decode","encodings/fastlanes/src/bitpacking/compress.rs: bitpack_encode, bitpack_primitive, gather_patches, unpack, unpack_primitive"),
  ("bit width cost model and exception counting","encodings/fastlanes/src/bitpacking/compress.rs: best_bit_width, count_exceptions, min_patchless_bit_width"),
  ("wrapping subtract-min and shift, inverse on decode","encodings/fastlanes/src/for/compress.rs: for_compress, decompress"),
  ("block-wise delta plus scalar remainder","encodings/fastlanes/src/delta/compress.rs"),
  ("zig-zag map","encodings/zigzag/src/compress.rs")],
 observe=["into_canonical() of the encoded array","scalar_at on the encoded array"])

p("P02","Float compression is bit-exact",
 "Compressing any floating-point array with the adaptive lossless (decimal) encoding or its real-doubles variant and decompressing it gives back every non-null value bit for bit, including negative zero, infinities, NaN payloads and subnormals, with the same length, type and null positions.",
 ["inputs"],"all f32/f64 arrays of every length and null pattern, every bit pattern, every exponent pair or cut point the encoder may pick",
 "tests use a few decimal-looking values; the claim covers all 2^64 bit patterns and every exception position",
 ["encodings/alp/src/alp/mod.rs","encodings/alp/src/alp/compress.rs","encodings/alp/src/alp_rd/mod.rs","encodings/alp/src/alp_rd/array.rs"],
 [("encode, decode back, compare, and store mismatches as exceptions","encodings/alp/src/alp/mod.rs: encode, encode_chunk_unchecked"),
  ("exceptions merged on decode","encodings/alp/src/alp/compress.rs: decompress"),
  ("bit split at the cut point with a small dictionary for the left part and exceptions outside it","encodings/alp/src/alp_rd/mod.rs: split, alp_rd_decode")])

p("P03","Run, dictionary, bitmap, sparse and constant encodings are lossless",
 "Encoding an array as runs, as dictionary codes, as boolean runs, as compressed bitmaps, as bytes, as exceptions over a fill value, or as a repeated constant and then decoding it gives back the same length, type, null positions and values. Encoders that only accept restricted inputs reject the others instead of changing them.",
 ["inputs"],"all primitive, boolean and string arrays over every run structure, null pattern and length (including empty), and every valid set of codes, run ends or exception positions",
 "tests cover a few run shapes without nulls; the claim is over all run structures and null patterns",
 ["encodings/runend/src/compress.rs","encodings/runend/src/runend.rs","encodings/runend-bool/src/compress.rs","encodings/runend-bool/src/array.rs","encodings/dict/src/compress.rs","encodings/dict/src/dict.rs","encodings/roaring/src","encodings/bytebool/src/array.rs","vortex-array/src/array/sparse","vortex-array/src/array/constant"],
 [("run splitting and expansion with trimming to the visible window","encodings/runend/src/compress.rs: runend_encode_primitive, runend_decode_primitive"),
  ("alternating boolean runs","encodings/runend-bool/src/compress.rs"),
  ("hash-consed value dictionary, code 0 reserved for null","encodings/dict/src/compress.rs"),
  ("fill value overwritten at exception positions","vortex-array/src/array/sparse/canonical.rs")])

p("P04","String and binary storage is lossless",
 "Storing strings or byte strings in offset form, in view form (inlined or out of line), as dictionary codes or with symbol-table compression, and converting between these forms, gives back exactly the same bytes for every element, the same type and the same null positions.",
 ["inputs"],"all sequences of optional byte strings/UTF-8 strings: empty strings, lengths around the inline limit of 12 bytes, repeated, incompressible, long; all null patterns",
 "tests hold a few short ASCII strings; the claim is over all byte contents, lengths and null placements",
 ["vortex-array/src/array/varbin","vortex-array/src/array/varbinview","encodings/fsst/src","encodings/dict/src/compress.rs"],
 [("monotone offsets into one byte buffer","vortex-array/src/array/varbin/builder.rs, vortex-array/src/array/varbin/mod.rs"),
  ("inline-or-reference views","vortex-array/src/array/varbinview/mod.rs"),
  ("trained symbol table, codes in offset form","encodings/fsst/src/compress.rs, encodings/fsst/src/canonical.rs")])

p("P05","Splitting timestamps into parts is lossless",
 "Splitting timestamps of any resolution into day, second and sub-second parts and joining them again gives back exactly the original instants, type, time zone and null positions, for instants before and after the epoch; reading one element of the split form gives the same instant as reading it from the original.",
 ["inputs"],"all i64 instants, all four resolutions, all time zones, all null patterns",
 "tests use a few positive timestamps; the claim covers the whole 64-bit range including negative instants",
 ["encodings/datetime-parts/src/compress.rs","encodings/datetime-parts/src/compute.rs","encodings/datetime-parts/src/array.rs","vortex-datetime-dtype/src/temporal.rs","vortex-datetime-dtype/src/unit.rs"],
 [("truncated division into parts and multiply-add back","encodings/datetime-parts/src/compress.rs: split_temporal; compute.rs: decode_to_temporal, scalar_at"),
  ("unit and zone stored as extension metadata bytes","vortex-datetime-dtype/src/temporal.rs")])

p("P06","Automatic compression never changes the data",
 "Whatever encodings the automatic compressor chooses, for a whole table, a chunked column or by imitating a previously chosen encoding tree, the result has the same length, type, nulls and values as the input, and the sample the choice procedure draws consists of in-range slices that do not overlap. Sampling uses the default sampling options.",
 ["inputs","configurations"],"all arrays and nested tables, every subset of enabled encodings, every sampling seed, and reuse of any earlier compression tree on later chunks",
 "one smoke test compresses a fixed table and checks only type and a few encodings; the choice depends on the data and the sample",
 ["vortex-sampling-compressor/src/lib.rs","vortex-sampling-compressor/src/sampling.rs","vortex-sampling-compressor/src/compressors"],
 [("candidate enumeration, sampling and recursive compression","vortex-sampling-compressor/src/lib.rs: compress, compress_array, find_best_compression"),
  ("stratified non-overlapping sample slices","vortex-sampling-compressor/src/sampling.rs"),
  ("imitation of an earlier tree chunk by chunk","vortex-sampling-compressor/src/compressors/chunked.rs")])

p("P07","Slicing commutes with decoding",
 "Taking the sub-range [start, stop) of an array in any encoding, including a slice of a slice, and decoding it gives exactly the elements start..stop of the decoded array, with their nulls; an out-of-range or reversed range is rejected.",
 ["inputs"],"all encodings, all contents, all 0 <= start <= stop <= len, and nested slices",
 "tests slice a few arrays at one or two positions; the offset arithmetic has corner cases at block, byte and run boundaries",
 ["vortex-array/src/compute/slice.rs","vortex-array/src/array","encodings/fastlanes/src/bitpacking/compute/slice.rs","encodings/fastlanes/src/delta/compute.rs","encodings/runend/src/compute.rs","encodings/runend-bool/src/compute.rs","encodings/alp/src"],
 [("bounds check then encoding-specific slice","vortex-array/src/compute/slice.rs"),
  ("block offset plus in-block offset","encodings/fastlanes/src/bitpacking/compute/slice.rs, encodings/fastlanes/src/delta/compute.rs"),
  ("physical run search plus logical offset","encodings/runend/src/compute.rs, encodings/runend-bool/src/compute.rs"),
  ("bit offset within a byte","vortex-array/src/array/bool/compute/slice.rs")])

p("P08","Taking by index commutes with decoding",
 "Gathering any list of in-range positions (repeated, unsorted, or empty) from an array in any encoding and decoding gives, position by position, the same value or null as gathering from the decoded array.",
 ["inputs"],"all encodings, all contents and null patterns, all index lists (sorted, repeated, reversed, empty, dense enough to switch to the bulk path)",
 "tests take a few indices; the code switches algorithms on index density, sortedness and exception presence",
 ["vortex-array/src/compute/take.rs","vortex-array/src/array","encodings/fastlanes/src/bitpacking/compute/take.rs","encodings/runend/src/compute.rs","encodings/dict/src/compute.rs","vortex-array/src/array/chunked/compute/take.rs","vortex-array/src/array/sparse/compute/take.rs"],
 [("per-encoding take with gathered validity","vortex-array/src/array/*/compute/take.rs"),
  ("block-batched unpack with exception overlay","encodings/fastlanes/src/bitpacking/compute/take.rs"),
  ("group indices by chunk","vortex-array/src/array/chunked/compute/take.rs")])

p("P09","Filtering commutes with decoding",
 "Filtering an array in any encoding by a boolean mask of the same length keeps exactly the elements whose mask is true, in order, with their nulls; it gives the same result whether the mask is stored as bits, runs, a constant, a slice of a larger mask or in chunks, and a mask of another length is rejected.",
 ["inputs"],"all encodings, contents and masks (sparse, dense, all true, all false, sliced at any bit offset)",
 "tests filter a few short arrays with byte-aligned masks; slices-versus-indices selection and offsets are only reached by particular masks",
 ["vortex-array/src/compute/filter.rs","vortex-array/src/array/chunked/compute/filter.rs","vortex-array/src/array/varbin/compute/filter.rs","vortex-array/src/array/bool","vortex-array/src/array/sparse/compute/mod.rs"],
 [("selectivity-based choice between index and range iteration","vortex-array/src/array/primitive/compute/filter.rs, vortex-array/src/array/chunked/compute/filter.rs"),
  ("mask iteration by set indices or set ranges","vortex-array/src/array/bool/mod.rs")])

p("P10","Reading one element agrees with decoding the array",
 "Reading the element at any in-range position of an array in any encoding gives the same value, or null exactly where the decoded array is null, with the array's type; an out-of-range position is rejected.",
 ["inputs"],"all encodings, contents, null patterns and positions",
 "tests read a few positions; exception, run-boundary and chunk-boundary positions need specific data",
 ["vortex-array/src/compute/unary/scalar_at.rs","vortex-array/src/array","encodings"],
 [("bounds and null check then encoding-specific point lookup","vortex-array/src/compute/unary/scalar_at.rs"),
  ("run search, block-local unpack, chunk search","encodings/runend/src/runend.rs: find_physical_index; encodings/fastlanes/src/bitpacking/compress.rs: unpack_single; vortex-array/src/array/chunked/mod.rs: find_chunk_idx")])

p("P11","Sorted search returns the right insertion point",
 "Searching a sorted array, in any encoding that supports it, for any value of its type returns the leftmost (or rightmost) insertion point that keeps it sorted, reports found exactly when the value occurs, and agrees with searching the decoded values; this holds for values outside the stored range or not representable in the encoded form.",
 ["inputs"],"all sorted sequences with duplicates and any length, all search values (present, absent, below, above, unrepresentable), both sides, all encodings",
 "tests search a few values; off-by-one at duplicates, block and exception boundaries and unrepresentable values are not enumerated",
 ["vortex-array/src/compute/search_sorted.rs","vortex-array/src/array/primitive/compute/search_sorted.rs","vortex-array/src/array/sparse/compute/mod.rs","encodings/fastlanes/src/bitpacking/compute/search_sorted.rs","encodings/fastlanes/src/for/compute.rs"],
 [("generic binary search with side refinement","vortex-array/src/compute/search_sorted.rs"),
  ("search in packed values plus exceptions","encodings/fastlanes/src/bitpacking/compute/search_sorted.rs"),
  ("map the search value into the encoded domain","encodings/fastlanes/src/for/compute.rs")])

p("P12","Comparisons and boolean operations are element-wise",
 "Comparing an array with another array or with a constant, in any encoding, and combining boolean arrays with and/or, gives at every position the result of the operation on the two elements, null where an operand is null (for and/or: as documented for the plain and the three-valued forms); the answer does not depend on how either operand is encoded.",
 ["inputs"],"all operand values including type limits, NaN and signed zero where defined, all null patterns, all six comparison operators, all encodings, constants representable or not in the encoded form",
 "tests compare a few values; each encoding has its own shortcut for constants that is only wrong for particular constants",
 ["vortex-array/src/compute/compare.rs","vortex-array/src/compute/boolean.rs","vortex-array/src/array/primitive/compute/compare.rs","vortex-array/src/array/constant/compute","encodings/alp/src/alp/compute.rs","vortex-array/src/array/chunked/compute/compare.rs"],
 [("dispatch on constants with operand swap","vortex-array/src/compute/compare.rs"),
  ("constant pushed into encoded domain","encodings/alp/src/alp/compute.rs"),
  ("operator swap and inverse tables","vortex-expr/src/operators.rs, vortex-array/src/compute/compare.rs")])

p("P13","Null information is consistent across every view of an array",
 "For an array in any encoding, whether an element is null is answered the same way by asking about that position, by the array's whole null mask, by decoding the array, and by the reported number of nulls; a non-nullable array reports no nulls. Slicing, gathering or filtering null information yields the null information of the sliced, gathered or filtered array.",
 ["inputs"],"all encodings, nullability settings and null patterns including all-null, none-null and empty",
 "tests check one view at a time; agreement between the views over all patterns is not tested",
 ["vortex-array/src/validity.rs","vortex-array/src/array","encodings"],
 [("shared validity representation with slice/take/filter","vortex-array/src/validity.rs"),
  ("per-encoding is-valid and logical mask","vortex-array/src/array/*, encodings/*")])

p("P14","Reported statistics are true of the data",
 "Every statistic an array reports (minimum, maximum, null count, true count, sortedness, strict sortedness, constancy, run count), whether computed, inherited through slicing or compression, or merged across chunks, is true of the array's elements; a statistic that is not known is absent rather than wrong. Minimum, maximum and sortedness are about the non-null values; strict sortedness is only claimed for arrays without nulls, a run count merged across chunks is an upper bound, and arrays with NaN are exempt.",
 ["inputs","histories"],"all arrays and encodings, all null patterns, and any sequence of slicing, chunk merging and compression that carries statistics along",
 "tests check a few arrays; merge and inheritance rules must hold for every partition into chunks",
 ["vortex-array/src/stats","vortex-array/src/array/primitive/stats.rs","vortex-array/src/array/bool/stats.rs","vortex-array/src/array/varbin/stats.rs","vortex-array/src/array/chunked/stats.rs","encodings/dict/src/dict.rs","encodings/runend/src/runend.rs","encodings/roaring"],
 [("single pass accumulators","vortex-array/src/array/primitive/stats.rs, vortex-array/src/array/varbin/stats.rs"),
  ("ordered and unordered merge","vortex-array/src/stats/statsset.rs")])

p("P15","A chunked array behaves as the concatenation of its chunks",
 "For any way of splitting a sequence into chunks, including empty chunks and no chunks at all, element access, slicing, gathering, filtering, comparison, decoding and re-chunking of the chunked array give the same result as on the concatenated sequence; re-chunking respects the requested maximum row count and keeps all rows in order.",
 ["inputs"],"all sequences, all partitions into chunks with arbitrary empty chunks, all operations and operands",
 "tests use two or three non-empty chunks; boundary and empty-chunk positions multiply",
 ["vortex-array/src/array/chunked"],
 [("cumulative chunk ends and binary search for the chunk of a row","vortex-array/src/array/chunked/mod.rs: find_chunk_idx"),
  ("split operations at chunk boundaries","vortex-array/src/array/chunked/compute"),
  ("greedy re-chunking","vortex-array/src/array/chunked/mod.rs: rechunk")])

p("P16","Messages written to a stream read back identically",
 "Writing any array, chunked or not, in any encoding, to the message stream and reading it back gives the same type, chunk count, lengths, nulls and values, with every buffer aligned as promised; byte pages written to the same stream read back byte for byte.",
 ["inputs"],"all arrays and encodings, nested types, buffer lengths modulo the alignment, empty arrays, sequences of messages, readers that return data in arbitrary pieces",
 "tests write one or two arrays; padding and buffer-index arithmetic depends on all buffer lengths and child counts",
 ["vortex-serde/src/messages.rs","vortex-serde/src/message_writer.rs","vortex-serde/src/message_reader.rs","vortex-serde/src/stream_writer","vortex-serde/src/stream_reader","vortex-array/src/view.rs","vortex-array/src/lib.rs"],
 [("padding each buffer to the alignment and recording offsets","vortex-serde/src/messages.rs, vortex-serde/src/message_writer.rs"),
  ("splitting one read into buffers by recorded offsets","vortex-serde/src/message_reader.rs: read"),
  ("buffer indices assigned depth first","vortex-serde/src/messages.rs, vortex-array/src/view.rs")])

p("P17","A file scan returns exactly the selected rows and columns",
 "Scanning a written file with any non-empty column projection, any row predicate and any batch size yields, batch after batch, exactly the rows for which the predicate is true (a null result counts as false), in their original order, with exactly the projected columns in the requested order, and with the values that were written.",
 ["inputs","configurations"],"all tables and chunkings at write time (including several writes), all projections by name or position, all predicates, all batch sizes",
 "tests scan one small table with a few projections and one predicate; interplay of batch boundaries with empty selections needs particular data",
 ["vortex-serde/src/layouts/read","vortex-serde/src/layouts/write"],
 [("filter reader evaluated batch by batch ahead of the data reader","vortex-serde/src/layouts/read/stream.rs"),
  ("row buffering to the batch size","vortex-serde/src/layouts/read/buffered.rs, vortex-serde/src/layouts/read/layouts/flat.rs"),
  ("column selection","vortex-serde/src/layouts/read/layouts/column.rs, inline_dtype.rs, context.rs"),
  ("footer with column chunk offsets","vortex-serde/src/layouts/write/writer.rs, vortex-serde/src/layouts/read/footer.rs")])

p("P18","Random-access row reads return the requested rows",
 "Reading a sorted list of row numbers from a stored chunked array returns exactly those rows in that order, whatever the chunk boundaries, including rows at the first and last position of a chunk, empty chunks and repeated rows; row numbers out of range are rejected.",
 ["inputs"],"all chunkings, all sorted row lists, all array types",
 "tests take a few rows from evenly sized chunks; boundary rows and coalesced ranges depend on both the chunking and the list",
 ["vortex-serde/src/chunked_reader/take_rows.rs","vortex-serde/src/chunked_reader/mod.rs"],
 [("map rows to chunks, coalesce chunk reads, rebase indices","vortex-serde/src/chunked_reader/take_rows.rs")])

p("P19","Chunk pruning never discards a matching row",
 "When a predicate is rewritten over per-chunk minimum and maximum statistics and the rewritten predicate says a chunk can be skipped, no row of that chunk satisfies the original predicate. The statistics are the true minimum and maximum of the chunk's non-null values, for values without NaN or negative zero. Every statistic the rewritten predicate reads is listed as required.",
 ["inputs","programs"],"all predicates built from comparisons, conjunction, disjunction over columns and constants, and all column value sets with true min/max statistics",
 "tests compare the shape of a few rewritten predicates; soundness quantifies over all chunk contents and bounds, including equality at the bounds",
 ["vortex-serde/src/layouts/pruning.rs"],
 [("per-operator rewriting over min and max","vortex-serde/src/layouts/pruning.rs")])

p("P20","Scalar conversion and ordering are exact",
 "Converting a scalar or an array between integer types yields the same number or an error. Conversions that involve a float are exact when the target can hold the number; otherwise they give a neighbouring float, or an in-range integer truncated toward zero, or an error, and NaN stays NaN; null stays null. List and extension scalars are out of scope. Scalars of the same type are ordered by a total order consistent with equality and with numeric order, with nulls last, and a scalar written to its serial form reads back equal.",
 ["inputs"],"all scalar values of all primitive types and widths, all pairs and triples for the order laws, all source/target type pairs",
 "tests convert a few values; boundary values of each width pair and the order laws need all values",
 ["vortex-scalar/src","vortex-array/src/compute/unary/cast.rs","vortex-array/src/array/primitive/compute/cast.rs"],
 [("checked numeric conversion per width pair","vortex-scalar/src/pvalue.rs, vortex-scalar/src/primitive.rs"),
  ("comparison of like-kinded values","vortex-scalar/src/pvalue.rs, vortex-scalar/src/value.rs, vortex-scalar/src/lib.rs"),
  ("protobuf and flexbuffer forms","vortex-scalar/src/serde")])

p("P21","Types survive serialisation and field selection",
 "Any logical type written to its serial form reads back equal, with every nested field name, field type and nullability; selecting fields by name or position, before or after deserialising, yields those fields in the requested order, and naming an unknown field or position is reported as an error rather than a crash.",
 ["inputs"],"all logical types nested to any depth, all field lists by name and position",
 "tests round-trip eight types and a few projections; nesting and nullability combinations are unbounded",
 ["vortex-dtype/src/serde","vortex-dtype/src/dtype.rs","vortex-dtype/src/ptype.rs","vortex-dtype/src/field.rs","vortex-serde/src/layouts/read/layouts/inline_dtype.rs","vortex-serde/src/layouts/read/mod.rs"],
 [("schema writer/reader tables","vortex-dtype/src/serde/flatbuffers/mod.rs, vortex-dtype/src/serde/proto.rs"),
  ("field lookup and projection","vortex-dtype/src/dtype.rs: field_info, project; vortex-dtype/src/serde/flatbuffers/project.rs")])

p("P22","Predicate rewriting and evaluation preserve meaning",
 "Evaluating a predicate tree over a table gives at each row the meaning of the tree at that row; swapping operands, inverting an operator, or splitting a conjunction into its parts leaves that meaning unchanged, and a row filter selects exactly the rows where all parts are true. Comparisons involving NaN are exempt.",
 ["inputs","programs"],"all expression trees over comparison and boolean operators, columns and constants, and all rows including nulls",
 "tests build a few trees; the algebraic laws must hold for all operators and operand values",
 ["vortex-expr/src","vortex-serde/src/layouts/read/filtering.rs"],
 [("operator tables","vortex-expr/src/operators.rs"),
  ("conjunction splitting and tree evaluation","vortex-expr/src/binary.rs, vortex-expr/src/lib.rs"),
  ("and-ing conjuncts with early exit","vortex-serde/src/layouts/read/filtering.rs")])

p("P23","Re-batching keeps every row once and in order",
 "When a sequence of stored pieces is re-cut into batches of a requested size, the concatenation of the batches equals the concatenation of the pieces, every batch but the last has exactly the requested number of rows, and reading terminates after the last row.",
 ["inputs","histories"],"all sequences of piece lengths (including empty pieces and pieces larger than a batch), all batch sizes >= 1, any interleaving with requests for more data",
 "tests read with one or two batch sizes; leftover handling depends on every relation between piece and batch sizes",
 ["vortex-serde/src/layouts/read/buffered.rs","vortex-serde/src/layouts/read/layouts/flat.rs","vortex-serde/src/layouts/read/batch.rs"],
 [("row buffer with split leftovers","vortex-serde/src/layouts/read/buffered.rs"),
  ("leftover slice of a flat piece","vortex-serde/src/layouts/read/layouts/flat.rs"),
  ("column batches joined into a row batch","vortex-serde/src/layouts/read/batch.rs")])

p("P24","Conversion to and from Arrow keeps the data",
 "Converting an array in any encoding to its Arrow form and back, and importing an Arrow array and exporting it again, keeps the length, logical type, null positions and every value, including sliced Arrow arrays with non-zero offsets and nested structs.",
 ["inputs"],"all supported types, null patterns, Arrow offsets and encodings",
 "tests convert a few arrays; offset and null-buffer handling depends on bit alignment",
 ["vortex-array/src/arrow","vortex-array/src/canonical.rs","vortex-dtype"],
 [("per-type import with null buffer conversion","vortex-array/src/arrow/array.rs"),
  ("canonical export","vortex-array/src/canonical.rs"),
  ("type mapping","vortex-array/src/arrow/dtype.rs")])

p("P25","Query-engine pushdown returns the same rows as an unpushed scan",
 "Running a query through the query-engine connector gives the same rows whether predicates and projections are pushed into the scan or applied afterwards.",
 ["inputs","programs"],"all tables and all query plans the connector accepts",
 "tests run a few queries; the plan space is unbounded and owned by the external engine",
 ["vortex-datafusion/src"],[("filter and projection pushdown","vortex-datafusion/src/memory.rs, vortex-datafusion/src/plans.rs, vortex-datafusion/src/persistent")])

p("P26","Concurrent use of a shared array is race free",
 "Any number of threads may read one array and compute its statistics at the same time; every thread sees statistics and values that are true of the array.",
 ["schedules"],"all thread interleavings of reads and statistic updates on one shared array",
 "tests are single threaded",
 ["vortex-array/src/data.rs","vortex-array/src/stats"],[("statistics behind a read-write lock, immutable buffers","vortex-array/src/data.rs")])

p("P27","Corrupt or truncated input is rejected without unsafe access",
 "Reading a file or message stream whose bytes were truncated or altered ends in an error, or in data that is well formed, and never in a crash or out-of-bounds memory access.",
 ["inputs","fault_sequences"],"all byte strings offered as a file or stream",
 "tests only read well-formed files; the fault space is all byte strings",
 ["vortex-serde/src/message_reader.rs","vortex-serde/src/layouts/read","vortex-array/src/view.rs"],[("length checks and schema-table verification before unchecked access","vortex-serde/src/message_reader.rs, vortex-serde/src/layouts/read/footer.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
