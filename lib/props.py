"""Titles, statements, anchors and deciding methods of the properties."""
P, NA = [], []
ORACLE = 'ASan/UBSan-instrumented run of the real code against an independent model'
RACE = 'TSan and ASan/UBSan runs under seeded delays, history checked against a model'
NOTE = 'seeded random and edge-biased workloads on the real code; nothing is enumerated to a bound unless the evidence rule says so'
S = 'src/jogasaki/'
I = 'include/jogasaki/'

def p(id, title, statement, over, text, why, files, mech, tech=ORACLE, note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))

p('C01', 'Character and binary values keep, compare and concatenate bytes exactly',
  'A variable-length value holds exactly the bytes it was made from, for every length and byte content, also after its source is gone, after the value is copied bit by bit, and after concatenation. '
  'Equality, hash and order agree with each other and with comparison of unsigned bytes, a proper prefix being smaller. '
  'Printing shows the bytes in the documented form.',
  ['inputs', 'histories'], 'all byte strings up to and beyond the inline capacity, all pairs and triples compared, all concatenations, copies and lifetimes',
  'unit tests compare a few short literals; the inline/out-of-line boundary, embedded NULs, bytes above 0x7f and lifetimes need generated values',
  [S+'accessor/text.cpp', S+'accessor/text.h', S+'accessor/binary.h', S+'data/binary_string_value.cpp'],
  [('inline short form / out-of-line long form', S+'accessor/text.h'), ('three-way comparison and concatenation', S+'accessor/text.cpp')])
p('C02', 'Growable aligned buffers keep size, alignment and content',
  'A growable byte buffer reports the size it was last given, keeps its alignment, never shows bytes which were not put there, and holds the assigned content exactly, also when it is assigned from a part of itself, shrunk, copied or moved.',
  ['inputs', 'histories'], 'all histories of construct, resize, assign (also from views of the own content), shrink, copy and move with any capacity and alignment',
  'the tests resize and assign once; histories that cross the capacity with self views are not sampled',
  [S+'data/aligned_buffer.cpp', S+'data/aligned_buffer.h'], [('growth by reallocation with expansion ratio', S+'data/aligned_buffer.cpp')])
p('C03', 'Records exchanged with user functions return each value with its exact type',
  'Reading a record yields its values in the order they were added, each with its kind, null state and exact value. '
  'Asking for a value as a different kind yields nothing instead of a converted or neighbouring value, and reading beyond the end is reported. '
  'An attached error keeps its code and text, and status codes of the remote call have their standard names.',
  ['inputs', 'histories'], 'all sequences of typed, null and empty values, all read requests in any order of kinds',
  'there is no test of most kinds and none of mixed reads',
  [S+'udf/generic_record_impl.cpp', S+'udf/generic_record_impl.h', S+'udf/error_info.cpp'], [('variant value list with a cursor', S+'udf/generic_record_impl.cpp')])
p('C04', 'Record streams deliver every record once, in order, and wake their readers',
  'Every record pushed into a stream before it is closed is returned exactly once and in order to its readers, also across threads. '
  'A waiting reader wakes up as soon as a record arrives or the stream closes, a timed read does not give up early, and the end of the stream is reported only after it was closed and drained. '
  'A closed stream accepts no record, and moving a stream moves its remaining records.',
  ['schedules', 'histories'], 'all interleavings of pushers, readers (non-blocking, blocking, timed), closers and moves',
  'tests use one thread or two with sleeps; lost wake-ups and races need many schedules',
  [S+'udf/generic_record_impl.cpp', S+'udf/generic_record_impl.h'], [('mutex, condition variable and closed flag of the stream', S+'udf/generic_record_impl.cpp')], RACE)
p('C05', 'Base64 text is validated strictly and converts back to the same bytes',
  'Encoding any byte string gives the standard padded Base64 text, and decoding that text gives the same bytes back. '
  'Validation accepts exactly the well-formed padded texts and rejects everything else without reading outside the text.',
  ['inputs'], 'all byte strings, all texts including damaged, truncated and padded ones', 'tests sample a handful of strings',
  [S+'utils/base64_utils.cpp', S+'utils/base64_utils.h'], [('padding and alphabet validation', S+'utils/base64_utils.cpp')])
p('C06', 'Hexadecimal text parses and prints exactly and leaves streams as they were',
  'Hexadecimal text is accepted exactly when it consists of an even number of hexadecimal digits, and then yields exactly those bytes. '
  'Numbers and byte sequences are printed with the documented digits, width and case for every value, and printing leaves the format settings of the stream unchanged.',
  ['inputs'], 'all digit strings, all integers of every width, all byte sequences, all prior stream settings', 'tests check single values and default streams',
  [S+'utils/hex_to_octet.cpp', S+'utils/hex.h', S+'utils/binary_printer.h'], [('digit tables and stream state saver', S+'utils/hex.h')])
p('C07', 'Cleaning text for logs keeps valid text and neutralises the rest',
  'Cleaning a text from outside leaves every well-formed printable UTF-8 character unchanged and writes each other byte in hexadecimal form, so that the result is valid printable UTF-8. '
  'Converting control characters replaces exactly the control characters with the documented mark, drops bytes outside ASCII and leaves every other byte unchanged.',
  ['inputs'], 'all byte strings, in particular truncated, overlong and mixed sequences', 'tests sample a few strings',
  [S+'utils/sanitize_utf8.cpp', S+'utils/convert_control_characters.cpp'], [('byte-wise UTF-8 decoding', S+'utils/sanitize_utf8.cpp')])
p('C08', 'UTF-8 boundaries and string trimming never leave or damage the text',
  'Finding the last character boundary in a limited prefix returns an offset inside the text which does not split a character, and a byte string is judged valid exactly when it is a sequence of lead bytes each followed by its number of continuation bytes. '
  'Trimming removes exactly the blanks at the ends, and prefix tests are exact.',
  ['inputs'], 'all byte strings and all limits', 'tests use well-formed short strings and a few limits',
  [S+'utils/utf8_utils.cpp', S+'utils/string_utils.cpp', S+'utils/string_manipulation.cpp'], [('encoded character type by lead byte', S+'utils/utf8_utils.cpp')])
p('C09', 'Descriptor files of user functions are reported completely and in isolation',
  'Analysing a directory of descriptor files reports every procedure and message each file defines, in file and definition order with its full name and file. '
  'A name defined more than once is flagged with all the files that define it and no other name is flagged, and an unreadable or malformed file is reported by name without hiding the others.',
  ['inputs', 'fault_sequences'], 'all sets of descriptor files with any packages, services, nested messages, imports, duplicates and damage',
  'the tests have a few prepared descriptors',
  [S+'udf/descriptor/descriptor_analyzer.cpp', S+'udf/descriptor/descriptor_reader.cpp', S+'udf/descriptor/validation/message_duplicate_validator.cpp', S+'udf/descriptor/validation/rpc_duplicate_validator.cpp'],
  [('walk over services and messages of each file', S+'udf/descriptor/descriptor_analyzer.cpp'), ('grouping by full name', S+'udf/descriptor/validation/rpc_duplicate_validator.cpp')])
p('C10', 'Signatures and call settings of user functions are derived exactly',
  'The argument patterns of a user function are exactly the combinations that choose one alternative from each group of alternatives, in declaration order and with the choices of earlier groups varying slowest. '
  'Versions compare by major, minor, patch; kinds and load results have their documented names; settings are returned as given, and a call deadline is the present time plus the configured timeout, no deadline being set without one.',
  ['inputs', 'configurations'], 'all record shapes with any number of alternatives and optional columns, all versions, all settings',
  'tests check two or three prepared shapes',
  [S+'udf/descriptor_impl.cpp', S+'udf/plugin_api.cpp', S+'udf/udf_config.cpp', S+'udf/generic_client_context.cpp'],
  [('expansion of alternatives into patterns', S+'udf/descriptor_impl.cpp')])
p('C11', 'Latches and waitable values release waiters exactly when they should',
  'A waiter on a latch or waitable value returns only after the release or change it waits for and always returns once that happened, for any number of waiters and any timing. '
  'A timed wait returns early only because of that event, reports whether it happened, and otherwise lasts at least the given time. '
  'What was written before the release is visible to the released waiters.',
  ['schedules', 'histories'], 'all interleavings of waiters, timed waiters, releases, resets and value changes',
  'tests use two threads with sleeps', [S+'utils/latch.cpp', S+'utils/latch.h', S+'utils/latch_set.h', S+'utils/waitable_atomic.h'],
  [('mutex and condition variable of the latch', S+'utils/latch.cpp'), ('atomic with mutex and condition variable', S+'utils/waitable_atomic.h')], RACE)
p('C12', 'Performance time points report first, last, durations and averages exactly',
  'The first time set for a point by each worker is kept and later ones do not replace it. '
  'The reported first, last, total duration and average over the workers follow exactly from the times set, with unset workers left out, also when workers set them concurrently.',
  ['schedules', 'histories'], 'all sets of times by any number of workers, all orders and interleavings', 'tests measure real time loosely',
  [S+'utils/watch.cpp', S+'utils/watch.h', S+'utils/performance_tools.cpp'], [('time slots per worker under a mutex', S+'utils/watch.cpp')], RACE)
p('C13', 'Each error code has one stable number, name and wire code',
  'Distinct error codes map to distinct wire codes and names, the name is that of the code, and status values keep their documented names and numbers.',
  ['inputs'], 'all error codes and all status codes', 'tests check two or three codes',
  [I+'error_code.h', I+'status.h', S+'api/impl/map_error_code.h', I+'api/kvsservice/status.h'], [('switch over codes', I+'error_code.h')])
p('C14', 'Error information reaches clients complete and well formed',
  'The code, status, message, source position and additional text of an error are returned as given. '
  'Its supplemental text is valid JSON holding every part that was given, whatever bytes the parts contain.',
  ['inputs'], 'all combinations of codes, texts (also invalid UTF-8, quotes, control characters) and positions', 'tests use plain ASCII texts',
  [S+'error/error_info.cpp', S+'error/error_info.h', S+'api/impl/error_info.cpp'], [('JSON dump of the parts', S+'error/error_info.cpp')])
p('C15', 'Table descriptions survive the trip through the wire format',
  'A table or column description converted to its wire form and back equals the original in every name, type, length, precision, scale, nullability, dimension, index and key. '
  'Two descriptions are equal exactly when all their parts are, and their printed form names every part that is set.',
  ['inputs'], 'all descriptions: all types, all presence combinations of optional parts, any texts', 'tests check a few columns',
  [S+'executor/dto/common_column_utils.cpp', S+'executor/dto/describe_table_utils.cpp', S+'executor/dto/common_column.h', S+'executor/dto/describe_table.h'],
  [('field-by-field conversion both ways', S+'executor/dto/common_column_utils.cpp')])
p('C16', 'Key-value service requests are read as they were sent',
  'Looking up a column in a request record finds the value of the first column of that name and nothing for an absent name. '
  'Transaction options have the documented defaults, keep and print what was given, and statuses carry their code, name and message.',
  ['inputs', 'configurations'], 'all records, all option combinations, all statuses', 'no stable test of these',
  [S+'api/kvsservice/mapped_record.cpp', S+'api/kvsservice/transaction_options.cpp'], [('name to position map', S+'api/kvsservice/mapped_record.cpp')])
p('C17', 'Request statistics and channel counts report exactly what happened',
  'Row counts per kind, durations and channel record totals equal what was recorded, each kind is listed once with its own value, and counts by concurrent writers add up.',
  ['schedules', 'histories'], 'all sequences of recordings by any number of threads', 'tests add a few counts in one thread',
  [S+'request_statistics.cpp', I+'request_statistics.h'], [('counter map and atomic totals', S+'request_statistics.cpp')], RACE)
p('C18', 'Field options and large-object references compare and print by all their parts',
  'Two field options or large-object references are equal exactly when all their parts are equal, they return the parts they were given, and their printed form shows them.',
  ['inputs'], 'all combinations of parts', 'tests compare one or two pairs',
  [S+'meta/decimal_field_option.cpp', S+'meta/character_field_option.cpp', S+'meta/time_point_field_option.cpp', I+'lob/lob_reference.h', I+'lob/lob_locator.h'], [('member-wise equality', S+'meta/decimal_field_option.cpp')])
p('C19', 'Paged memory hands out disjoint, stable memory and returns every page',
  'Memory handed out by the page-based allocators is aligned as asked, lies inside one page, never overlaps memory in use and keeps its content until it is given back; the room an allocator reports is exactly what fits. '
  'Restoring a checkpoint frees exactly what was allocated after it (or before it, for the first-in-first-out allocator) and the state at the checkpoint returns. '
  'A request that cannot be served is refused with an allocation error and changes nothing, and all pages go back to the pool, which hands each page to one user at a time across threads.',
  ['histories', 'fault_sequences', 'schedules'], 'all histories of requests of any size and alignment, returns, checkpoints, page ends, oversize requests and page shortage; all interleavings on the pool',
  'tests use a few requests on fresh pages; the padded, oversize and exhausted cases crashed before this work',
  [S+'memory/lifo_paged_memory_resource.cpp', S+'memory/fifo_paged_memory_resource.cpp', S+'memory/monotonic_paged_memory_resource.cpp', S+'memory/block_memory_resource.h', S+'memory/page_pool.cpp', S+'memory/details/page_allocation_info.cpp', S+'utils/checkpoint_holder.h', S+'utils/lazy_checkpoint_holder.h'],
  [('bounds of the allocated region per page', S+'memory/details/page_allocation_info.cpp'), ('page list and checkpoints', S+'memory/lifo_paged_memory_resource.cpp')],
  'ASan/UBSan and TSan runs with intercepted page mapping, every live allocation tracked')
p('C20', 'Arithmetic, random number, multiset, counting and backoff helpers are exact',
  'Rounding to powers of two, mixing functions and pseudo-random sequences give the mathematically defined results for every input. '
  'Subtracting one list from another removes each element as often as it occurs there; a use counter always equals the number of live copies; actions bound to a scope end run exactly once, innermost first. '
  'Backoff waits start at the initial time, double up to the maximum, restart on reset, and are off when the initial time is zero.',
  ['inputs', 'histories'], 'all numbers, seeds, multisets, copy and move histories, wait histories', 'tests check single values',
  [S+'utils/round.h', S+'utils/random.h', S+'utils/subtract_vectors.h', S+'utils/use_counter.cpp', S+'utils/backoff_timer.h', S+'utils/backoff_waiter.h', S+'utils/finally.h', S+'executor/batch/batch_executor_option.cpp', I+'utils/hash_combine.h', I+'utils/split_mix64.h'],
  [('bit smearing, xorshift steps', S+'utils/round.h'), ('shared entity with use count', S+'utils/use_counter.cpp')],
  'ASan/UBSan run with a virtual clock against models')
p('C21', 'Kinds and states have stable distinct names and the documented order',
  'Every kind and state is printed by its own name, distinct within its family, and step states are ordered along the life of a step. '
  'Exceptions and markers return the status, code and text they were made with, also after copying and after the source text is gone.',
  ['inputs'], 'all kinds and states, all pairs of step states, all texts', 'tests print few of them',
  [S+'scheduler/step_state.h', S+'serializer/entry_type.h', S+'model/task.h', S+'executor/process/impl/region_id.h', S+'executor/sequence/exception.h', S+'utils/storage_metadata_exception.h'],
  [('name tables', S+'serializer/entry_type.h')])
p('C22', 'Values written to a result stream are read back identically',
  'Every entry written to a value stream is read back as the same kind with the same value, the reader advances exactly over what was written, and the length announced for an entry is the length written. '
  'An entry that does not fit the room that is left is refused without writing outside that room, and truncated or foreign bytes are refused without reading outside the given bytes.',
  ['inputs', 'histories'], 'all values of every kind incl. the limits of each compact form, all room sizes, all truncations and byte strings', 'tests write chosen values into ample room',
  [S+'serializer/value_writer.h', S+'serializer/value_output.cpp', S+'serializer/value_input.cpp', S+'serializer/base128v.cpp'],
  [('header bytes with embedded values, base-128 integers', S+'serializer/value_output.cpp')])
p('C23', 'Stored keys and values keep order and round-trip',
  'A value written as part of a key or a value of the store is read back identical, consuming exactly the bytes written, for every type, nullability and sort direction. '
  'Comparing the encoded keys byte by byte gives the order of the values: null first, numbers by size, NaN last, texts by unsigned bytes, reversed when descending, column by column, and no complete key is a prefix of another. '
  'A value that cannot be represented (too long, too many digits) is refused with its documented error and without writing outside the buffer, and truncated bytes are refused without reading outside.',
  ['inputs', 'histories'], 'all column types and values, sort directions, column lists, buffer sizes and truncations, also after unrelated failures in the same thread', 'tests encode chosen values in ample buffers; none of them is stable here',
  [S+'kvs/coder.cpp', S+'kvs/coder.h', S+'kvs/writable_stream.cpp', S+'kvs/writable_stream.h', S+'kvs/readable_stream.h', S+'utils/coder.cpp'],
  [('order-preserving encoding and its inverse', S+'kvs/writable_stream.h'), ('type dispatch, padding and truncation', S+'kvs/coder.cpp')])
p('C24', 'Record layouts keep fields apart and copies keep every value',
  'A record layout gives every field and every null flag its own correctly aligned place inside the record, also when the places are given by hand. '
  'Writing a field or null flag changes no other one and reading returns what was written; copying a record or a field gives an equal, and where asked an independent, value, also after its source is gone. '
  'Two layouts are equal exactly when all their parts are, external names are found at their field, and a printed record shows every field.',
  ['inputs', 'histories'], 'all field lists with any types and nullability, all values, all write orders and copies', 'tests use small fixed layouts',
  [S+'meta/record_meta.cpp', S+'meta/impl/record_layout_creator.h', S+'accessor/record_ref.h', S+'accessor/record_copier.cpp', S+'utils/copy_field_data.cpp', S+'accessor/record_printer.h', S+'meta/external_record_meta.h'],
  [('offset and null-bit assignment', S+'meta/impl/record_layout_creator.h'), ('field-wise copy', S+'accessor/record_copier.cpp')])
p('C25', 'Record comparison is a total order that agrees with equality, hash and partition',
  'Comparing values and records gives the documented order of their types: numbers by size with NaN greatest, texts by unsigned bytes, null first, each key in its direction and earlier keys first. '
  'It is total and transitive and equality agrees with it. Keys made of the same values (decimals with the same exponent) have equal hashes and go to the same partition, which is always one of the given number.',
  ['inputs'], 'all types, values, nulls, directions and key lists, also between records of different layouts', 'tests compare chosen pairs',
  [S+'executor/less.h', S+'executor/equal_to.h', S+'executor/comparator.h', S+'executor/compare_info.cpp', S+'executor/hash.h', S+'executor/partitioner.cpp'],
  [('typed three-way comparison', S+'executor/comparator.h'), ('hash over the key fields', S+'executor/hash.h')])
p('C26', 'Stores give back every record and value once, in order and unchanged',
  'A record or value put into a store is read back exactly once, in the order it was put in, with the same content and null state, however many memory pages it spans and after the source is gone. '
  'Counts and emptiness match; a reset store starts over empty. '
  'A first-in-first-out store keeps a record valid until the next one is taken, also while one thread puts and another takes, and result partitions filled by several threads are all found, each in its own order.',
  ['histories', 'schedules'], 'all histories of puts, takes, resets, page switches and shared memory; all interleavings of one producer and one consumer and of several writers',
  'tests put a few records into one page in one thread',
  [S+'data/record_store.cpp', S+'data/iterable_record_store.cpp', S+'data/fifo_record_store.cpp', S+'data/result_store.cpp', S+'data/small_record_store.cpp', S+'data/value_store.h', S+'api/impl/result_store_channel.cpp', S+'executor/exchange/shuffle/pointer_table.h'],
  [('ranges of adjacent records', S+'data/iterable_record_store.cpp'), ('memory returned as records are taken', S+'data/fifo_record_store.cpp'), ('value ranges and null flags', S+'data/value_store.h')], RACE)
p('C27', 'Expressions evaluate to their mathematical value or a reported error',
  'Evaluating an expression over a record gives the value the SQL language defines: exact and floating arithmetic in the promoted type, three-valued logic, comparisons, concatenation, CASE and COALESCE, lossless conversions and null handling, whatever the shape of the expression. '
  'A result out of range of its exact type or a division by zero is reported as an arithmetic error, never a wrong value, and only if the failing part is reached.',
  ['inputs'], 'all expression trees over the supported types and operators, all operand values incl. null, limits, infinities and NaN', 'tests evaluate single operators on chosen operands; none of them is stable here',
  [S+'executor/expr/evaluator.cpp', S+'executor/expr/evaluator.h', S+'executor/expr/evaluator_context.cpp', S+'utils/as_any.h', S+'utils/copy_field_data.cpp', S+'data/any.h'],
  [('typed arithmetic, comparison and logic over any values', S+'executor/expr/evaluator.cpp')])
p('C28', 'LIKE matches exactly the texts its pattern describes',
  'text LIKE pattern ESCAPE e is true exactly when the text is described by the pattern, where % stands for any characters, _ for one whole UTF-8 character and an escaped character for itself; case and trailing spaces count. '
  'Null operands give null, an empty escape escapes nothing; an escape that is not one character, or that ends the pattern with nothing to escape, is reported, and malformed UTF-8 gives null, never a match.',
  ['inputs'], 'all texts, patterns and escapes incl. multi-byte characters, repeated wildcards and malformed escapes', 'tests use a list of pairs; multi-byte backtracking was wrong',
  [S+'executor/expr/evaluator.cpp', S+'executor/expr/details/common.h', S+'utils/string_utils.h'],
  [('wildcard backtracking over bytes', S+'executor/expr/evaluator.cpp')])
p('C29', 'Conversions between types give the documented value and report every loss',
  'Converting a value to another SQL type (cast, assignment) gives the documented result: out-of-range numbers become the nearest limit of an exact type, or infinity or zero of a floating one, fractions are cut toward zero, texts and bytes are cut at a character boundary or padded, texts are read by the documented grammar with surrounding spaces ignored, dates and times keep their parts and time zone. '
  'A loss of precision is noted exactly when it happens and handled as the policy says: kept, warned, refused or replaced with null. Null stays null, and a text that is no such value or a pair of types that cannot be converted is refused with its documented error.',
  ['inputs'], 'all pairs of types and their parameters, all values and texts incl. limits, 38 and more digits, extreme exponents, special values, all loss policies and feature settings', 'tests convert chosen values; texts of spaces only crashed',
  [S+'executor/expr/details/cast_evaluation.cpp', S+'executor/expr/details/cast_evaluation_temporal.cpp', S+'executor/expr/details/common.h', S+'executor/expr/details/constants.h', S+'executor/expr/details/decimal_context_guard.cpp', S+'utils/hex_to_octet.cpp', 'docs/internal/value_transform.md'],
  [('range checks, decimal rescaling, length handling', S+'executor/expr/details/cast_evaluation.cpp')])
p('C30', 'Built-in scalar functions give the documented result for every argument',
  'The built-in functions (octet_length, character_length, substring, position, upper, lower, ltrim, rtrim, abs, mod, ceil, floor, round, encode, decode, current_date, localtime, localtimestamp, current_timestamp) return what their documentation says for every argument: null for null, code points as the unit of text and bytes of binary data, null for malformed UTF-8, the exact mathematical result for exact numbers, and the transaction start time (shifted by the configured zone where the result is local) for the clock functions. '
  'A result that does not fit, a scale out of range, a zero divisor or a malformed encoding is reported as its documented error, never a wrong value, a hang or a crash; every declared function is registered with its arguments.',
  ['inputs'], 'all texts, bytes, positions, lengths, numbers and scales incl. the limits of the types; all start times and zone offsets', 'tests call the functions with a few ordinary arguments',
  [S+'executor/function/builtin_scalar_functions.cpp', S+'executor/function/scalar_function_repository.cpp', S+'utils/base64_utils.cpp', S+'utils/string_utils.cpp', 'docs/round-ja.md', 'docs/substring_substr-ja.md', 'docs/position-jp.md', 'docs/mod-ja.md', 'docs/ceil-ja.md'],
  [('decoding of code points, rounding, positions', S+'executor/function/builtin_scalar_functions.cpp')])
p('C31', 'Exchanges deliver every record exactly once, in the promised order',
  'Whatever the writers of a forward or group exchange put in, its readers get exactly once and with its content: a forward exchange in the order written per partition, a group exchange gathered into groups of equal keys (null equal to null), each group in one partition, sorted as demanded within the group, and cut to its limit per group. '
  'This holds for any number of writers and partitions, empty writers, group keys of every type, null keys, and writers and readers running at the same time; a limit never lets more records through, and an exchange with a limit delivers as many as there are.',
  ['histories', 'schedules'], 'all layouts, keys, orders, limits, writers and partition counts; all interleavings of writers and readers', 'tests feed a few records from one thread and drain them afterwards',
  [S+'executor/exchange/forward/flow.cpp', S+'executor/exchange/forward/input_partition.cpp', S+'executor/exchange/forward/writer.cpp', S+'executor/exchange/forward/reader.cpp', S+'executor/exchange/group/flow.cpp', S+'executor/exchange/group/input_partition.cpp', S+'executor/exchange/group/priority_queue_reader.cpp', S+'executor/exchange/group/sorted_vector_reader.cpp', S+'executor/exchange/group/sink.cpp', S+'executor/exchange/shuffle/'],
  [('pointer tables sorted and merged by key', S+'executor/exchange/group/priority_queue_reader.cpp'), ('partition of a key', S+'executor/exchange/shuffle/'), ('fifo partition', S+'executor/exchange/forward/input_partition.cpp')], RACE)
p('C32', 'Aggregation gives one exact result per group, however the input is split',
  'Aggregating over an aggregate exchange gives exactly one record per distinct key, with count, count(distinct), sum, min, max and avg over all input records of that key: nulls are ignored, an all-null group gives null (0 for counts), NaN is one value, and the result does not depend on the order of the input, on how it is split over writers, partitions, hash table pages and flushes, or on hash collisions. '
  'Over an empty input, a whole-table aggregation gives one record and a keyed one none.',
  ['inputs', 'schedules'], 'all keys, values, function combinations, splits into writers and partitions, hash distributions, sizes beyond one hash table', 'tests aggregate a few records with one writer; hash collisions and large inputs never occur',
  [S+'executor/exchange/aggregate/input_partition.cpp', S+'executor/exchange/aggregate/flow.cpp', S+'executor/exchange/aggregate/reader.cpp', S+'executor/exchange/aggregate/aggregate_info.cpp', S+'executor/function/incremental/builtin_functions.cpp', S+'executor/function/builtin_functions.cpp', S+'executor/function/value_generator.h', 'docs/internal/aggregate-exchange.md'],
  [('hash tables of groups per partition, flushed and merged', S+'executor/exchange/aggregate/input_partition.cpp'), ('pre, mid and post aggregators', S+'executor/function/incremental/builtin_functions.cpp')], RACE)
p('C33', 'A query plan returns the rows the relational algebra defines',
  'Executing a plan of scans, index lookups, joins of every kind, filters, projections, sorting, grouping, aggregation, distinct, limit, union and buffers over stored tables returns exactly the rows (with duplicates) the algebra defines, sorted where the plan asks for it, however many partitions, worker threads and exchanges it uses. '
  'Null keys never match an index or an equality, null groups are one group, a failing expression makes the statement fail with its error instead of returning rows, and executing it again gives the same.',
  ['inputs', 'schedules'], 'all combinations of operators, tables, indices and values; all schedules of the tasks of one statement', 'tests run chosen statements, and none of them is stable here',
  [S+'executor/process/impl/ops/', S+'executor/process/', S+'executor/exchange/', S+'plan/', S+'model/', S+'scheduler/', S+'executor/executor.cpp', S+'index/', 'docs/internal/'],
  [('operator chains pulling and pushing blocks', S+'executor/process/impl/ops/'), ('compiled plan mirrored into steps and flows', S+'plan/compiler.cpp'), ('steps and tasks driven by events', S+'scheduler/dag_controller.cpp')], RACE)

p('C34', 'Statements that change rows change exactly those, everywhere, or nothing',
  'INSERT (failing, skipping or replacing on an existing key), INSERT from a query, UPDATE and DELETE change exactly the rows the statement says, with defaults, type conversions and NOT NULL and uniqueness applied, and report the numbers of rows changed. '
  'The table read by every index shows the same rows, and each index has exactly one entry per row. '
  'A statement that fails, by its data, an expression or a refused storage operation, reports its error and ends its transaction: nothing of it can be used or committed any more, and after rollback or failure the tables are as before the transaction.',
  ['inputs', 'histories', 'fault points'], 'all tables, indices, rows and statement sequences of a transaction, all points at which the storage refuses an operation',
  'tests run chosen statements on chosen tables, none with failing storage, and none of them is stable here',
  [S+'executor/process/impl/ops/write_create.cpp', S+'executor/process/impl/ops/write_existing.cpp', S+'executor/common/write_statement.cpp', S+'executor/wrt/', S+'index/', S+'executor/executor.cpp', S+'transaction_context.cpp', 'docs/internal/tx-state.md'],
  [('rows written to the primary and all secondary indices', S+'index/'), ('insert, skip and overwrite', S+'executor/wrt/'), ('failed statements end the transaction', S+'transaction_context.cpp')], RACE)
p('C35', 'Requests on a transaction are answered once; its end never overlaps its work',
  'However statements, commits, rollbacks, disposals and cancellations of the same and other transactions are interleaved by client threads, and whatever the storage refuses, every request is answered exactly once and its job ends. '
  'A commit is answered with success only when everything answered with success before it is stored (and durable, when asked for), and at most one end of a transaction takes effect: a transaction is stored completely or not at all. '
  'No two threads use one transaction of the storage engine at the same time, nothing uses it after its end or disposal, and nothing the requests share is accessed without synchronization.',
  ['histories', 'schedules', 'fault points'], 'all interleavings of requests on the same and on different transactions, all schedulers and worker counts, all points at which the storage fails or durability is delayed',
  'tests issue a request and wait for its answer; overlap of requests with the end of their transaction never occurs in them',
  [S+'executor/executor.cpp', S+'transaction_context.cpp', S+'scheduler/flat_task.cpp', S+'scheduler/stealing_task_scheduler.cpp', S+'scheduler/hybrid_task_scheduler.cpp', S+'durability_manager.cpp', S+'durability_common.cpp', S+'durability_callback.cpp', S+'commit_common.cpp', S+'api/impl/database.cpp', S+'api/transaction_handle.cpp', S+'utils/abort_transaction.cpp', S+'kvs/transaction.cpp', 'docs/internal/concurrent_end_tx.md', 'docs/internal/requests.md', 'docs/commit-status-ja.md'],
  [('flags of the end of a transaction and number of tasks using it, in one atomic', S+'transaction_context.cpp'), ('tasks counted in, deferred abort by the last one', S+'scheduler/flat_task.cpp'), ('commit callback, durability waiters', S+'durability_manager.cpp')], RACE)
p('C36', 'A sequence gives each value once, in order, and never again after a restart',
  'The values a sequence gives, to whatever threads and transactions ask for them, are its first value and then each the increment further, each exactly once, within its bounds; past a bound it starts again from the opposite one if it cycles, and otherwise refuses with the error of that bound, and only then. '
  'A value used by a committed transaction is stored with it, each version of a sequence at most once, so that after a restart every defined sequence is known under its id with its properties and continues after the last stored value. '
  'Dropped sequences are gone, definitions that failed leave nothing in the way of the next try, and sequences may be created, dropped and used at the same time.',
  ['histories', 'schedules', 'fault points'], 'all definitions incl. ranges and increments at the limits of the integers, all interleavings of transactions that use, create and drop sequences, refused operations of the storage, restarts',
  'tests take a few values in one thread from sequences with small positive numbers',
  [S+'executor/sequence/manager.cpp', S+'executor/sequence/sequence.cpp', S+'executor/sequence/metadata_store.cpp', S+'executor/sequence/info.h', S+'executor/wrt/fill_record_fields.cpp', 'docs/sequence-ja.md'],
  [('version and value stepped by one atomic exchange', S+'executor/sequence/sequence.cpp'), ('versions stored with the transaction, definitions mapped to ids', S+'executor/sequence/manager.cpp')], RACE)
p('C37', 'Definitions and privileges are those the DDL statements made, across restarts',
  'After any history of CREATE and DROP TABLE and INDEX, TRUNCATE, GRANT, REVOKE, row changes and restarts, by any users in any number of transactions, the tables, columns, types, defaults, identities, keys, indices and privileges known are exactly those the committed statements defined; a statement succeeds if and only if its names, privileges and locks allow it, and otherwise fails with the error of the reason and changes nothing. '
  'While a transaction that redefined a table is open no other transaction uses or redefines the table, and while a statement uses it nobody redefines it; rows and index entries are those of the current definition, each name means one thing, each identity column continues its sequence. '
  'Storages stay as long as a transaction may use them and are deleted afterwards.',
  ['histories', 'schedules', 'fault points'], 'all histories of definitions, privileges and rows by users of all kinds, all interleavings of transactions, storages and sequences the engine cannot create, restarts at any point; not what a rolled back definition leaves (documented), nor statements prepared before a table was redefined (documented)',
  'tests run short scripts of one or two statements in one thread against one table',
  [S+'executor/common/create_table.cpp', S+'executor/common/drop_table.cpp', S+'executor/common/truncate_table.cpp', S+'executor/common/create_index.cpp', S+'executor/common/drop_index.cpp', S+'executor/common/process_grant_revoke.cpp', S+'executor/common/ddl_common.cpp', S+'storage/storage_manager.cpp', S+'storage/maintenance_storage.cpp', S+'recovery/storage_options.cpp', 'docs/internal/ddl-dml-interaction.md'],
  [('shared and exclusive storage locks', S+'storage/storage_manager.cpp'), ('definitions stored as storage options and read back', S+'recovery/storage_options.cpp'), ('deletion reserved, done once no transaction refers to the storage', S+'storage/maintenance_storage.cpp')], RACE)
p('C38', 'Each request to the SQL service gets one true answer, and sessions stay apart',
  'Every message a client sends, well formed or not, gets exactly one final answer of the kind of its request (or a protocol error when it cannot be read), after all rows were released, and it tells the truth: success means the statement, commit or rollback took effect; an error names its reason and the requested work was not done. '
  'A query sends its columns and precisely its rows, encoded by their types and nulls, through channels no two threads use at once and all of which are released; placeholders get the value their parameter has, or the error of the documented incompatibility. '
  'Handles of transactions and statements work only in the session they were made in, until they are disposed; afterwards, and for unknown handles, requests fail and harm nobody. When a session ends what it held is given back, and its open transactions take no effect.',
  ['inputs', 'histories', 'schedules'], 'all request messages of all sessions in any order and concurrency, any bytes, parameters, handles, disposals and ends of sessions; requests for blob bodies and files excepted; a data channel always grants the writers it announced (documented)',
  'tests send one good request at a time from one thread, and wait for each',
  [S+'api/impl/service.cpp', S+'api/impl/service.h', S+'api/impl/data_writer.h', S+'api/impl/database.cpp', S+'api/statement_handle.cpp', S+'api/transaction_handle.cpp', S+'plan/compiler.cpp', 'docs/placeholder_type_compatibility.md'],
  [('requests dispatched, parameters decoded, responses encoded', S+'api/impl/service.cpp'), ('rows written through result channels', S+'api/impl/service.h'), ('handles looked up per session', S+'api/impl/database.cpp')], RACE)
p('C39', 'A storage has one name, one owner of its lock, and stays while it is used',
  'At any time a name, and a storage key, means at most one storage, and finding it by either gives the same storage; of any number of creators of one name exactly one succeeds. A storage is locked exclusively by at most one transaction and by no statement of another one, a lock request is all or nothing, never succeeds for a storage which was dropped, and what a lock holds is free once it ends. '
  'Storages marked as dropped, and only those, are offered for deletion, and the count of transactions using a storage is exact, so none is deleted in use. Privileges of users and of everybody are precisely those given and not taken back, CONTROL standing for all.',
  ['histories', 'schedules'], 'all sequences of registrations, locks, releases, references, drops and removals; all interleavings of transactions and the maintenance',
  'tests call each function once or twice in one thread',
  [S+'storage/storage_manager.cpp', S+'storage/storage_manager.h', S+'storage/storage_list.h', S+'storage/shared_lock.cpp', S+'storage/unique_lock.cpp', S+'storage/reference_scope.cpp', S+'auth/action_set.cpp', S+'auth/authorized_users_action_set.cpp', S+'transaction_context.cpp'],
  [('lock words of storages', S+'storage/storage_manager.h'), ('names, keys and candidates for deletion', S+'storage/storage_manager.cpp'), ('references per transaction', S+'storage/reference_scope.cpp')], RACE)
p('C40', 'The key-value service answers each request once, with records as they were put',
  'Every request message to the key-value service, well formed or not, is answered exactly once, with a result or an error, and never brings the server down. GET returns every column of a record as it was last put in the order of the transactions, SCAN the records in order; PUT of each kind and REMOVE of each kind do what the kind says about absent and present records, and say how many they changed. '
  'What a transaction wrote is seen by others only after its commit was answered as done, and not at all after a rollback, a failed commit or a disposal; a request which cannot be served (unknown table, column, option or transaction, missing or mistyped values, secondary index, a finished transaction) is refused with an error and changes nothing. No handle outlives its disposal, whatever other requests are under way.',
  ['inputs', 'histories', 'schedules', 'faults'], 'all sequences of messages of any number of clients, all values and column subsets, all results of the storage below',
  'the tests of the service send chosen requests one at a time against a server which is not here',
  [S+'api/kvsservice/impl/service.cpp', S+'api/kvsservice/store.cpp', I+'api/kvsservice/store.h', S+'api/kvsservice/transaction.cpp', I+'api/kvsservice/transaction.h', S+'api/kvsservice/transaction_utils.cpp', S+'api/kvsservice/serializer.cpp', S+'api/kvsservice/record_columns.cpp', S+'api/kvsservice/convert.h'],
  [('request decoding and answers', S+'api/kvsservice/impl/service.cpp'), ('transactions and their handles', S+'api/kvsservice/store.cpp'), ('records between messages and stored bytes', S+'api/kvsservice/transaction_utils.cpp')], RACE)
p('C41', 'LOAD runs its statement once per record of every file, and tells its end once',
  'A load reads every record of every block of every file once and runs the statement once with the values of that record, by name, by position or given for all, whatever the number of files and blocks, empty ones included, and however many are worked on at a time. It ends, always, and tells its end exactly once: with success only after all statements and commits succeeded, and with an error if any failed or a file could not be read. '
  'A load in a transaction stores all records or aborts the transaction; a load without one stores each block entirely or not at all. No statement, reader or transaction of a load outlives it, and nothing it uses is freed while its statements run.',
  ['inputs', 'histories', 'schedules', 'faults'], 'all divisions of records into files and blocks, all limits of concurrency, all orders in which statements, blocks and files end, all failures',
  'tests of loads with empty blocks or errors are disabled as unstable, and need libraries which are not here',
  [S+'executor/batch/batch_executor.cpp', S+'executor/batch/batch_file_executor.cpp', S+'executor/batch/batch_block_executor.cpp', S+'executor/batch/batch_execution_state.cpp', S+'executor/file/loader.cpp', S+'executor/executor.cpp', S+'api/impl/database.cpp'],
  [('ends of blocks and files and the end of the load', S+'executor/batch/batch_file_executor.cpp'), ('statements run for records, one transaction per block', S+'executor/batch/batch_block_executor.cpp'), ('loads within a transaction', S+'executor/file/loader.cpp')], RACE)
na('C90', 'Rows dumped to files and loaded from files are the rows of the table',
  'A dump of a query result to Parquet or Arrow files followed by a load gives back the same rows, with every value, null and type parameter, however the rows are split into files and batches.',
  ['inputs', 'histories'], 'all result sets of all types and all file and batch sizes', 'tests write and read chosen rows, and need libraries which are not here',
  [S+'executor/file/'], [('columns written through Arrow and Parquet builders', S+'executor/file/parquet_writer.cpp'), ('files read back into parameter sets', S+'executor/file/loader.cpp')],
  'the property is about the Arrow and Parquet libraries\' behaviour under this code; neither library is installed, and a stand-in would have to be the file format itself')
