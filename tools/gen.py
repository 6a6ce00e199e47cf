#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = []
def p(id, title, statement, over, text, why, files, mech, claimed=True, reason=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claimed=claimed, reason=reason, note=note))
INP = ['inputs']; HIST = ['inputs', 'histories']; FAULT = ['inputs', 'fault_sequences']
T = 'The tests sample a few fixed inputs; '

p('C01', 'Scanning and number-parsing primitives are exact on every input',
  'Every character, span, string and integer scanner accepts exactly the documented text, advances the cursor by exactly what it reports, and leaves cursor and result untouched when it refuses. No scanner ever advances past the string terminator. Integer parsing yields the exact value and refuses what does not fit.',
  INP, 'all byte strings and character sets up to the stated length; all digit strings up to 21 digits', T + 'the terminator, sign-extended bytes and the 2^32/2^64 edges are one input in billions.',
  ['lib/utils.c', 'include/utils.h'], [('sr_skip_*/sr_parse_* scanners', 'lib/utils.c:252-515')])
p('C02', 'Reported line and column always match the position in the text',
  'For any text, the line and column computed while searching, skipping or adding positions equal those obtained by counting newlines and characters from the start. Ordering two positions agrees with their order in the text.',
  INP, 'all texts and needles up to the stated length', T + 'newline placement relative to the match decides the result and is only sampled.',
  ['lib/location.c', 'lib/utils.c'], [('sr_location_*', 'lib/location.c'), ('sr_str*_location', 'lib/utils.c:89-150')])
p('C03', 'The gdb backtrace parser survives every byte sequence',
  'Parsing any text as a gdb backtrace, thread, frame, or any part of a frame terminates without touching memory outside the text. It either succeeds and leaves the cursor inside the text past what it consumed, or fails and leaves the cursor where it was; once the result is freed nothing that was allocated remains.',
  INP, 'all texts over the grammar-relevant alphabet up to the stated length, and well-formed prefixes with arbitrary tails', T + 'truncated and malformed frames form an unbounded space that fixtures do not visit.',
  ['lib/gdb_stacktrace.c', 'lib/gdb_thread.c', 'lib/gdb_frame.c', 'lib/gdb_sharedlib.c'], [('sr_gdb_frame_parse and its parts', 'lib/gdb_frame.c'), ('sr_gdb_thread_parse', 'lib/gdb_thread.c'), ('sr_gdb_stacktrace_parse', 'lib/gdb_stacktrace.c')])
p('C04', 'A well-formed gdb backtrace is parsed into exactly what it says',
  'For a backtrace text assembled from any frame numbers, addresses, function names, arguments, source files and lines, and thread headers, parsing returns exactly those threads, frames and fields in order. Signal-handler frames are recognised as such, and local-variable lines never turn into frames.',
  INP, 'all field values within the stated sizes, all combinations of optional parts', T + 'each optional part and each digit/identifier combination interacts with the others.',
  ['lib/gdb_stacktrace.c', 'lib/gdb_thread.c', 'lib/gdb_frame.c'], [('sr_gdb_frame_parse', 'lib/gdb_frame.c'), ('sr_gdb_thread_parse', 'lib/gdb_thread.c'), ('sr_gdb_frame_append_to_str', 'lib/gdb_frame.c')])
p('C05', 'The kernel oops parser is safe on every input and faithful on valid oopses',
  'Parsing any text as a kernel oops or one of its parts terminates without touching memory outside it; parsing a single frame or part that fails leaves the cursor where it was, and no memory is lost. For an oops assembled from any timestamps, addresses, function names, offsets, module names, reliability marks and taint letters, the result carries exactly those values in order.',
  INP, 'all texts up to the stated length; all field values of the generated oopses', T + 'oops fixtures cover a handful of kernels only.',
  ['lib/koops_stacktrace.c', 'lib/koops_frame.c'], [('sr_koops_stacktrace_parse', 'lib/koops_stacktrace.c'), ('sr_koops_frame_parse and its parts', 'lib/koops_frame.c'), ('taint flag table', 'lib/koops_stacktrace.c')])
p('C06', 'The Python traceback parser is safe on every input and faithful on valid ones',
  'Parsing any text as a Python traceback or one of its frames terminates without touching memory outside it, and a traceback that is refused leaves the cursor where it was and loses no memory. For a traceback assembled from any file names, line numbers, function names, source lines and exception name, the result carries exactly those values, innermost frame first.',
  INP, 'all texts up to the stated length; all field values of the generated tracebacks', T + 'only complete tracebacks are sampled.',
  ['lib/python_stacktrace.c', 'lib/python_frame.c'], [('sr_python_stacktrace_parse', 'lib/python_stacktrace.c'), ('sr_python_frame_parse', 'lib/python_frame.c')])
p('C07', 'The Java stack trace parser is safe on every input and faithful on valid ones',
  'Parsing any text as a Java stack trace, thread or frame terminates without touching memory outside it, and on failure leaves the cursor where it was and loses no memory. For a trace assembled from any exception names, messages, method names, file names, line numbers, native markers and class paths, the result carries exactly those values.',
  INP, 'all texts up to the stated length; all field values of the generated traces', T + 'only a few complete traces are sampled.',
  ['lib/java_stacktrace.c', 'lib/java_thread.c', 'lib/java_frame.c'], [('sr_java_stacktrace_parse', 'lib/java_stacktrace.c'), ('sr_java_thread_parse', 'lib/java_thread.c'), ('sr_java_frame_parse', 'lib/java_frame.c')])
p('C08', 'The Ruby backtrace parser is safe on every input and faithful on valid ones',
  'Parsing any text as a Ruby backtrace or one of its frames terminates without touching memory outside it, and on failure leaves the cursor where it was and loses no memory but the message of a refused frame, which the caller may have to release. For a backtrace assembled from any file names, line numbers, function names, block and rescue levels and exception name, the result carries exactly those values.',
  INP, 'all texts up to the stated length; all field values of the generated backtraces', T + 'only a few complete backtraces are sampled.',
  ['lib/ruby_stacktrace.c', 'lib/ruby_frame.c'], [('sr_ruby_stacktrace_parse', 'lib/ruby_stacktrace.c'), ('sr_ruby_frame_parse', 'lib/ruby_frame.c')])
p('C09', 'The JavaScript stack parser is safe on every input and faithful on valid ones',
  'Parsing any text as a JavaScript (V8) stack or one of its frames terminates without touching memory outside it, and on failure leaves the cursor where it was and loses no memory. For a stack assembled from any exception name, function names, file names, line and column numbers, the result carries exactly those values.',
  INP, 'all texts up to the stated length; all field values of the generated stacks', T + 'only a few complete stacks are sampled.',
  ['lib/js_stacktrace.c', 'lib/js_frame.c'], [('sr_js_stacktrace_parse', 'lib/js_stacktrace.c'), ('sr_js_frame_parse*', 'lib/js_frame.c')])
p('C10', 'Frame comparison is a consistent order that sees every compared field',
  'For every frame type, comparing two frames is antisymmetric and transitive, gives zero exactly when all compared fields are equal, and does not change either frame. No difference between two field values, however large, is lost or reversed.',
  INP, 'all triples of frames with arbitrary integer fields and short or absent strings', T + 'integer truncation and overflow only show at particular differences.',
  ['lib/core_frame.c', 'lib/gdb_frame.c', 'lib/koops_frame.c', 'lib/python_frame.c', 'lib/java_frame.c', 'lib/ruby_frame.c', 'lib/js_frame.c'], [('*_frame_cmp', 'lib/*_frame.c')])
p('C11', 'Thread comparison is consistent and agrees with frame comparison',
  'For every thread type (also the single threaded ones, through the type-independent interface), comparing two threads is antisymmetric, gives zero for threads with equal frames and attributes, and non-zero when the number of frames or any frame differs. Package and verification-record comparisons are antisymmetric, transitive and zero only on equality.',
  INP, 'all pairs or triples of short threads with arbitrary frame contents', T + 'only single hand-made pairs are sampled.',
  ['lib/core_thread.c', 'lib/gdb_thread.c', 'lib/java_thread.c', 'lib/rpm.c', 'lib/gdb_sharedlib.c', 'lib/generic_thread.c'], [('*_thread_cmp', 'lib/*_thread.c'), ('sr_rpm_package_cmp', 'lib/rpm.c')])
p('C12', 'A duplicate is equal, complete and independent of its original',
  'Duplicating any frame, thread, stacktrace or list with or without its siblings gives an object that compares equal and carries every field. Either object can then be modified or freed without affecting the other, and all memory is freed exactly once.',
  HIST, 'all shapes up to the stated sizes with arbitrary contents and absent fields, either order of freeing', T + 'use after free and sharing show only for particular shapes and free orders.',
  ['lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c'], [('*_dup, *_free', 'lib/*.c')])
p('C13', 'Removing, cutting and appending list elements touches exactly those elements',
  'Removing a frame, the frames above or below a position, or all threads but one, and appending lists leave exactly the expected remaining elements in their original order. Removed elements are freed exactly once, a missing element is reported and nothing changes, and element counts stay consistent.',
  HIST, 'all list shapes up to the stated sizes and all positions', T + 'only one position of one shape is sampled per function.',
  ['lib/core_stacktrace.c', 'lib/core_thread.c', 'lib/gdb_stacktrace.c', 'lib/gdb_thread.c', 'lib/java_thread.c', 'lib/generic_frame.c', 'lib/normalize.c'], [('*_remove_frame*, *_remove_threads*, *_append', 'lib/*.c')])
p('C14', 'Serialised reports are always well-formed JSON whatever strings they carry',
  'For every problem type with a JSON form, serialising any stacktrace with any field values, including quotes, backslashes and control characters and including absent fields, yields one complete well-formed JSON value. Every string decodes back to exactly the original bytes.',
  INP, 'all field bytes and all combinations of absent fields within the stated sizes', T + 'fixtures contain few special characters and few absent-field combinations.',
  ['lib/json_utils.c', 'lib/*_stacktrace.c', 'lib/*_frame.c', 'lib/rpm.c', 'lib/operating_system.c'], [('sr_json_append_escaped', 'lib/json_utils.c'), ('*_to_json', 'lib/*.c')])
p('C15', 'Serialising a stacktrace to JSON and loading it back loses nothing',
  'For every problem type with a JSON form, loading the JSON written for a stacktrace gives a stacktrace with the same threads, frames and field values, and writing that again gives the same JSON. Excluded are gdb stacktraces and fields that have no JSON form: a core thread id, an oops reason, and marks or line numbers of a frame whose name or file is absent.',
  INP, 'all field values over the full integer ranges and short or absent strings', T + 'only one direction or a single fixture per type is sampled; large integers are not.',
  ['lib/core_*.c', 'lib/gdb_*.c', 'lib/koops_*.c', 'lib/python_*.c', 'lib/java_*.c', 'lib/ruby_*.c', 'lib/js_*.c', 'lib/json_utils.c'], [('*_to_json / *_from_json', 'lib/*.c')])
p('C16', 'Malformed or ill-typed JSON is refused without crashing',
  'Loading any JSON document as a stacktrace of any type either succeeds with a usable object or fails with an error message. It never crashes, reads or frees memory wrongly, or returns success for an object whose required members have the wrong type.',
  INP, 'all documents of the expected shape in which any member is absent or of any JSON type', T + 'the combination of member, position and wrong type is not sampled.',
  ['lib/*_stacktrace.c', 'lib/*_thread.c', 'lib/*_frame.c', 'lib/report.c', 'lib/rpm.c', 'lib/json_utils.c'], [('*_from_json', 'lib/*.c')])
p('C17', 'Thread distances stay in range, vanish on equal threads and are symmetric',
  'Every normalised distance between two threads lies between zero and one, and computing it changes neither thread. The edit and Jaccard distances of threads whose frames all have known functions are zero for threads with equal frames and do not depend on the order of the arguments.',
  INP, 'all pairs of short threads, every equality pattern between frames', T + 'only a few patterns of matching frames are sampled.',
  ['lib/distance.c'], [('sr_distance and its three algorithms', 'lib/distance.c')])
p('C18', 'Each thread distance equals its mathematical definition',
  'The edit distance between two threads equals the minimum number of insertions, deletions and substitutions, and transpositions of adjacent frames (no frame edited twice), that turn one frame list into the other, normalised by the longer length. The Jaccard distance equals one minus shared distinct frames over all distinct frames, with multiplicities ignored.',
  INP, 'all pairs of threads up to the stated length, every equality pattern between frames', T + 'a wrong recurrence agrees with the right one on most small samples.',
  ['lib/distance.c'], [('distance_levenshtein, distance_jaccard_index', 'lib/distance.c')])
p('C19', 'Distance matrices and their parts cover every pair exactly once',
  'Setting and reading any pair of distinct positions in a distance matrix, in either order, addresses one cell that no other pair shares. Splitting a matrix into any number of parts covers every pair exactly once, and merging the computed parts equals computing the matrix directly; parts not computed yet or computed for another matrix are refused.',
  INP, 'all sizes up to the stated bound, all pairs, all part counts', T + 'index arithmetic is sampled at two sizes.',
  ['lib/distance.c'], [('get_distance_position', 'lib/distance.c'), ('sr_distances_part_*', 'lib/distance.c')])
p('C20', 'Clustering is a permutation-preserving hierarchy and cuts respect it',
  'Clustering any distance matrix gives a dendrogram that lists every object exactly once with merge levels within the range of the distances; for a complete matrix the closest groups by mean distance are joined first, at that mean distance. Cutting it at any level yields disjoint clusters that contain exactly the groups joined below that level and of at least the requested size.',
  INP, 'all distance matrices up to the stated size with arbitrary distances, all levels and minimum sizes', T + 'ties and merge orders are sampled once.',
  ['lib/cluster.c'], [('sr_distances_cluster_objects', 'lib/cluster.c'), ('sr_dendrogram_cut', 'lib/cluster.c')])
p('C21', 'User-space normalisation only drops or simplifies known noise frames',
  'Normalising any gdb or core thread keeps the remaining frames in their original order, removes the frames of process exit and abort machinery and known bookkeeping functions, and keeps every frame of a function it does not know. It never frees a frame twice and never removes a frame of a thread it was not asked to touch.',
  INP, 'all short threads over known and unknown function names and libraries', T + 'the order of known and unknown frames is combinatorial.',
  ['lib/normalize.c', 'lib/normalize_hash.gperf'], [('sr_normalize_*', 'lib/normalize.c')])
p('C22', 'Kernel oops normalisation removes exactly the noise frames',
  'Normalising any kernel oops keeps, in their order and with unchanged contents, exactly the frames whose function is not on the noise list or that belong to a module, and cuts every function name at its first dot (a compiler suffix) before it is looked up. Nothing else of the oops changes.',
  INP, 'all short oopses over listed, unlisted and suffixed names, with and without modules', T + 'suffix and module combinations are not sampled.',
  ['lib/normalize.c'], [('sr_normalize_koops_stacktrace', 'lib/normalize.c')])
p('C23', 'Duplicate hashes are deterministic, read-only and depend only on hashed content',
  'Computing the duplicate hash or backtrace hash of any thread or stacktrace changes nothing, and the hash is the digest of a text that consists of exactly the documented fields: for the duplicate hash those of the requested number of leading frames of the normalised thread after the prefix, for the backtrace hash those of the stacktrace, its threads and frames. So equal inputs hash equally and inputs that differ in a hashed field have different texts.',
  INP, 'all short threads of every type, all frame limits and flags', T + 'only fixed digests of fixtures are compared.',
  ['lib/generic_thread.c', 'lib/generic_stacktrace.c', 'lib/*_frame.c', 'lib/*_thread.c', 'lib/*_stacktrace.c'], [('sr_thread_get_duphash', 'lib/generic_thread.c'), ('sr_stacktrace_get_bthash', 'lib/generic_stacktrace.c')])
p('C24', 'Package name parsing inverts package name formatting',
  'Any name, version, release and architecture joined in the usual dash-and-dot form is split back into exactly those parts, and an epoch prefix is honoured. Text that is not of that form, or whose epoch is not a number of 32 bits, is refused without touching the outputs or leaking or double-freeing memory (white space or a sign before an epoch is neither promised nor refused).',
  INP, 'all names up to the stated length over letters, digits, dots, dashes and colons', T + 'dash and dot placement decides the split and is sampled a few times.',
  ['lib/rpm.c', 'lib/abrt.c'], [('sr_rpm_package_parse_nvr, _nevra', 'lib/rpm.c')])
p('C25', 'Sorting and deduplicating package lists keeps every distinct package once',
  'Sorting a package list permutes it into comparison order without losing or inventing packages. Removing duplicates keeps exactly one of each run of equal packages and frees the others, merging their roles.',
  INP, 'all lists up to the stated length with arbitrary equality patterns', T + 'one list is sampled.',
  ['lib/rpm.c', 'lib/utils.c'], [('sr_rpm_package_sort, _uniq', 'lib/rpm.c'), ('sr_struniq', 'lib/utils.c')])
p('C26', 'Mapped-library lists are parsed into exactly the packages they name',
  'Parsing a list of mapped libraries with their packages yields one entry per valid line with exactly the name, epoch, version, release, architecture and install time written there, in order, whether or not the last line ends with a newline. Malformed lines are skipped without crashing or corrupting the entries around them.',
  INP, 'all short lists of well-formed and malformed lines', T + 'malformed lines next to good ones are not sampled.',
  ['lib/abrt.c', 'lib/rpm.c'], [('sr_abrt_parse_dso_list', 'lib/abrt.c')])
p('C27', 'Operating system descriptions are parsed exactly',
  'For any os-release text, each well-formed KEY=VALUE line is delivered once with quotes and escapes removed, and comments or malformed lines are skipped without disturbing others. For any release sentence of the usual form the name and version are extracted exactly, and the recognised keys end up in the right fields (one of its values for a key that is repeated, "rawhide" for a Rawhide version).',
  INP, 'all texts up to the stated length and generated release files', T + 'quoting and malformed-line combinations are not sampled.',
  ['lib/utils.c', 'lib/operating_system.c'], [('sr_parse_os_release', 'lib/utils.c'), ('sr_operating_system_parse_*', 'lib/operating_system.c')])
p('C28', 'The crash thread and crash frame are selected by the documented rule',
  'The crash thread is the one recorded as such, the only thread, or the thread with the identified number; failing these, for gdb the thread whose innermost frame matches the crash frame (of several such threads one that ends in a process-terminating function), for core the first thread that contains a process-terminating function; otherwise none. The gdb crash frame is an independent copy of the innermost frame that normalisation leaves in the crash thread, and there is none if nothing is left.',
  INP, 'all short stacktraces over crash-relevant frame names', T + 'only a few thread arrangements are sampled.',
  ['lib/gdb_stacktrace.c', 'lib/core_stacktrace.c', 'lib/gdb_thread.c'], [('sr_gdb_stacktrace_find_crash_thread', 'lib/gdb_stacktrace.c'), ('sr_core_stacktrace_find_crash_thread', 'lib/core_stacktrace.c')])
p('C29', 'Quality ratings lie in range and count exactly the resolved frames',
  'The quality of a gdb or Java thread, and of a gdb stacktrace, is always between zero and one and is the documented share of frames whose function and source are known (for Java: that are native or name a source file); a thread without frames rates one and a stacktrace without frames zero. Resolving a frame never lowers the rating.',
  INP, 'all short stacktraces over known, unknown and partly known frames', T + 'fixtures rate a few whole traces.',
  ['lib/gdb_thread.c', 'lib/gdb_stacktrace.c', 'lib/java_thread.c'], [('sr_gdb_thread_quality_*', 'lib/gdb_thread.c'), ('sr_java_thread_quality_*', 'lib/java_thread.c'), ('sr_gdb_stacktrace_quality_*', 'lib/gdb_stacktrace.c')])
p('C30', 'Shared library and mapping lists are parsed exactly and addresses resolved',
  'Parsing a gdb shared-library table or a module listing yields exactly the ranges, symbol states, build ids and names written there, for every well-formed row, and terminates inside the text for any input. Looking up an address returns the entry whose range contains it and nothing when no range does.',
  INP, 'all texts up to the stated length, generated rows, all addresses', T + 'range edges and malformed rows are not sampled.',
  ['lib/gdb_sharedlib.c', 'lib/unstrip.c'], [('sr_gdb_sharedlib_parse, _find_address', 'lib/gdb_sharedlib.c'), ('sr_unstrip_*', 'lib/unstrip.c')])
p('C31', 'Home directory names never survive path anonymisation',
  'A path under a user home directory is rewritten so that the user name is replaced, everything after it is kept, and every other path is returned unchanged.',
  INP, 'all paths up to the stated length', T + 'two paths are sampled.',
  ['lib/utils.c'], [('anonymize_path', 'lib/utils.c')])
p('C33', 'A report round-trips through JSON with all its parts',
  'Writing a report of any type but gdb, whose stacktraces have no JSON form, with any component, packages, operating system, authentication entries, user flags (not stored for kernel oopses), serial and problem data, and loading it back gives an equal report. Report type names and types map to each other one to one. Any JSON value is either loaded or refused with a message, and no memory is lost.',
  INP, 'all report types, absent or present parts, arbitrary short strings', T + 'one fixture per type is sampled.',
  ['lib/report.c', 'lib/rpm.c', 'lib/operating_system.c'], [('sr_report_to_json, sr_report_from_json', 'lib/report.c'), ('sr_report_type_*', 'lib/report.c')])
p('C34', 'File reading and writing report every failure and never return partial data',
  'Whatever subset of open, seek, read, write and close calls fails or is short, loading a file either returns its complete contents or nothing with an error message, and saving reports success only if everything was written. Every descriptor opened is closed exactly once and no memory is lost or freed twice.',
  FAULT, 'every outcome of each system call, all file sizes within the bound', 'The tests use a real file system in which these calls do not fail.',
  ['lib/utils.c'], [('sr_file_to_string, sr_string_to_file', 'lib/utils.c')])
p('C35', 'Text helpers produce exactly the described text',
  'Indenting, path joining, hexadecimal rendering and removal of adjacent duplicate strings produce exactly the described output for every input and never write outside their buffers.',
  INP, 'all texts up to the stated length', T + 'two or three strings are sampled.',
  ['lib/utils.c'], [('sr_indent*, sr_build_path, sr_bin2hex, sr_struniq', 'lib/utils.c')])
p('C36', 'The generated noise-function tables contain exactly the listed names',
  'A function name is treated as removable by normalisation exactly when it is in the source list for that library; no other string of any content matches, and the names on the list as pinned with the check stay on it.',
  INP, 'all names up to the stated length and all listed names', T + 'hash collisions and near-misses of listed names are not sampled.',
  ['lib/normalize_hash.gperf', 'lib/normalize.c'], [('generated perfect hash tables', 'lib/normalize_hash.gperf'), ('is_removable', 'lib/normalize.c')])
p('C37', 'JavaScript engine and runtime identification is encoded without loss',
  'Every combination of JavaScript engine and runtime is stored, written to JSON and loaded back unchanged, and their names map one to one. Unknown names are refused.',
  INP, 'all engines, runtimes and names', T + 'one combination is sampled.',
  ['lib/js_platform.c', 'lib/js_stacktrace.c'], [('sr_js_platform_*', 'lib/js_platform.c')])
p('C38', 'Problem directories are turned into reports without loss or crash',
  'Building a report from a problem directory whose files are present, absent, empty or malformed in any combination either yields a report carrying exactly the data of the present files or fails with an error message. It never crashes and never leaks or double-frees.',
  FAULT, 'every subset of present files and short arbitrary contents', 'The tests use one or two complete directories.',
  ['lib/abrt.c', 'lib/operating_system.c', 'lib/rpm.c'], [('sr_abrt_report_from_dir and helpers', 'lib/abrt.c')])
p('C39', 'Short texts, reasons and rendered frames describe exactly the stacktrace',
  'The short text lists the leading frames of the crash thread (for gdb: of that thread after naming libraries, normalisation and optimisation) in order with their function names up to the requested number. The reason names the executable and signal (core), the normalised top function and module (kernel oops), the exception and where it occurred (Java: bottom frame of the last thread; Python: last frame; Ruby and JavaScript: first frame); gdb has none. A frame, thread or gdb stacktrace rendered as text contains exactly the present fields in the documented arrangement. The list of functions of a gdb thread is read back as the same functions and libraries, a rendered Java thread with one exception is read back as the same thread. Naming libraries gives a gdb frame the short name of the library that contains its address and leaves the others. None of this fails on absent fields, changes its argument or loses memory.',
  INP, 'all short stacktraces of every type with absent or arbitrary fields, all frame limits', T + 'one limit of one fixture per type is sampled.',
  ['lib/generic_stacktrace.c', 'lib/*_stacktrace.c', 'lib/*_frame.c', 'lib/gdb_thread.c', 'lib/java_thread.c'], [('sr_stacktrace_to_short_text, sr_stacktrace_get_reason', 'lib/generic_stacktrace.c'), ('*_append_to_str', 'lib/*_frame.c'), ('sr_gdb_thread_format_funs, sr_gdb_thread_parse_funs, sr_gdb_thread_set_libnames', 'lib/gdb_thread.c')])
p('C40', 'The type-independent interface agrees with each concrete type',
  'Walking, counting, linking, comparing, duplicating, normalising, removing frames from, parsing, serialising and freeing any stacktrace, thread or frame through the type-independent interface has exactly the effect of doing it through the interface of its concrete type (gdb frames are compared without their numbers), including the error message of a refused text; frames and threads of different types never compare equal and are ordered consistently.',
  INP, 'all seven problem types, short arbitrary contents', T + 'the dispatch tables are sampled for some types only.',
  ['lib/generic_stacktrace.c', 'lib/generic_thread.c', 'lib/generic_frame.c'], [('dispatch tables', 'lib/generic_*.c')])
p('C41', 'Core dump unwinding turns everything the unwinder reports into the stacktrace',
  'Whatever modules, threads and frames the unwinding library (elfutils) reports for a core file or a dying process, and whichever one of its calls or of the system calls around it fails, the result is either the stacktrace of exactly those threads and frames in order, or nothing and an error message. Each frame has its address, the build id and file name of its module, the offset in it and the demangled function name; frames from __libc_start_main outwards are left out, and of a longer thread the 256 outermost frames are kept (with gdb too). The signal is that of the first usable PRSTATUS note with a signal; a dying process is seized and the core on standard input closed before it is unwound. Every session, ELF handle and descriptor is released exactly once and no memory is lost.',
  FAULT, 'all short lists of modules, threads, frames, notes with arbitrary addresses, ids and signals, threads around the limit of 256 frames, every single failing call', 'The tests unwind nothing: what elfutils and ptrace report, and that they fail, cannot be arranged there.',
  ['lib/core_unwind.c', 'lib/core_unwind_elfutils.c', 'lib/abrt.c'], [('sr_parse_coredump, sr_core_stacktrace_from_core_hook*', 'lib/core_unwind_elfutils.c'), ('sr_core_stacktrace_from_gdb, open_coredump, get_signal_number', 'lib/core_unwind.c'), ('sr_abrt_create_core_stacktrace*', 'lib/abrt.c')])
p('C42', 'Disassembled code, call graphs and unwinding entries are interpreted exactly',
  'Given the instructions of functions as text, an instruction is recognised as one of a list of mnemonics exactly when its first word is in the list, and its single address operand is read exactly and anything else refused. The addresses a function calls are listed once each in order; a call graph holds every function requested, or reachable from those requested, exactly once with its calls, and a function that cannot be found or disassembled is reported without losing the graph made so far. Unwinding and linkage table entries are found for exactly the addresses they cover (for ranges that do not wrap around) and written as well-formed JSON. No memory is touched out of bounds or lost.',
  INP, 'all short instruction texts, all short lists of entries with arbitrary addresses, all call relations between three functions', 'No test exercises call graphs (this build has no disassembler) and few instruction texts are sampled.',
  ['lib/disasm.c', 'lib/callgraph.c', 'lib/elves.c'], [('sr_disasm_get_callee_addresses', 'lib/disasm.c'), ('sr_callgraph_extend', 'lib/callgraph.c'), ('sr_elf_find_fde_for_*', 'lib/elves.c')])
p('C43', 'Python objects mirror the C data, own it exactly once and fail with exceptions',
  'Every operation of the Python module on stacktraces, threads, frames, shared libraries, packages, operating systems, reports, distances and dendrograms either returns a result or raises an exception, never both or neither, and never crashes. Setting an attribute to a value of its type (None where the attribute can be absent) makes reading it give that value and no other attribute change; other values and deletion are refused without effect. After any history of editing the lists of threads, frames and libraries, what an object computes (text, JSON, hashes, comparison, duplicates, reports, distances, normalisation, crash frames) is what the C library computes for the frames in its lists at that moment. Objects obtained from an object stay valid when it is dropped; when the last reference is gone all memory and all references are given back exactly once. Not claimed: the same frame object listed twice, pickling of distance parts, the module initialisation.',
  HIST, 'all short histories (two or three operations) of edits, queries and drops on small objects of every type, all attributes with values of every kind, all texts of a few bytes and valid texts with one arbitrary byte', 'Binding tests run fixed scripts, and neither wrong reference counts nor stale frames show in their results.', ['python/*.c'],
  [('attribute getters and setters', 'python/py_common.c'), ('*_prepare_linked_list, *_prepare_thread_list, dealloc', 'python/py_*_stacktrace.c'), ('report', 'python/py_report.c'), ('distances and dendrograms', 'python/py_metrics.c')])
p('C44', 'A core stacktrace made from gdb and unstrip output places every frame',
  'sr_core_stacktrace_create: from any backtrace printed by gdb and any module list printed by eu-unstrip the core stacktrace has the same threads and frames in the same order, each with the address gdb printed, the function name unless it is unknown or absent, and the build id, file name and offset of the module that contains the address (nothing when no module does). Without modules or with a text that is no backtrace nothing is made; no memory is lost.',
  INP, 'all short backtraces (1-2 threads, known, unknown, address-less and signal frames) and module lists with arbitrary addresses within the bounds', 'No test calls it at all.',
  ['lib/core_stacktrace.c', 'lib/unstrip.c', 'lib/gdb_stacktrace.c'], [('sr_core_stacktrace_create', 'lib/core_stacktrace.c'), ('sr_unstrip_find_address', 'lib/unstrip.c')])
p('C45', 'Queries of the rpm database return every matching package with its data',
  'sr_rpm_package_get_by_name and sr_rpm_package_get_by_path ask the name index or the file index of the rpm database for exactly the key of the caller and return every package found, in the order of the database, each with the name, version, release, architecture, epoch (0 when the package has none) and installation time recorded there. When the configuration cannot be read, or a package lacks one of the other values, nothing is returned and there is an error message; finding no package is no error. Every handle of librpm is given back exactly once, a header is not used after the iterator left it, and no memory is lost.',
  FAULT, 'all short databases: up to two packages (three thorough) with arbitrary strings, epochs and times, with or without an epoch, one value of one package missing, the configuration unreadable', 'The tests have no rpm database to ask.',
  ['lib/rpm.c'], [('sr_rpm_package_get_by_name, sr_rpm_package_get_by_path, header_to_rpm_info', 'lib/rpm.c')])
p('C46', 'The linkage table and unwinding entries of an ELF file are read exactly',
  'sr_elf_get_procedure_linkage_table returns one entry per complete 16-byte slot of .plt after the first, with the address of the slot and the name of the symbol its relocation refers to, whether the relocations say that they apply to .plt or to .got.plt. sr_elf_get_eh_frame returns one entry per function description of .eh_frame, in order, whose start is relative to the address of the first executable segment (for absolute and for pc-relative pointers, of 4 and 8 bytes) and whose length is the recorded one. A file that cannot be opened or read, lacks the sections, their contents or an executable segment, has an unknown pointer encoding, an entry too short for its values, or a reference to a relocation, symbol or common entry that does not exist gives nothing and an error message. No byte outside the sections is read; the descriptor and the ELF handle are given back exactly once; no memory is lost. Negative absolute addresses and pointer bases other than these two are not claimed.',
  FAULT, 'all contents of short sections (up to two or three slots with arbitrary bytes and a partial one, up to two common and two function entries with arbitrary values), arbitrary section and segment addresses, every single failing call of libelf', 'The tests read no ELF file: layouts, truncated sections and failures of libelf cannot be arranged there.',
  ['lib/elves.c'], [('sr_elf_get_procedure_linkage_table', 'lib/elves.c'), ('sr_elf_get_eh_frame, read_cie', 'lib/elves.c')])
TECH = 'symbolic execution of the LLVM IR of the real code, every branch and assertion decided by an SMT solver (z3, cvc5)'
NOTE = 'Holds for every input within the bounds reported in the evidence file (bounded: nothing is claimed beyond them); trusts clang-18 -O1, the executor, and the libc/glib/json-c models, which every run cross-checks by replaying solver-generated paths against the real libraries.'
def main():
    try:
        import props; have = set(props.PROPS)
    except Exception as e:
        print('props:', e); have = set()
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            d = dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                     anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']]))
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(d) + '\n')
    ch = []; na = []
    for x in P:
        if x['claimed'] and x['id'] in have:
            ch.append(dict(property=x['id'], quick_cmd='python3 run.py %s' % x['id'], thorough_cmd='python3 run.py %s --tier thorough' % x['id'], technique=TECH, level='model_checking', level_note=x['note'] or NOTE))
        else:
            na.append(dict(property=x['id'], reason=x['reason'] or 'No check yet: harness not built at this commit.'))
    json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=ch, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(ch), 'claimed', len(na), 'not claimed')
if __name__ == '__main__': main()
