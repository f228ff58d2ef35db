#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit titles, statements, anchors)."""
import json, os
R = "src/reader.rs"; W = "src/writer.rs"; C = "crates/pica-cli/src/commands/"
K = "crates/pica-cli/src/"
P = []
def p(id, title, statement, over, text, why, mech):
    files = sorted({m[1].split(":")[0] for m in mech})
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=["exit status, stdout, stderr and files left by the pica process"] if id < "C24" or id == "C26" else ["public reader / writer API"],
                     hook_needed=None)))

p("C01", "Results do not depend on how the input bytes are delivered",
  "For every command, the exit status, diagnostics and every output depend only on the sequence of input bytes: not on how reads are cut into pieces or interrupted by signals, nor on whether the same records come from standard input, a plain file, a .gz file, a .gz file of several concatenated members, or are spread over several files given in order. A record, line or field is never lost, duplicated, split or merged at a read boundary or between two inputs.",
  ["inputs", "schedules", "fault_sequences"],
  "all commands x all inputs (record sizes around and beyond every buffer size) x all sequences of short reads and EINTR x all groupings of the records into stdin / files / gzip files / gzip members",
  "Tests feed small fixed files through ordinary reads that return everything at once; no test makes a read return a fragment, interrupts one, or cuts a gzip file into members.",
  [("record reader, line accumulation", R+":next_byte_record"), ("transparent gzip", R+":from_path"), ("invalid's own reader", C+"invalid.rs:reader"), ("file loop of every command", C+"filter.rs:execute")])
p("C02", "Exit status 0 means every output byte was accepted by the system",
  "Whenever a command exits with status 0, each of its outputs (stdout, -o file, tee file, every partition or chunk file, report) holds exactly the complete result, however the operating system took the bytes: short writes and interrupted calls are invisible in the result. If creating, writing or finishing any output failed (I/O error, full disk or device, quota, no such directory, permission), the command exits with status 2 and an error message, except that a closed pipe on standard output ends it quietly.",
  ["fault_sequences", "schedules", "inputs"],
  "all commands x all inputs x all sequences of short writes, EINTR, failing opens/writes at any call, and all disk capacities",
  "No test makes a write fail or be short, and the moments that matter (the last buffered bytes, the trailer of a gzip stream, the closing bytes of a document) are only written when the command finishes.",
  [("buffered record writer finish", W+":PlainWriter"), ("gzip writer finish", W+":GzipWriter"), ("csv flush", C+"select.rs:execute"), ("convert writers", C+"convert/xml.rs:finish"), ("partition closes all writers", C+"partition.rs:execute"), ("exit status mapping", K+"main.rs:main")])
p("C03", "A read failure or damaged gzip input is never taken for end of input",
  "If opening or reading any input fails (I/O error at any read, missing or unreadable file, truncated or corrupted gzip stream), the command exits with status 2 and an error message that is printed to standard error, also with --skip-invalid. It never reports success as though the records behind the failure did not exist, and this holds as well for filter expression files, allow/deny lists, rule sets and the configuration file.",
  ["fault_sequences", "inputs"],
  "all commands x all inputs x all read/open errors at any call x all truncation points and bit flips of gzip data (a cut exactly between two members is a complete file)",
  "The tests only read intact files; --skip-invalid turns parse errors into skips and only fault injection shows whether an I/O error takes the same path.",
  [("parse errors vs I/O errors", R+":skip_parse_err"), ("gzip decoding", R+":from_path"), ("filter sets", K+"utils.rs:read_filter_list"), ("expression file", C+"filter.rs:execute"), ("configuration", K+"config.rs:from_path")])
p("C04", "A failed or killed run leaves only a prefix, and a rerun repairs it",
  "Whenever a command that streams its result fails or is killed at any point, each output holds a prefix of the bytes a complete run would have written (for gzip: decodes to such a prefix; with --append: preceded by the untouched old contents), never reordered, foreign or stale bytes. Running the same command again on the same inputs then produces exactly the complete result, no matter what the interrupted run left behind.",
  ["crash_points", "fault_sequences", "inputs"],
  "all record-writing and row-writing commands x all inputs x process death before or in the middle of any I/O call, or a persistent failure from any call on",
  "Tests never kill the process or look at a half-written output; the crash points are every I/O call of every run.",
  [("truncate on open", W+":from_path"), ("buffered writing in order", W+":PlainWriter"), ("partition / split truncate chunk files", C+"split.rs:execute"), ("csv outputs", C+"select.rs:writer")])
p("C05", "--append keeps the old contents and adds exactly the new result",
  "After any sequence of runs that write to the same file with --append (filter, concat, slice, count, select; also --tee), the file holds the concatenation of the individual results in order of the runs, byte for byte for plain files and in decoded form for .gz files. A run without --append leaves only its own result, a failed run loses nothing that was there before, and every pica command reads the resulting file, plain or .gz, as the concatenation.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of appending and overwriting runs of different commands on one file, with failures in between and all write granularities",
  "Tests append at most once to a plain file; histories of several runs and appended gzip files read back by pica are never exercised.",
  [("append flag", W+":from_path"), ("reading concatenated members", R+":from_path"), ("select/count append", C+"select.rs:writer"), ("count append", C+"count.rs:execute")])
p("C06", "--tee writes the same records to the file as to standard output",
  "With --tee, filter and concat write to the named file exactly the bytes they write to standard output (or to the -o file of concat), under every combination of their other options. If either of the two outputs fails, the command does not report success, and the tee file still holds only a prefix of the result.",
  ["inputs", "fault_sequences"],
  "all inputs, option combinations, write granularities and failures of either output",
  "The tests compare one or two small files; they never combine tee with limit, unique, field selection and append, nor make one of the two outputs fail.",
  [("filter tee", C+"filter.rs:execute"), ("concat tee", C+"concat.rs:execute")])
p("C07", "filter writes exactly the matching records, in input order, unaltered",
  "filter writes those and only those records whose fields satisfy the expression (combined with --and/--or/--not, inverted by --invert-match, restricted by allow and deny lists), each once, in input order and byte for byte, until --limit records have been written. With --keep and --discard the written records lose exactly the fields not selected, and matching always refers to the whole original record; a filter and its inversion split the input completely.",
  ["inputs", "programs"],
  "all record streams x all filter expressions and option combinations, run with arbitrary read and write granularity",
  "The tests run a few dozen expressions on a handful of records; the result has to be right for every combination of expression, options and record.",
  [("execute loop", C+"filter.rs:execute"), ("record matcher", "src/matcher/record.rs:is_match"), ("subfield matcher", "src/matcher/subfield/mod.rs:is_match"), ("filter sets", K+"utils.rs:check"), ("field predicates", "src/primitives/record.rs:keep")])
p("C08", "partition files hold each record once per distinct key value, in order",
  "partition writes, for every distinct value v of the path, a file (template or default name with v, in the output directory) that holds exactly the matching records that carry v, each once, in input order and unaltered; records without the path go nowhere. Nothing else is created, every file is complete when the command reports success, and nothing outside the output directory is ever written, whatever the values are.",
  ["inputs", "fault_sequences"],
  "all record streams with repeated, unusual or many key values x options x write faults on any of the files",
  "The tests partition one sample file; they contain no value with a path separator, no two values with the same file name and no failing output file.",
  [("value deduplication and writer map", C+"partition.rs:execute")])
p("C09", "split chunks concatenate to the matching input, all full but the last",
  "The files split writes, taken in the order of their numbers, concatenate to exactly the matching records in input order; every file but the last holds exactly CHUNK_SIZE records and the last between 1 and CHUNK_SIZE (a single empty file if nothing matches). The files are numbered from 0 without gaps, follow --template and --gzip, and each is complete when the command reports success.",
  ["inputs", "fault_sequences"],
  "all record streams, chunk sizes, filter options and limits x write and open failures on any chunk file",
  "The tests split one file with one chunk size; boundary counts (multiples of the chunk size, limit on a boundary) and failing chunk files are not covered.",
  [("chunk rotation", C+"split.rs:execute")])
p("C10", "Invalid lines are located exactly, skipped alone, and listed by invalid",
  "Without --skip-invalid the first line that is not a record stops a command with status 2 and a message that names its line number within its input and that input; everything before it has been processed. With --skip-invalid (option or configuration) every command behaves exactly as if those lines were not in the input at all (slice counts them as positions), and `pica invalid` writes exactly those lines, unaltered and in order, so that valid and invalid lines together are the input.",
  ["inputs", "schedules"],
  "all streams of valid and invalid lines (any bytes, any length, missing final newline, spread over several inputs) x all commands",
  "The tests know one dump file with a few invalid lines; the positions, kinds and lengths of invalid lines, several inputs and read boundaries are not varied.",
  [("line counter and message", R+":next_byte_record"), ("skip test", R+":skip_parse_err"), ("invalid", C+"invalid.rs:execute"), ("slice positions", C+"slice.rs:execute")])
p("C11", "No input, expression or failure makes pica panic, abort or hang",
  "For every input, every option combination the command line accepts and every failure of the operating system, a command ends by itself with status 0, 1 or 2, and status 2 comes with a message on standard error. It never panics, aborts, overflows, loops forever or stops making progress once input is available and faults have ceased.",
  ["inputs", "fault_sequences", "programs", "configurations"],
  "all byte streams (also non-PICA, invalid UTF-8, very long lines), expressions, options, configuration files and fault sequences",
  "Tests cover inputs that somebody thought of; panics sit in unwrap/expect on unusual values and on failing calls.",
  [("unwrap in convert xml", C+"convert/xml.rs:write_byte_record"), ("unwrap in print", C+"print.rs"), ("ppn expect", C+"concat.rs:record_key"), ("builder asserts", W+":WriterBuilder"), ("config parsing", K+"config.rs:from_path")])
p("C12", "A reached limit or a closed output pipe ends the command at once",
  "As soon as --limit is reached, the command finishes successfully without waiting for more input, even if its standard input stays open and silent. When the reader of standard output goes away, the command stops reading soon afterwards and exits with status 0 and no error message, whatever the command and its output format.",
  ["schedules", "fault_sequences", "inputs"],
  "all commands writing to stdout x every point at which the pipe closes x stdin that stalls or never ends",
  "A test harness always closes stdin and reads all of stdout, so neither a stalled producer nor a vanished consumer ever occurs.",
  [("limit breaks", C+"filter.rs:execute"), ("broken pipe mapping", K+"main.rs:main"), ("slice end", C+"slice.rs:execute")])
p("C13", "Same input and options give the same output on every run",
  "Two runs of the same command line on the same files produce byte-identical outputs, diagnostics and exit status, whatever the hash seeds, memory layout, time of day, clock behaviour and environment noise of the process (sample without --seed excepted). In particular no output order comes from iterating a hash table.",
  ["schedules", "inputs", "configurations"],
  "all commands and inputs x all random seeds handed to the process, address layouts and clocks",
  "A test runs once; nondeterminism from hash order is invisible unless the seeds are controlled and varied.",
  [("frequency ordering", C+"frequency.rs:execute"), ("describe columns and rows", C+"describe.rs:execute"), ("check rule order and link/duplicates state", C+"check/set.rs"), ("link findings", C+"check/checks/link.rs:finish")])
p("C14", "sample draws exactly min(n, N) records of the input and honours --seed",
  "sample writes exactly min(SAMPLE_SIZE, number of matching records) records, each a byte-exact copy of a distinct matching input record; if there are at most SAMPLE_SIZE of them all are written in input order. With --seed the choice depends only on the seed and the sequence of matching records, and without it every matching record can be drawn.",
  ["inputs", "schedules"],
  "all record streams, sizes, seeds, limits and system randomness",
  "The tests pin the output for one seed on one file, which says nothing about records drawn twice, never, or too few.",
  [("reservoir", C+"sample.rs:execute")])
p("C15", "concat keeps everything once: with --unique exactly first occurrences",
  "concat writes all records of all inputs, in the order of the arguments and within each input in its order, byte for byte. With --unique exactly the first record of every distinct key is written: the PPN for strategy idn (records without one are left out), the whole content for strategy hash.",
  ["inputs", "histories"],
  "all groupings of records with repeated, missing and empty keys into inputs",
  "The tests use a few files with a single duplicate; repeated and missing keys across several inputs are not explored.",
  [("record_key and seen set", C+"concat.rs:record_key"), ("sha256", "src/record.rs:sha256")])
p("C16", "slice writes exactly the records at the requested positions",
  "slice writes exactly the matching records whose position (counted from 0 over all inputs; a skipped invalid line takes up a position) lies in [start, end), or, with --length n, the first n matching records from position start on. --limit cuts this off after as many records, and output order and bytes are those of the input.",
  ["inputs"],
  "all record streams with invalid lines in any places x start, end, length, limit x filters x several inputs",
  "The tests slice one dump at a few positions; the interplay of skipped lines, filters, several inputs and limits is not explored.",
  [("position counter and range", C+"slice.rs:execute")])
p("C17", "A progress bar never changes results",
  "Running any command with --progress yields the same exit status and the same outputs as without it, on a terminal or not, whatever the clock does; standard output carries none of the progress display.",
  ["inputs", "schedules"],
  "all commands with -p x tty or not x steady, jumping or frozen clocks x faults",
  "Tests run without a terminal, where the progress bar is hidden, and with an ordinary clock.",
  [("progress", K+"progress.rs:update"), ("early-return paths", C+"filter.rs:execute")])
p("C18", "The configuration survives crashes and failures as old or new, never torn",
  "At every moment, including after the death of `pica config` at any point or the failure of any of its calls, the configuration file is either the complete old or the complete new one, so that no later command fails or panics because of it; when `pica config` reports success the new value is what later commands see. Setting or unsetting one option leaves the other untouched, and an unreadable or malformed configuration file is reported as an error with status 2.",
  ["crash_points", "histories", "fault_sequences"],
  "all histories of config set/unset/get with process death, power loss of unsynced data or I/O errors at any call",
  "Tests call `config` once on a healthy file system; the torn states exist only between two system calls.",
  [("save", K+"config.rs:save"), ("load", K+"config.rs:from_path"), ("config command", C+"config.rs:execute")])
p("C19", "A command changes nothing but the outputs it was told to write",
  "Whatever the inputs and whatever fails, a command creates, truncates or modifies no file other than its declared outputs (-o, --tee, the files of partition and split in their output directory, the configuration file for `config` set/unset); input files, lists, rule sets and the configuration stay byte-identical, and no temporary file is left behind by a run that ends by itself.",
  ["inputs", "fault_sequences", "configurations"],
  "all commands, inputs (also key values with path separators) and faults",
  "Tests look at the expected output only, never at the rest of the file system.",
  [("partition file names", C+"partition.rs:execute"), ("split file names", C+"split.rs:execute"), ("config save", K+"config.rs:save")])
p("C20", "check reports exactly the records that break a rule, once each",
  "The report of check holds one row per record and violated rule (allow, datetime, duplicates, filter, isni, iso639-2b, jelc, link, unicode) with the record's PPN, the rule's id and level and the offending values, for exactly the rules selected by --rule, --rule-set and --tags and the records inside the rule set's scope; duplicates compares the values within a record, link findings take all records of all inputs into account. Nothing is reported for records that satisfy their rules, and with termination `fast` a record's processing ends with its first violated rule.",
  ["inputs", "programs"],
  "all record streams over several inputs x all rule sets of the supported kinds",
  "The tests check one rule at a time on small fixed data; cross-record rules, scopes, several rule sets and their order are barely covered.",
  [("rule set loop", C+"check/set.rs"), ("rule dispatch", C+"check/rule.rs"), ("duplicates", C+"check/checks/duplicates.rs"), ("link", C+"check/checks/link.rs"), ("report writer", C+"check/writer/mod.rs")])
p("C21", "select, hash and print show exactly the addressed values of every record",
  "select writes for every matching record, in input order, exactly the rows that the query addresses (combinations of repeated values, or joined with --squash/--merge; header, --unique, --no-empty-columns, quoting and normalisation as requested), as CSV/TSV that parses back to the values. hash writes the PPN and the SHA-256 of the record's bytes, and print writes every field with tag, occurrence and subfields in order.",
  ["inputs", "programs"],
  "all record streams and query expressions, values with delimiters, quotes, and non-ASCII or invalid UTF-8",
  "The tests use a few queries on well-behaved records; quoting, cross products of repeated subfields and odd values are sampled thinly.",
  [("query outcome", "src/query.rs"), ("select rows", C+"select.rs:execute"), ("hash", C+"hash.rs:execute"), ("print", C+"print.rs:execute")])
p("C22", "count, frequency and describe agree with a recount of the input",
  "count reports the exact numbers of matching records, their fields and subfields. frequency lists every distinct non-empty value combination of the query with its exact number of occurrences, in descending order (ascending with --reverse) with ties in byte order of the values, omitting those below --threshold and showing only the first N with -n; describe reports for every field the exact number of occurrences of every subfield code.",
  ["inputs", "programs"],
  "all record streams over several inputs x queries and options",
  "The tests compare a few fixed tables; totals, ties, thresholds and orderings over arbitrary inputs are not settled.",
  [("count totals", C+"count.rs:execute"), ("frequency table and order", C+"frequency.rs:execute"), ("describe table", C+"describe.rs:execute")])
p("C23", "convert carries every record, field and value into the target format",
  "For every input, convert to plus, binary, import, plain, json and xml writes one entry per record in input order from which all tags, subfield codes and values (and occurrences, except in xml) can be read back exactly (in plain without the record boundaries), and the output is well-formed in its format. This includes values that contain delimiters or markup characters of the target format, and documents with zero, one or many records.",
  ["inputs"],
  "all record streams and target formats (control characters that XML cannot represent excepted; invalid UTF-8 is replaced in json and xml)",
  "The tests convert one record (ada.dat) to each format; escaping, separators between records and empty inputs are not covered.",
  [("binary", C+"convert/binary.rs"), ("import", C+"convert/import.rs"), ("json", C+"convert/json.rs"), ("plain", C+"convert/plain.rs"), ("xml", C+"convert/xml.rs")])
p("C24", "The library reader yields every line exactly once, across any transport",
  "For every byte stream behind any `Read` (short reads, interruptions, transient and permanent errors), the record reader yields, in order, one item per line: the record if the line is valid, else a parse error naming the right line and source; then the end. A read error is reported as an I/O error at the position where it happened, and the reader never yields a record made of part of a line; a string reader additionally reports records with invalid UTF-8 as such, with their line and source, and goes on.",
  ["inputs", "fault_sequences", "schedules"],
  "all byte streams x all sequences of read results (fragments, EINTR, errors) x mixtures of byte and string record reads",
  "The unit tests read from in-memory cursors and intact files, where a read never fails or returns a fragment.",
  [("next_byte_record", R+":next_byte_record"), ("next_string_record", R+":next_string_record")])
p("C25", "The library writers persist every record or report the failure",
  "For every sequence of records written through the plain or gzip writer onto any `Write` (short writes, interruptions, errors at any call), a successful finish means that the sink has received, and been asked to flush, exactly the records' bytes in order (for gzip: a complete stream decoding to them); any error of the sink is returned by a write or by finish. What reading back such a stream yields is the sequence of records written.",
  ["inputs", "fault_sequences", "schedules"],
  "all record sequences x all sink behaviours x all combinations of builder settings",
  "The unit tests write one record to a temporary file; no sink is short, failing, or itself buffered.",
  [("PlainWriter", W+":PlainWriter"), ("GzipWriter", W+":GzipWriter"), ("builder", W+":WriterBuilder")])
p("C26", "explode yields one record per library or copy with the shared fields",
  "explode main reproduces each record; explode local yields one record for every run of local and copy fields that belongs to one library, and explode copy one for every copy, each with the preceding main fields (and, for copies, the local fields of their library) followed by its own fields, in input order. No field is lost, duplicated within an exploded record or attached to a record of another library or copy; filters, --keep, --discard and --limit apply to the exploded records.",
  ["inputs"],
  "all records with any arrangement of main, local and copy fields and occurrences x options",
  "The tests explode one record with a regular structure; irregular sequences of levels and occurrences are not covered.",
  [("process_local / process_copy", C+"explode.rs:process_copy")])

# not claimed
p("C90", "Parsing and serialising a record are inverse to each other",
  "Every record that parses is reproduced byte for byte when written, and every value built through the API parses back to itself.",
  ["inputs"], "all records", "Unit tests sample; pure function of its argument.", [("record parser", "src/parser.rs"), ("write_to", "src/primitives/record.rs")])
p("C91", "Matcher expressions parse, print and combine according to their grammar",
  "Every syntactically valid matcher parses, its printed form parses to an equal matcher, and the Boolean combinators satisfy their algebra.",
  ["programs"], "all matcher expressions", "Unit tests sample; pure function of its argument.", [("matcher parser", "src/matcher/subfield/parser.rs")])
p("C92", "Path, query and format expressions parse and print consistently",
  "Every valid path, query and format expression parses and its printed form parses to an equal expression; everything else is rejected.",
  ["programs"], "all path, query and format strings", "Unit tests sample; pure function of its argument.", [("path parser", "src/path.rs"), ("format parser", "src/fmt/parser.rs")])
p("C93", "Serde round trips preserve library values",
  "Serialising and deserialising any library value through serde yields an equal value.",
  ["inputs"], "all values", "Unit tests sample; pure function of its argument.", [("serde impls", "src/primitives/tag.rs")])
p("C94", "String similarity scores agree with the published definition",
  "The similarity operator accepts exactly the pairs whose normalised Levenshtein similarity exceeds the threshold.",
  ["inputs"], "all string pairs", "Unit tests sample; pure function delegated to a dependency.", [("similarity operator", "src/matcher/subfield/mod.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
