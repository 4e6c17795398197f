#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
L = []


def p(id, title, statement, over, text, why, files, mech, state=None, at=None, hook=None):
    assert len(title) <= 80, id
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if at: a["observe_at"] = at
    a["hook_needed"] = hook
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


API = ["sink callbacks of the public Reader class", "public Reader and Column methods"]
p("P01", "Uncompressed data sets are delivered row by row, complete and exact",
  "Reading a well-formed uncompressed data set delivers every row of the data set to the sink exactly once, in file order, with consecutive row indices starting at 0, and then the end of data. "
  "Every value of every delivered row equals what the file stores for that row and column, for either word size, either byte order, any page and row length and any layout of the rows over mixed pages, data pages, pages holding no row and pages that carry neither metadata nor rows. "
  "Nothing that is not a row of the data set is ever delivered.",
  ["inputs"], "all well-formed uncompressed data sets: byte order x word size x alignment x page length x row length x row count x page sequence (metadata, mixed, data, empty, skipped pages) x values",
  "the tests read a fixed set of files and compare a few rows each; page layouts, row counts at page boundaries and byte orders they do not contain are never met",
  ["src/data.hpp", "src/page.hpp", "src/buffer.hpp", "src/metadata.hpp"],
  [("row iteration over pages", "src/data.hpp READ_DATA::read_line"), ("page header and page types", "src/page.hpp READ_PAGE"), ("rows of mixed pages", "src/data.hpp")],
  [("current row", "index of the next row", "src/data.hpp READ_DATA::current_row")], API)
p("P02", "RLE-compressed rows decompress to exactly the rows that were compressed",
  "Reading a data set with run-length (SASYZCRL) compression delivers every row exactly once, in order, with the values the uncompressed rows have, whatever mix of copy, blank, zero and repeat commands and run lengths the compressed rows use and whether a row is stored compressed or not. "
  "A row whose compressed form expands to fewer bytes than a row ends with zero bytes, and rows next to deleted, truncated or metadata entries of a page are delivered like any other.",
  ["inputs"], "all RLE-compressed data sets: every command, every run length it can express, rows stored compressed and uncompressed, rows spread over any number of pages, both byte orders and word sizes",
  "a handful of compressed files are read; they use a subset of the commands and lengths, and a wrong length in a rare command stays invisible",
  ["src/decompressors.hpp", "src/data.hpp"],
  [("RLE commands", "src/decompressors.hpp DECOMPRESSOR::RLE"), ("compressed row subheaders", "src/data.hpp")], None, API)
p("P03", "RDC-compressed rows decompress to exactly the rows that were compressed",
  "Reading a data set with Ross (SASYZCR2) compression delivers every row exactly once, in order, with the values the uncompressed rows have, whatever mix of literals, short and long runs and short and long back references (overlapping ones included) the compressed rows use.",
  ["inputs"], "all RDC-compressed data sets: every command, length and offset, literal groups of any length, rows spread over any number of pages, both byte orders and word sizes",
  "a handful of files are read; they meet few offsets, lengths and overlaps",
  ["src/decompressors.hpp", "src/data.hpp"],
  [("RDC commands", "src/decompressors.hpp DECOMPRESSOR::RDC"), ("compressed row subheaders", "src/data.hpp")], None, API)
p("P04", "The reported data set properties are those of the file",
  "For a well-formed file the properties handed to the sink and those the reader reports afterwards are the file's own: word size, byte order, platform, creation and modification date, data set name, encoding, file type, release, server type, operating system type and name, header and page length, page count, compression, row length, row count and column counts. "
  "Reading rows and moving the reader change none of them.",
  ["inputs", "histories"], "all headers: both word sizes, byte orders and alignments, every known encoding code, any text and any date in the fields, and after any reading",
  "the tests compare the headers of the corpus; other alignments, encodings, dates and text lengths never occur there",
  ["src/header.hpp", "src/metadata.hpp", "src/encodings.cpp", "include/cppsas7bdat/properties.hpp"],
  [("header fields", "src/header.hpp"), ("row size and column size subheaders", "src/metadata.hpp"), ("encoding names", "src/encodings.cpp")], None, API)
p("P05", "Every column is reported in order with its name, label, format, length, type",
  "The columns reported for a well-formed file are exactly the file's columns in the file's order, each with its own name, label, format name, storage length and type, for any number of columns spread over any number of metadata blocks and pages. "
  "The type follows from what is stored: character columns are strings, numeric columns are dates, datetimes or times when their format is one of SAS's formats for them, integers when they are one or two bytes long, and numbers otherwise.",
  ["inputs"], "all column sets: number, order, names, labels, formats, lengths, offsets, and their distribution over text, name, attribute and format blocks on one or more pages",
  "the tests compare the columns of the corpus; layouts with several text blocks, wide tables, unusual formats or non-ASCII names are rare or missing",
  ["src/metadata.hpp", "src/subheaders.hpp", "include/cppsas7bdat/column.hpp", "src/column.cpp"],
  [("column subheaders", "src/metadata.hpp"), ("column types", "src/metadata.hpp, src/formatters.hpp")], None, API)
p("P06", "Numbers and integers keep their exact value",
  "A numeric value stored in 3 to 8 bytes is delivered as exactly the double the stored bytes denote, missing values (plain and special) as NaN, and a one or two byte integer as its stored value; the textual form of a value denotes the same value. "
  "This holds in either byte order, at any column offset, and reading a value changes neither the row nor any other value.",
  ["inputs"], "all stored bit patterns of all storage lengths 1..8, both byte orders, any offset in the row",
  "tests compare sampled values of sampled rows; short lengths, subnormals, infinities and special missing values are hardly there",
  ["src/formatters.hpp", "src/types.cpp", "src/buffer.hpp"],
  [("number formatters", "src/formatters.hpp")], None, API)
p("P07", "Dates, datetimes and times denote the stored instant",
  "A date column delivers the calendar day that lies the stored number of days after 1960-01-01, a datetime column the instant that lies the stored number of seconds after 1960-01-01T00:00:00 to the microsecond, and a time column the time of day of the stored number of seconds, for stored values before and after 1960 and in any storage length. "
  "Missing values, and datetimes outside the years 1400 to 9999, are delivered as missing, never as some other instant; the textual form shows the same instant and is empty for missing values.",
  ["inputs"], "all stored values within and outside years 1400..9999, fractions of seconds, leap days, negative values, missing values, storage lengths 3..8",
  "the tests contain a few dozen dates, hardly any before 1960, none at calendar ends, few fractions",
  ["src/types.cpp", "src/types.hpp", "src/formatters.hpp"],
  [("conversion of stored values", "src/types.hpp, src/types.cpp"), ("date and time formatters", "src/formatters.hpp")], None, API)
p("P08", "Character values are delivered byte for byte without their padding",
  "A character value is delivered as exactly the bytes stored in the column without the trailing blanks and zero bytes that pad it: leading and inner blanks, zero bytes and non-ASCII bytes are kept, a value that fills the column is complete, and bytes of neighbouring columns never appear.",
  ["inputs"], "all byte contents, lengths 1..32767 and offsets of character columns",
  "the tests compare sampled texts that are mostly short and ASCII",
  ["src/formatters.hpp", "src/buffer.hpp"], [("string formatter", "src/formatters.hpp"), ("trimming", "src/buffer.hpp")], None, API)
p("P09", "Any mix of reading calls continues where the previous one stopped",
  "Reading one row, a chunk of n rows, all remaining rows, a row without the sink, and skipping n rows may be mixed in any order, also across moves of the reader: together they visit each row exactly once in order, the current row index always equals the number of rows consumed, and each call reports whether it could do all it was asked to do. "
  "A reader without a file (default constructed or moved from) reads nothing and reports empty properties. "
  "Once the data is exhausted every further call reports so and no further row appears.",
  ["histories", "inputs"], "all sequences of reading calls with any arguments (0, one, to the end exactly, beyond the end, huge), on files of any layout and compression, with moves in between",
  "tests use a few fixed call patterns on a few files; skipping over page boundaries in compressed files or exactly to the end is not sampled",
  ["src/reader.cpp", "src/reader-impl.hpp", "src/data.hpp", "include/cppsas7bdat/reader.hpp"],
  [("reading calls", "src/reader-impl.hpp"), ("skip", "src/data.hpp READ_DATA::skip")], [("current row", "rows consumed", "src/data.hpp")], API)
p("P10", "A sink sees properties first, then its rows, then the end",
  "A sink is handed the properties exactly once, before anything else and before the reader can be used, with the columns that the rows will have; then each row read through it exactly once; rows skipped or read around it never. "
  "Each reading or skipping call that finds the data exhausted reports the end of data exactly once, after the last row, and no other call does. "
  "An exception thrown by the sink reaches the caller unchanged, loses or repeats no row in later calls, and leaks nothing.",
  ["histories", "fault_sequences", "inputs"], "all call sequences and all files, sinks passed by reference and by value, and an exception at any callback",
  "tests only use well-behaved sinks and full reads",
  ["include/cppsas7bdat/reader.hpp", "src/reader-impl.hpp"], [("sink calls", "src/reader-impl.hpp"), ("type erasure of sinks", "include/cppsas7bdat/reader.hpp")], None, API)
p("P11", "A column filter gives exactly the projection of the unfiltered result",
  "Reading with a column filter reports exactly the accepted columns, in file order, each with the same name, label, format, length, type and values as without the filter, and the same number of rows; the other properties are unchanged. "
  "An include list accepts exactly the columns it names, an exclude list all others, and with both given a non-empty include list decides alone; names without a column have no effect and accepting no column still delivers every row.",
  ["inputs", "configurations"], "all data sets x all filters: include, exclude, both, user-defined; empty lists, unknown names, duplicate names, all or no column",
  "tests apply a few name lists to a few files",
  ["include/cppsas7bdat/filter/column.hpp", "src/metadata.hpp", "include/cppsas7bdat/reader.hpp"], [("filters", "include/cppsas7bdat/filter/column.hpp"), ("accepted columns", "src/metadata.hpp")], None, API)
p("P12", "Hostile input never corrupts memory, crashes or hangs the reader",
  "Whatever bytes a source supplies, constructing a reader and reading to the end either works or raises a C++ exception: there is no out-of-bounds access, no undefined behaviour, no abnormal termination and no endless loop, and all values of delivered rows can be read as any type and as text. "
  "The number of rows delivered never exceeds what the file declares and, for rows of at least one byte, what its pages can hold. "
  "A file that does not start with the format's magic number is refused with an exception.",
  ["inputs"], "all byte strings: damaged fields, lengths, offsets, counts, page types, compressed streams, and arbitrary bytes",
  "tests contain well-formed files and a few broken headers without any instrumentation watching memory",
  ["src/header.hpp", "src/metadata.hpp", "src/page.hpp", "src/data.hpp", "src/decompressors.hpp", "src/buffer.hpp", "src/formatters.hpp"],
  [("bounds checks", "src/buffer.hpp, src/metadata.hpp, src/decompressors.hpp")], None, API + ["AddressSanitizer, UndefinedBehaviorSanitizer and library assertions"])
p("P13", "A truncated or failing source yields an exact prefix of the rows",
  "If the source ends early, fails or throws at any read, what was delivered until then is exactly a prefix of the rows of the complete file, with complete and correct values and consecutive indices, and no partially read page shows up as rows. "
  "Every row of a page that was read completely is delivered before the end; a source that ends within the header raises an exception from construction, and one that ends within the metadata either does so or delivers no row; a read that fails raises an exception; an exception thrown by the source reaches the caller unchanged.",
  ["fault_sequences", "inputs", "crash_points"], "every truncation length and every read of every file: end of file, failed read, exception",
  "tests have no failing sources and one or two truncated files",
  ["src/data.hpp", "src/page.hpp", "src/header.hpp", "src/metadata.hpp"], [("page reads", "src/page.hpp"), ("end of data", "src/data.hpp")], None, API + ["the data source handed to the reader"])
p("P14", "Any source delivering the same bytes gives the same result, read lazily",
  "The result depends only on the bytes of the source: a file, a memory source that reports its end at once and one that reports it after a failed read give the same properties, rows and end. "
  "The source is read strictly forward, in a number of reads proportional to the pages, and no further than the page that holds the row just delivered; after the source reported its end no more bytes are asked of it to deliver rows.",
  ["inputs", "histories"], "all files x all end-of-file behaviours of a source x all prefixes of a reading",
  "tests only read local files to the end, so what is asked of the source is never seen",
  ["include/cppsas7bdat/reader.hpp", "include/cppsas7bdat/source/ifstream.hpp", "src/datasource_ifstream.cpp", "src/page.hpp", "src/header.hpp"], [("reads", "src/page.hpp, src/header.hpp"), ("file source", "include/cppsas7bdat/source/ifstream.hpp")], None, ["the data source handed to the reader"])
p("P15", "CSV output reproduces the data set exactly",
  "The CSV sink writes one header line with the quoted column names and one line per row with one field per column in column order: character values in double quotes with their exact bytes, numbers as decimal text that reads back as the same double, integers, dates, datetimes and times as text of the same value, and missing numbers as empty fields. "
  "Output to a stream and to a file is the same and complete once the sink is destroyed, in whatever way the reading calls are mixed and whatever the locale; a file that cannot be written is reported by an exception.",
  ["inputs", "histories"], "all data sets, all values of all types, stream and file outputs, full and partial reads",
  "the tests do not look at the CSV sink's output",
  ["include/cppsas7bdat/sink/csv.hpp"], [("csv sink", "include/cppsas7bdat/sink/csv.hpp")], None, ["the text written by the sink"])
p("P16", "The print sink shows exactly the properties, columns and rows",
  "The print sink writes the data set's properties, every column with its name, label, format and type, a header line, and one line per row with the row index and the text of every value, all exactly as the reader reports them, for any bytes in names, labels and values. ",
  ["inputs", "histories"], "all data sets: any names, labels, formats and values (braces, percent signs, non-ASCII bytes, missing values of every type)",
  "the tests do not look at the print sink's output",
  ["include/cppsas7bdat/sink/print.hpp", "src/types.cpp"], [("print sink", "include/cppsas7bdat/sink/print.hpp")], None, ["the text written by the sink"])
p("P17", "The command line tool converts and prints files without harming them",
  "The csv command writes next to each named file a CSV file with exactly that data set's CSV text, whatever the file's name and directory look like, the print command writes what the print sink shows, limited to the requested number of rows, and the null command reads everything and writes nothing. "
  "Input files that are not themselves the output name of another input are never changed, several files are processed in order, and a file that cannot be read or written, or that fails only after some of its rows, makes the tool fail visibly. Wrong usage fails visibly and touches no file.",
  ["inputs", "configurations"], "all files x commands x row limits x file names (no extension, several dots, dots in directories, other extensions) x several files in one call",
  "the command line tool is not run by the tests",
  ["apps/cppsas7bdat-ci.cpp"], [("commands", "apps/cppsas7bdat-ci.cpp")], None, ["files, output and exit status of the tool"])
p("P18", "Independent readers work concurrently; columns can be shared by threads",
  "Readers on different threads, with files of any kind, do not influence each other: each delivers exactly what it delivers alone, and there is no data race. "
  "Columns, properties and a row's bytes copied or shared between threads can be read concurrently with the same values.",
  ["schedules", "inputs"], "all interleavings of several readers' construction, reading and destruction, and of readers of shared columns",
  "all tests are single-threaded",
  ["src/reader.cpp", "src/column.cpp", "src/types.cpp", "src/encodings.cpp", "include/cppsas7bdat/column.hpp"], [("no shared mutable state", "src/*"), ("shared column formatters", "include/cppsas7bdat/column.hpp")], None, ["ThreadSanitizer", "sink callbacks"])
p("P19", "Resources are released and memory use does not grow with the rows",
  "Sources, sinks and filters passed by value live exactly as long as the reader and are destroyed exactly once, those passed by reference are left alone, and after a reader is gone nothing of it remains allocated, also when construction or reading fails. "
  "While rows are read, memory stays within a few pages of what construction needed, however many rows there are. "
  "Columns and properties copied from a reader remain usable after it is gone.",
  ["histories", "fault_sequences", "inputs"], "all files, all reading histories, moves, assignments, and failures at any point",
  "tests never measure memory or lifetimes",
  ["include/cppsas7bdat/reader.hpp", "src/reader-impl.hpp", "src/memory.hpp", "include/cppsas7bdat/column.hpp"], [("ownership", "include/cppsas7bdat/reader.hpp"), ("page buffers", "src/page.hpp, src/memory.hpp")], None, ["allocation counters", "construction and destruction of sources and sinks"])
p("P20", "The Python binding delivers the same data as the library",
  "In Python the row, chunk and whole-data sinks receive the same properties, columns, rows and values as a C++ sink: strings as bytes, numbers as floats, integers as ints, dates, datetimes and times as objects of the datetime module, missing ones as None (NaN for numbers), every row exactly once, in order, chunks with the row range they hold, for any chunk size and any mix of read and skip calls. "
  "Include and exclude lists select the columns as in C++ (anything else given as a filter is refused or honoured, never ignored), reference counts balance, an exception raised in a sink reaches the caller, and damaged files raise an exception.",
  ["inputs", "histories", "configurations"], "all data sets x sinks x chunk sizes x filters x call sequences",
  "the Python module is not covered by the tests that run here; its own tests compare a few files",
  ["python/pycppsas7bdat/cpp/sink.hpp", "python/pycppsas7bdat/cpp/reader.cpp", "python/pycppsas7bdat/sink.py", "python/pycppsas7bdat/read_sas.py"], [("Python sinks", "python/pycppsas7bdat/cpp/sink.hpp"), ("conversions", "python/pycppsas7bdat/cpp/*.cpp")], None, ["calls of the Python sinks"])
p("P21", "The R binding delivers the same data as the library",
  "In R the row, chunk and whole-data sinks receive the same properties, columns, rows and values as a C++ sink: character, numeric and integer values unchanged, dates and times as text, missing values as NA or NaN, every row exactly once, in order, values handed to a sink staying as they are while later rows are read, for any chunk size and any mix of read and skip calls, and R's protection stack stays balanced. "
  "Include and exclude lists select the columns as in C++ and damaged files raise an R error.",
  ["inputs", "histories", "configurations"], "all data sets x sinks x chunk sizes x filters x call sequences",
  "the R package is not covered by the tests that run here; its own tests compare a few files",
  ["R/CPPSAS7BDAT/src/sink.hpp", "R/CPPSAS7BDAT/R/sink.R"], [("R sinks", "R/CPPSAS7BDAT/src/sink.hpp"), ("R classes", "R/CPPSAS7BDAT/R/sink.R")], None, ["calls of the R sinks"])
p("P22", "The result depends on the file alone",
  "Reading the same bytes again, in the same or another process, after other files were read, with other contents of fresh memory, another locale or another time zone, gives identical properties, columns, rows, values and CSV text; for a damaged file it gives identical rows and the same failure. Reading leaves the process as it was: its locale, environment, working directory, signal handlers and file descriptors. "
  "No byte a sink receives ever comes from memory the library did not fill from the file.",
  ["inputs", "configurations", "histories"], "all files, well-formed or damaged, x contents of uninitialised memory x locales x what was read before",
  "a test run sees one memory content and one environment; values taken from uninitialised memory often look right",
  ["src/data.hpp", "src/page.hpp", "src/memory.hpp", "src/buffer.hpp", "src/decompressors.hpp"], [("buffers", "src/memory.hpp, src/buffer.hpp"), ("decompression into a fixed row buffer", "src/decompressors.hpp")], None, API)

with open(OUT, "w") as f:
    for x in L: f.write(json.dumps(x) + "\n")
