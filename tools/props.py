#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (claimed = the property has harness/<id>.py)."""
import importlib.util
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The six existing tests only dump and scan a few concrete records; "

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


B, R, C, S, X, L, K = "rxls/biff.py", "rxls/biff_recs.py", "rxls/chunk/casts.py", "rxls/series.py", "rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/chunk/chunk.py"
Q = "rxls/reader/common.py"

prop("P01", "BIFF12 records survive writing and scanning",
     "Any sequence of BIFF12 records with a valid record id and a payload the format can carry, once written, is scanned back as the same ids and payloads in the same order. The written bytes follow the format's variable-length id and size encoding. A scan restricted to a set of ids (or to a record type by id or name) yields exactly the records of those ids and stays aligned on the others.",
     ["inputs"], "every record id (1 and 2 byte forms), every payload size 0..2^28-1, arbitrary payload bytes, sequences of records, every wanted-id set",
     TESTS + "they fix two or three ids and sizes; the size and id encodings change shape at 2^7, 2^14 and 2^21 and the filter interacts with the skipping.",
     [B], [("record size encoding", B + ": dump_sz"), ("record writing and lookup", B + ": record"), ("scanner", B + ": scan_biff")])
prop("P02", "Scanning any bytes ends and yields exactly the complete records",
     "Scanning an arbitrary byte string as BIFF12 always ends and yields exactly the records that are completely present at its front, with the payload bytes of the input. A record that is cut off is never yielded in part. No trailing bytes are turned into records.",
     ["inputs", "crash_points"], "every byte string up to the bound, cut at every position; record streams cut at every byte",
     TESTS + "truncated or arbitrary streams are never scanned.",
     [B], [("scanner", B + ": scan_biff")])
prop("P03", "XLSB wide strings and sheet records decode to what was written",
     "A wide string (code-unit count followed by UTF-16LE code units) decodes to exactly the text written for every Unicode text, including characters outside the BMP, byte-order-mark characters and the null string, and consumes exactly its own bytes. Writing a text produces that encoding. A bundle-sheet record decodes to its state, id, relationship id and name.",
     ["inputs"], "every text up to the bound over all Unicode code points, the null string, long texts; every state and id",
     TESTS + "no wide string is ever decoded or written by them.",
     [R], [("wide string codec", R + ": xstr"), ("sheet record", R + ": BrtBundleSh.loadr")])
prop("P04", "Every 32-bit RK number decodes to the value Excel assigns it",
     "Each 32-bit RK number decodes to the double the XLSB format assigns it: a 30-bit signed integer or the high 30 bits of a double, divided by 100 when the flag is set, bit-exactly. In a column each cell decodes independently of its neighbours.",
     ["inputs"], "all 2^32 RK numbers, columns of several of them",
     TESTS + "RK numbers are not decoded at all.",
     [C, K], [("RK decoding", C + ": rk_to_f8"), ("column of RK numbers", K + ": chunk.xlsb_numeric, prepare, arrow")])
prop("P05", "Date serials become the nearest-millisecond timestamp",
     "A numeric cell with a date or time format becomes the timestamp of the day Excel shows (1900 date system with its fictitious 29 February 1900: serials 1 to 59 are 1900-01-01 to 1900-02-28, serials from 61 are 1900-03-01 on), at the nearest millisecond. A serial in [0,1) is a time of day on 1970-01-01.",
     ["inputs"], "every double in [0, 2958466) except the fictitious day [60,61), from XLSB reals, XLSB RK numbers and XLSX text",
     TESTS + "no cell is ever converted; rounding depends on every bit of the double.",
     [C, K], [("serial conversion", C + ": f8_to_ms_win"), ("temporal chunks", K + ": chunk.prepare, arrow")])
prop("P06", "RK and serial encoders are inverse to the decoders",
     "Encoding a double that has an exact RK form yields an RK number that decodes to the same double; any other double keeps its high 30 bits. A 30-bit integer encodes to an RK number that decodes to it. Encoding a timestamp (1970-01-02 on) as a serial and decoding it gives the same millisecond.",
     ["inputs"], "all 30-bit integers, all 30-bit hundredths, all doubles; every millisecond from 1970-01-02 to 9999-12-31",
     TESTS + "the encoders are never called.",
     [C], [("RK encoding", C + ": f8_to_rk, i8_to_rk"), ("serial encoding", C + ": ms_to_f8_win")])
prop("P07", "Integer columns are inferred without loss",
     "A numeric column becomes int64 exactly when every value fits int64 and its fraction vanishes when rounded to the requested number of decimals (whole numbers always count); then each cell is that integer. Otherwise the column stays float64 with every value unchanged.",
     ["inputs"], "columns of arbitrary doubles (all magnitudes, infinities and NaN), with empty cells, several chunks, precisions 0..10",
     TESTS + "no column is ever built.",
     [C, K], [("integer test", C + ": f8_is_i8"), ("type choice", K + ": chunk.concatenate")])
prop("P08", "Every cell comes out at its own row, and gaps are null",
     "However the cells of a column are spread over rows and types, the column read back has each cell's value at its row and nulls everywhere else, for every requested offset and length. Its length covers every row up to the last cell, rows above the first cell included. A second cell for a row already filled changes nothing.",
     ["inputs", "histories"], "sequences of cells at arbitrary rows (unbounded gaps), all cell kinds, arbitrary offset and length",
     TESTS + "columns are never built; row numbers range over a million values.",
     [S, K], [("cell collection", S + ": xl_series.add"), ("slicing", K + ": chunk.take_over"), ("length", S + ": xl_series.__len__")],
     [("pending chunk", "cells of one type not yet turned into a chunk"), ("gap", "rows skipped before the next chunk")])
prop("P09", "Slicing and masking a sequence of chunks is slicing and masking its cells",
     "Taking offset and length, or offset and a row mask, over any sequence of chunks (null, numeric, text; any sizes) gives the chunks whose concatenation is that slice of the concatenated cells, padded with nulls to the requested length. Taking a slice, an index or a mask of a single chunk gives those cells. Zero length means no limit.",
     ["inputs"], "chunks of arbitrary (symbolic) sizes and contents, every offset and length, every mask; every python slice of a null chunk",
     TESTS + "chunks are never sliced; errors hide at the chunk boundaries.",
     [K], [("take over", K + ": chunk.take_over"), ("take", K + ": chunk.take, null_slice")])
prop("P10", "Mixed columns resolve as documented, all or nothing",
     "A column mixing numbers, dates and texts becomes the documented type for its conflict mode: the common type if the permitted conversions of all its cells succeed, otherwise text holding each original value. No cell is lost, moved or half-converted: the values are the originals or their exact conversion.",
     ["inputs", "configurations"], "columns of numbers, dates, plain, numeric and date texts and gaps in every order up to the bound, all four conflict modes",
     TESTS + "no conflict is ever resolved.",
     [K, S], [("conflict resolution", K + ": chunk.concatenate"), ("casts", K + ": chunk.as_numeric, as_temporal")])
prop("P11", "Reading a column leaves it unchanged",
     "Asking a column for any slice as text or as typed values does not change what a later request returns: every request returns what it would return first on a fresh column. Further cells may be added between requests.",
     ["histories"], "every sequence of two or three requests (text or typed, any offset and length) over mixed columns, in all conflict modes",
     TESTS + "columns are never read, let alone twice; header search, header and body each read the same column.",
     [S, K], [("requests", S + ": xl_series.to_utf8, to_arrow"), ("in-place preparation", K + ": chunk.prepare, concatenate")])
prop("P12", "Shared strings resolve to their own text, never outside the table",
     "A cell that refers to entry i of the shared string table reads as the text of entry i. A reference beyond the table is reported as an error: it never yields other data or touches memory outside the table.",
     ["inputs"], "every 32-bit index, tables of several arbitrary texts, columns of several cells; XLSX and XLSB",
     TESTS + "no shared string is ever looked up.",
     [K, "rxls/chunk/arrow.py", L, X], [("lookup", "rxls/chunk/arrow.py: take"), ("shared chunks", K + ": chunk.xlsb_strings, xlsx_strings, prepare")])
prop("P13", "XLSB cells decode to the value and type in the file",
     "Each XLSB cell record (RK, real, boolean, text, shared text and the formula results) reads as a cell with the stored value at its column and its row's position, numbers with a date style as timestamps. Blank and error cells, and records of other kinds, read as nothing. Skipped columns are left out and change no other column.",
     ["inputs"], "all record kinds with arbitrary payload bytes, columns, styles and foreign records in between; rows up to the bound",
     TESTS + "no worksheet is ever read.",
     [L], [("worksheet reader", L + ": XlsbWorkbook.iter_worksheet")])
prop("P14", "Row windows select the documented rows of XLSB and XLSX sheets",
     "skip_rows drops exactly the first skip_rows stored rows; take_rows = n > 0 stops after row n (counted from 0 below the skipped rows) and 0 means no limit; empty rows below are kept as rows only if take_rows_non_empty is set and otherwise take no place. Every cell of a selected row is delivered with its row's position, and no cell of another row is.",
     ["inputs", "configurations"], "sheets of rows with arbitrary emptiness, every skip_rows and take_rows, both values of take_rows_non_empty, both formats",
     TESTS + "no worksheet is ever read; the counters interact across rows.",
     [L, X], [("XLSB rows", L + ": XlsbWorkbook.iter_worksheet"), ("XLSX rows", X + ": XlsxWorkbook.iter_worksheet")])
prop("P16", "Null values are dropped by their text, and nothing else is",
     "A text cell, inline, shared or a formula result, is empty in the result exactly when its text is an Excel error text, is listed in null_values, or satisfies the null_values predicate. That holds in both formats, whether or not the shared strings were used before.",
     ["inputs", "configurations"], "arbitrary texts, error texts, null_values as list, predicate or absent, shared and direct cells, both formats",
     TESTS + "null values are never exercised.",
     [L, X], [("predicate", L + " and " + X + ": __init__"), ("null shared strings", L + " and " + X + ": shared, iter_worksheet")])
prop("P17", "The XLSX shared string table holds each item's whole text at its index",
     "Entry i of the XLSX shared string table is the text of item i: all of its runs in order without phonetic hints, white space at the outer ends removed, null if nothing remains. The length of the text and the way the parser delivers it do not matter.",
     ["inputs", "schedules"], "tables of items with several runs, phonetic hints, empty items, long texts delivered in arbitrary parts",
     TESTS + "no shared string table is ever parsed.",
     [X], [("shared strings", X + ": XlsxWorkbook.shared")])
prop("P18", "XLSX cells read as the value and type in the file",
     "Each XLSX cell with a value reads at the column its reference names and its row's position: shared text, direct and inline text as that text whatever its number format, a number with a numeric style as that number and with a date style as a timestamp. A value that is no number stays the text it is, and so do the numbers next to it in its column. Cells without a value read as nothing; skipped columns are left out and change no other column. The whole value counts, however the parser delivers it.",
     ["inputs", "schedules"], "cells of every type with arbitrary references, texts (in parts) and styles, formulas, empty cells, rows up to the bound",
     TESTS + "no worksheet is ever read.",
     [X], [("worksheet reader", X + ": XlsxWorkbook.iter_worksheet"), ("cell collection", S + ": xl_series")])
prop("P19", "Cell references name the right column",
     "The column of a cell reference is the bijective base-26 number of its letters, for every column of a sheet (A to XFD) and every row number.",
     ["inputs"], "all references of one to three letters with arbitrary row digits",
     TESTS + "no reference is ever parsed.",
     [X], [("column letters", X + ": col_idx")])
prop("P20", "XLSX cell styles are dates or numbers exactly by their number format",
     "An XLSX cell style is temporal exactly when its number format is a built-in date or time format, or a custom one whose first section contains a date or time code outside quoted and escaped literals, padding and non-elapsed brackets; a fixed-point format is numeric. The style index is the position in the cell format list.",
     ["inputs"], "arbitrary format codes up to the bound over a representative alphabet, arbitrary format ids, several styles",
     TESTS + "no style sheet is ever parsed.",
     [X], [("styles", X + ": XlsxWorkbook.styles")])
prop("P21", "XLSB cell styles are dates exactly by their number format",
     "An XLSB cell style is temporal exactly when its number format is a built-in date or time format, or a custom one whose first section contains a date or time code outside quoted and escaped literals, padding and non-elapsed brackets. The style index is the position among the cell formats, and format ids are full 16-bit numbers.",
     ["inputs"], "arbitrary format codes up to the bound over a representative alphabet, all 16-bit format ids, several styles",
     TESTS + "no style sheet is ever parsed.",
     [L], [("styles", L + ": XlsbWorkbook.styles")])
prop("P22", "A sheet is selected by its name or position in the workbook",
     "Selecting a sheet by name or by position among the worksheets, in workbook order, reads that worksheet's part, whatever the order, ids and form of the relationships and whatever other sheet kinds the workbook has. An unknown name or position is an error.",
     ["inputs", "configurations"], "workbooks of several sheets with arbitrary names, relationship orders, absolute and relative targets, chart sheets; both formats",
     TESTS + "no workbook is ever opened.",
     [L, X, "rxls/rels.py"], [("sheets", L + " and " + X + ": sheets"), ("relationships", "rxls/rels.py: Relationship.scan_xml")])
prop("P23", "A failure while reading XLSX surfaces, and reading never hangs",
     "If the XLSX sheet is damaged, or a callback or null-value predicate fails at any point, the caller gets an error: never a silently shortened sheet, and never an endless wait. Stopping the iteration early ends without an error.",
     ["fault_sequences", "schedules"], "a failure at every event of the sheet and every call of the callbacks, every interleaving point of the reading thread and the consumer, early stop after any number of cells",
     TESTS + "the reading thread never runs in them.",
     [X], [("reading thread", X + ": XlsxWorkbook.iter_worksheet")])
prop("P24", "Column names follow the header rows and are unique",
     "The columns of the result are named after the header: one row, or several joined from top to bottom with empty upper cells taken from the left neighbour, or the given list, or Unnamed: i without a header. Names repeated by the header are made unique by a counter, so that none occurs twice; a column without any header text is named Unnamed.",
     ["inputs"], "tables of columns with arbitrary (equal or different) header texts, empty header cells, header heights 0..3",
     TESTS + "no header is ever built.",
     [Q], [("header", Q + ": __make_header, read")])
prop("P25", "The table holds exactly the rows below the header",
     "The result has one column per sheet column with data, in column order, all of equal length, holding exactly the rows below the header (found by lookup_head if given, after skip_rows_after_header) down to the last row with data, in order; sheets without rows below the header give empty columns. A lookup that matches nothing is an error.",
     ["inputs", "configurations"], "sheets with arbitrary first and last rows per column, all header heights, lookups by text or column, skipped rows",
     TESTS + "read() is never called.",
     [Q, S], [("row arithmetic", Q + ": read"), ("lookup", Q + ": __find_header"), ("column length", S + ": xl_series.__len__")])
prop("P26", "Row filters keep exactly the rows they name, in all columns alike",
     "With row filters (regular expressions matched at the start of the column names, or positions), the result holds exactly the body rows in which the filter columns are non-empty, combined by the given strategy, and every column keeps its cells in those rows. If no row qualifies, that is an error.",
     ["inputs", "configurations"], "columns with arbitrary gaps and lengths, one to three filter columns by name or position, strategies or, and, mixed lists",
     TESTS + "read() is never called.",
     [Q, K], [("filters", Q + ": read"), ("mask", K + ": chunk.take_over")])
prop("P27", "Requested dtypes are applied to the right columns or refused",
     "With dtypes given as one type, a list by position or a mapping by name, each named column of the result has exactly the requested type and the same values, and other columns are untouched. If a cast would lose a value the caller gets an error naming the column.",
     ["inputs", "configurations"], "columns of numbers, texts and dates with gaps; all three forms; integer, float, text and timestamp types",
     TESTS + "read() is never called.",
     [Q], [("dtypes", Q + ": read")])
prop("P28", "Date texts parse to their own instant, or the parse is refused",
     "Parsing a list of texts as dates gives, for each, the instant of the first format it matches, for dates before and after 1970, midnight and the epoch included (years written with four digits); a format without a date gives the time of day. If some text matches no format, the whole parse is refused.",
     ["inputs"], "lists of texts with arbitrary instants (years 1 to 9999) matching any subset of the formats; default and custom format lists",
     TESTS + "no text is ever parsed as a date.",
     [C], [("parsing", C + ": mf_strptime, _strptime")])

prop("P29", "Each option of read takes effect on every column of the sheet",
     "Every column of a read is resolved under the conflict_resolve, datetime_formats (one format or several) and float_precision given to read, and the cells left out are those of skip_cols, null_values, skip_rows and take_rows. Each option works alone and together with others, in both formats and on the sheet that is named; an option left out has its documented default.",
     ["inputs", "configurations"], "combinations of eight options, each left out or with one of several values; any numbers in the columns",
     TESTS + "read is never called; an option that is not handed on, or only to some columns, shows in one combination only.",
     [Q, S, K], [("options", Q + ": read"), ("column options", S + ": xl_series.__init__, to_arrow, to_utf8")])
prop("P30", "Reads do not influence each other",
     "What a read returns depends on its workbook, sheet and options alone: not on what was read before from the same or another workbook, wholly or in part, nor on other reads going on at the same time in the same thread. Styles, shared texts and null values are those of the workbook that is read.",
     ["histories", "schedules"], "sequences of reads over two workbooks with two sheets each, cell-by-cell interleavings of two reads",
     TESTS + "nothing is ever read twice.",
     [L, X, Q, K], [("per-workbook state", L + ": XlsbWorkbook.sheets, shared, styles, null_shared"), ("per-workbook state", X + ": XlsxWorkbook.sheets, shared, styles, null_shared"), ("reading", Q + ": read")],
     [("cached sheets, shared strings and styles", "belong to one open workbook")])
prop("P31", "The row callback counts the rows of the sheet",
     "A read of a whole sheet calls row_callback without arguments once for each stored row, empty rows included, and once more for the sheet. With skip_rows or take_rows it is called at least once for each selected row and at most once for each stored row and once more.",
     ["inputs"], "sheets of rows of every kind, any skip_rows and take_rows, both formats",
     TESTS + "no callback is ever given.",
     [L, X], [("row events", L + ": XlsbWorkbook.iter_worksheet"), ("row events", X + ": XlsxWorkbook.iter_worksheet")])
prop("P32", "Relationships survive writing and reading",
     "A relationship that is written is a well-formed element that reads back as the same id, kind and target, whatever characters these have. The part of a target is the target without its leading slash, or under xl/ if it has none.",
     ["inputs"], "ids, kinds and targets of arbitrary characters, including those XML reserves",
     TESTS + "relationships are neither written nor read.",
     ["rxls/rels.py"], [("writing", "rxls/rels.py: Relationship.dump_xml"), ("reading", "rxls/rels.py: Relationship.scan_xml, part")])
prop("P33", "A failure while reading XLSB surfaces",
     "If a callback or null-value predicate fails at any of its calls while an XLSB sheet is read, or the sheet's part or the workbook's relationships are missing, or a cell record is too short to hold its column, the caller gets an error: never a silently shortened sheet.",
     ["inputs", "fault_sequences"], "failures of any kind at any call; missing parts; short cell records of any kind",
     TESTS + "no failure is ever injected.",
     [L, Q], [("reading", L + ": XlsbWorkbook.iter_worksheet, shared"), ("reading", Q + ": read")])
prop("P34", "Files and row windows that cannot be read are refused",
     "A file is read by the reader of its own format, which its parts decide; a file without a workbook part is refused, and so is a file of the other format by either reader. A negative or non-integer skip_rows or take_rows is an error, every other one is accepted. A workbook that is not open gives an error.",
     ["inputs"], "any integer as skip_rows and take_rows, and other types; files with and without the parts that tell the format",
     TESTS + "no file is ever opened.",
     [Q, L, X], [("format", Q + ": read"), ("arguments", L + ": XlsbWorkbook.__enter__, iter_worksheet"), ("arguments", X + ": XlsxWorkbook.__enter__, iter_worksheet")])

prop("P35", "A read closes what it opened, and nothing else",
     "When read returns or fails, and when a workbook is left with its iterations ended or abandoned at any point, every file that was opened by its path is closed again. A stream given by the caller stays open and can be read again with the same result.",
     ["inputs", "fault_sequences", "crash_points"], "failures of callbacks and predicates at any call, missing parts, refused arguments, iterations closed after any number of cells; both formats, by path and by stream",
     TESTS + "no file is ever opened.",
     [Q, L, X], [("opening and closing", L + ": XlsbWorkbook.__enter__, __exit__, iter_worksheet"), ("opening and closing", X + ": XlsxWorkbook.__enter__, __exit__, iter_worksheet"), ("reading", Q + ": read")])
prop("P36", "A sheet reads the same from XLSX and XLSB",
     "A sheet of texts (shared, plain or formula results, in any style), dates, numbers that have a number format, and gaps gives the same table (names, types and values), or the same kind of error, from XLSX and from XLSB, under the same options of read (null_values that no number equals).",
     ["inputs"], "sheets of every mix of these cells and the options of read, each read in both formats",
     TESTS + "no two readers are ever compared.",
     [Q, L, X, K], [("reader", L + ": XlsbWorkbook.iter_worksheet, shared, styles"), ("reader", X + ": XlsxWorkbook.iter_worksheet, shared, styles"), ("table", Q + ": read")])

prop("P37", "A read leaves its arguments as they were",
     "The lists, dicts and sets given to read (header, dtypes, skip_cols, row_filters and their strategy, null_values, datetime_formats) and to a scan of records hold the same values in the same order afterwards, whether it succeeds or fails, so that the same arguments give the same table, or the same refusal, again.",
     ["inputs", "histories", "fault_sequences"], "arguments of every kind, alone and together, usable or not; sheets with any gaps; a callback that fails at any call; both formats",
     TESTS + "nothing is ever read.",
     [Q, L, X, B], [("options", Q + ": read"), ("null values", L + ": XlsbWorkbook.__init__"), ("null values", X + ": XlsxWorkbook.__init__"), ("wanted ids", B + ": scan_biff")])
prop("P38", "Values move between Arrow, NumPy and bytes without change",
     "The conversions of fixed-size values without nulls between whole Arrow arrays, NumPy arrays and lists of their bytes keep every value at its place. A boolean Arrow array, of any length and also a slice of another one, becomes the NumPy mask of the same booleans.",
     ["inputs"], "arbitrary values of each fixed size, every length and slice",
     TESTS + "no array is ever converted.",
     [C], [("values", C + ": _unsafe_array, _unsafe_arrow, _unsafe_data_to_arrow, _unsafe_data_to_array"), ("masks", C + ": _unsafe_bool_arrow_to_numpy")])
prop("P39", "Timestamps tell whether they have a date and a time of day",
     "Of an array of timestamps (milliseconds since 1970-01-01) dt_has_t holds exactly if one of them is not at midnight, and dt_has_d exactly if one of them is not on 1970-01-01, the day that stands for times of day without a date.",
     ["inputs"], "arrays of arbitrary timestamps before and after 1970",
     TESTS + "these functions are never called.",
     [C], [("time of day", C + ": dt_has_t"), ("date", C + ": dt_has_d")])

prop("P40", "A workbook may leave out styles and shared strings",
     "A workbook without a styles part reads as one whose cells are all in the General format, whatever style they name, and one without a shared strings part as one with no shared strings; parts of other kinds change nothing. A sheet without cells gives an empty table.",
     ["inputs"], "sheets of texts, numbers and gaps in both formats, with and without each of these parts",
     TESTS + "no workbook is ever read.",
     [L, X, Q], [("optional parts", L + ": XlsbWorkbook.styles, shared"), ("optional parts", X + ": XlsxWorkbook.styles, shared"), ("reading", Q + ": read")])
prop("P41", "A chunk tells its kind, size and text, also once converted",
     "A chunk of a column knows how many cells it has, whether it is empty, null, numeric or temporal, and the text of each cell. Preparing it, asking for its array or its text changes none of this. A chunk converted to numbers or timestamps has as many cells as before and knows it, so that it can be cut at any place like any other; a chunk of nulls stays one.",
     ["inputs", "histories"], "chunks of every kind and values, asked before and after each operation; converted chunks cut at any place",
     TESTS + "no chunk is ever built.",
     [K], [("kind and size", K + ": chunk.is_empty, is_null, is_numeric, is_temporal"), ("conversion", K + ": chunk.prepare, as_numeric, as_temporal, utf8"), ("cutting", K + ": chunk.take_over")])
prop("P42", "The XLSB shared string table holds each item's whole text at its index",
     "Entry i of the XLSB shared string table is the text of item i, whole and unchanged, whatever its length, flags, formatting runs or phonetic text, and whatever other records lie before, between or after the items. References to the items whose text is a null value are dropped, at any index, and no others.",
     ["inputs"], "tables of items with arbitrary texts, flags, runs and phonetic data, other records in between, long tables and long texts",
     TESTS + "no shared string table is ever parsed.",
     [L], [("shared strings", L + ": XlsbWorkbook.shared"), ("null shared strings", L + ": iter_worksheet")])

NOT_CLAIMED = {}


def harness(pid):
    return os.path.join(VERIF, "harness", pid.lower() + ".py")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(harness(i)):
            checks.append({
                "property": i,
                "quick_cmd": f"python3 check.py {i} quick",
                "thorough_cmd": f"python3 check.py {i} thorough",
                "technique": "symbolic execution of the repository's Python functions with SMT (z3), counterexamples replayed on the real code",
                "level": "model_checking",
                "level_note": "Every path of the harness within the stated bounds is explored with symbolic inputs and each assertion is discharged by z3; a bound is not a proof beyond it, and the numpy/pyarrow/zipfile/expat operations are modelled (the models are cross-checked by replaying a witness of the explored paths on the real libraries).",
            })
        else:
            na.append({"property": i, "reason": NOT_CLAIMED.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Checks read the sources of /repo on every run; RXLS_REPO selects another tree for experiments."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
