"""Single source of the property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
COMMON = [
    'Verus/Z3, rustc and the extractor tools/vx.py (token substitutions are listed per function in contracts/*.rs) are trusted.',
    'String, Vec, Option, BTreeMap: the vstd specifications of the standard library.',
]
def P(title, statement, over, qtext, why, files, mechanism, units, level, level_note, bounded, rule, assumptions=(), theorems=(), built=True, observe=(), state=()):
    return dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                units=units, level=level, level_note=level_note, bounded=bounded, rule=rule,
                assumptions=COMMON + list(assumptions), theorems=list(theorems), built=built, observe=list(observe), state=list(state))

GEN = 'seeded generator over the public API'
PROPS = {
'C01': P('References and their text are inverse to each other',
  'Every cell reference, cell range, column range and row range is formatted to text that parses back to exactly the same reference, for all indexes, absolute markers, sheet names and external file names. Columns use the standard letters (A..Z, AA..ZZ, AAA, ...), rows are one-based decimals, and every index has exactly one name. Text that is not a reference is reported as an error, never as a different reference and never as a crash.',
  ['inputs'], 'all row and column indexes below u32::MAX, all combinations of absolute markers, all non-empty sheet and file names, all texts',
  'Unit tests try a dozen hand-written references; the claim is about every index, every sheet name that may need quoting and every marker combination.',
  ['src/refs.rs', 'src/refs/format.rs', 'src/refs/parser.rs', 'src/refs_impl/parser.rs'],
  [('formatter', 'src/refs/format.rs fmt_col_name, fmt_row_name, fmt_table_name, fmt_cell_ref ...'), ('parser converters', 'src/refs/parser.rs try_u32_from_colname, try_u32_from_rowname'), ('accessors and constructors', 'src/refs.rs')],
  ['C01_text'], 'proof',
  'Formatting side, the two name converters of the parser, and all constructors/accessors/setters: unbounded proof. The nom grammar that splits the text into tokens is outside Verus; it is covered by the bounded round trip (labelled bounded).',
  'the nom grammar of the reference parser (tokens::*, parse_cell_ref ..): format -> parse round trip over generated references, lists of references, and arbitrary texts', GEN + ': references with boundary/random indexes, all marker combinations, sheet names from a pool with quotes, dots, blanks, dollar, unicode; non-trivial = distinct reference',
  ['core::fmt writers append exactly the given text and never fail (String sink stands in for Formatter / fmt::Write).', 'str::parse::<u32> on an all-digit text is the decimal value or an error on overflow.'],
  ['theorem_column_names_are_a_bijection', 'theorem_row_names_are_a_bijection']),
'C02': P('Ranges and groups cover exactly the cells they name',
  'A cell range contains precisely the cells between its two corners inclusive; a range built from an origin and a span covers exactly that many rows and columns, and a reversed or empty range is rejected. Column and row ranges contain exactly the columns or rows between their ends. Row and column groups may only be nested or disjoint: adding a group that partly overlaps an existing one is refused, every other one is accepted and recorded unchanged, and removing one leaves the others.',
  ['inputs', 'histories'], 'all corner positions, all cells, all spans, all lists of groups',
  'Existing tests check single points; off-by-one errors at the edges need all positions relative to both corners.',
  ['src/refs.rs', 'src/sheet_.rs'],
  [('range membership', 'src/refs.rs CellRange::contains, origin_span, out_looped, ColRange::contains, RowRange::contains'), ('groups', 'src/sheet_.rs Grouped::contains, disjunct, Sheet::add_col_group, add_row_group')],
  ['C02_geometry'], 'proof', 'All functions named are proved without bound, including refusal of overlapping groups and removal.',
  'group histories with add, remove and refused additions', GEN + ': corners and cells around the edges; random group histories',
  ['assert! failures do not return (vp_rejects).']),
'C14': P('Formula helpers name exactly the requested cells',
  'Every helper that builds a reference for use in a formula names exactly the requested sheet, rows and columns with exactly the requested absolute markers, enclosed in brackets, and the text parses back to that reference.',
  ['inputs'], 'all helper variants, all indexes, all sheet names',
  'The helpers come in dozens of near-identical variants (absolute row, absolute column, both, with and without sheet); tests use few of them.',
  ['src/formula.rs', 'src/refs.rs'],
  [('helpers', 'src/formula.rs fcellref*, fcellrange*, cell!, fcell!'), ('to_formula', 'src/refs.rs')],
  ['C14_formula'], 'proof', 'All fcell* functions: unbounded proof against the reference text specification of C01. The cell!/fcell! macros expand to the same constructors and are covered by a bounded check.',
  'the cell!/fcell! macro variants and the parse-back of the helper texts', GEN + ': every helper and macro variant with random indexes and sheet names'),
'C03': P('A sheet is a map from positions to cells',
  'Reading a cell returns exactly what the last write to that position stored, for every property of the cell (value, formula, style, validation, spans, annotation, drawing frames, repeat); a write, a partial write or a removal at one position never changes any other position or any other property of the same cell; a position never written reads as an empty cell. Removing a cell returns what it held.',
  ['inputs', 'histories'], 'all positions, all cell contents, all sequences of writes, partial writes and removals',
  'Tests write a few cells and read them back; the claim is that no operation ever leaks into another cell or property, for every history.',
  ['src/sheet_.rs', 'src/cell_.rs'],
  [('cell access', 'src/sheet_.rs Sheet::cell, cell_ref, add_cell_data, remove_cell, set_*, clear_*'), ('rare cell data', 'src/cell_.rs CellData, CellDataExt, CellContent, CellContentRef')],
  ['C03_store'], 'proof', 'Every cell accessor and mutator of Sheet and the conversions between CellData, CellContent and CellContentRef: unbounded proof; each operation is specified as an update of one entry of the map, so every history follows by induction over the calls.',
  'in-place annotation and frame access and operation histories against a reference map', GEN + ': random histories of cell operations against a model map; non-trivial = histories that read a written cell',
  ['The BTreeMap entry API behaves as get/insert (the wrapper vp_entry is itself verified against the vstd map specification).', 'Clone of a cell value returns an equal value.'],
  state=[('Sheet.data', 'the used cells by (row, col)', 'src/sheet_.rs')]),
'C04': P('Row and column settings belong to exactly one row or column',
  'Setting a style, a default cell style, visibility, width or height of a row or column changes exactly that setting of exactly that row or column, no matter how neighbouring headers were merged into repeated blocks before, and reading returns the last value set. Rows and columns that were never touched keep their defaults.',
  ['inputs', 'histories'], 'all rows and columns, all previous histories of header settings including the repeated header blocks of loaded files',
  'Headers are stored as blocks with a span which are split on write; every relative position of write and block must be right, a test picks one.',
  ['src/sheet_.rs'],
  [('block split', 'src/sheet_.rs Sheet::create_col_header, create_row_header, valid_col_header, valid_row_header'), ('settings', 'src/sheet_.rs set_col_*, set_row_*, col_*, row_*')],
  ['C04_headers'], 'proof', 'Every header getter and setter is proved against the per-column (per-row) view of the blocks, for every well-formed block map; well-formedness (blocks do not overlap) is itself an invariant proved for all of them. Header settings across write and read belong to C08.',
  'the same operations on sheets loaded from files with repeated headers, where the blocks come from the reader', GEN + ': random histories of header settings against a per-index model',
  ['BTreeMap::range(..=k).next_back() returns the entry with the greatest key not above k (vp_floor).']),
'C05': P('Iteration visits exactly the cells of the requested area, in order',
  'Iterating over a sheet, over a range of positions in lexical order, over a rectangle row by row or over a rectangle column by column yields every used cell of the requested area exactly once, with its true position and content, nothing outside of it, and in that order (a lexical range also from its back end). Size hints are never wrong about the number of cells that follow. The used grid size is the smallest grid that covers all used cells.',
  ['inputs'], 'all sheets, all ranges of positions with an inclusive or open start',
  'Sparse storage makes the interesting cases the gaps and borders; tests iterate over dense little blocks.',
  ['src/sheet_.rs'],
  [('iterators', 'src/sheet_.rs Range, CellIter, IterRows, IterCols'), ('grid size', 'src/sheet_.rs used_grid_size')],
  ['C05_iter'], 'proof', 'next() of every iterator is proved to return the first remaining cell of the area and to leave exactly the rest; the bounds passed to the map are proved exact. A range with an excluded start is outside the proved theorem.',
  'whole iterations, double-ended use and size hints against a model', GEN + ': sparse sheets and random ranges; non-trivial = a range holding at least one cell',
  ['BTreeMap::range yields the entries inside the bounds in key order (assumed specification).']),
'C12': P('The collections of a workbook never lose or mix up an element',
  'Sheets keep their order: adding, inserting, removing, detaching and attaching affects exactly the sheet named, every other sheet and every style stays, and a detached sheet comes back to its own place. Every named thing of a workbook (styles of all kinds, value formats, page styles, master pages, fonts, validations) is found under the name it was added with and holds what was put in; a thing without name receives a non-empty name that no other one of its kind has; adding, changing or removing one leaves all others as they are.',
  ['histories'], 'all histories of add, replace, get, change, remove, detach and attach over sheets and 18 named collections',
  'Eighteen near-identical sets of functions of which the tests use a few, each in one order; name clashes need particular histories of additions and removals.',
  ['src/workbook_.rs', 'src/ds/detach.rs', 'src/macro_style.rs', 'src/macro_format.rs'],
  [('sheet list', 'src/workbook_.rs push_sheet, insert_sheet, remove_sheet, detach_sheet, attach_sheet, sheet_idx; src/ds/detach.rs'), ('generated names', 'src/workbook_.rs auto_style_name, auto_style_name2'), ('named collections', 'src/workbook_.rs add_*/remove_*/*_mut; src/macro_style.rs, src/macro_format.rs name/set_name/*_ref')],
  ['C12_book'], 'proof', 'All functions of the 18 collections and of the sheet list are proved without bound, including that a generated name is fresh and that the search for it terminates (pigeonhole).',
  'iterators over the collections, clone, and default styles: histories against a plain list/map model', GEN + ': random histories per collection with names from a small pool incl. the generated ones',
  ['HashMap<K, V> with a key that borrows as str behaves as a map from that text (std::collections).', 'core::fmt writes different decimal digits for different numbers.', 'number of generated names of a kind stays below u32::MAX.'],
  ['thm_detach_attach', 'thm_fresh', 'lemma_taken']),
'C13': P('A value is exactly what was put in, and has exactly one type',
  'Every conversion into a cell value yields the value of the corresponding type with exactly the given content (nothing for None), and every typed accessor returns that content when the value has the type, and the given or the type default otherwise: numbers, percentages and currencies give the same number through every numeric accessor, text never reads as a number, a date keeps its day, and markup text reads as its plain lines.',
  ['inputs'], 'all values of all nine value types, all accessors, all conversions',
  'Nine value types times some forty near-identical accessors and sixty conversions, most of which no test calls.',
  ['src/value_.rs'],
  [('accessors', 'src/value_.rs Value::as_*, value_type, currency'), ('conversions', 'src/value_.rs impl From<..> for Value, from_number!')],
  ['C13_value'], 'proof', 'All accessors and conversions of Value, including all ten expansions of from_number!, are proved; numeric casts are related by the IEEE cast relation of Verus. rust_decimal conversions are bounded.',
  'the rust_decimal conversions, plain text of nested markup (extract_text), and concrete cast results', GEN + ': every constructor crossed with every accessor on boundary numbers and texts',
  ['chrono dates and durations are opaque values; a date-time consists of its date and its time.', 'Box<str> is treated as String.'],
  ['thm_text', 'thm_f64', 'thm_date', 'thm_currency']),
'C09': P('Attribute text and value are inverse to each other',
  'Every value that is written as XML attribute text (numbers, booleans, dates, times, durations, lengths, visibility, link and page usage words) is read back as exactly that value, nanoseconds and signs included. The reader accepts the documented forms of durations and dates in full and assigns them their ODF meaning, and reports malformed text as an error instead of a different value or a crash.',
  ['inputs'], 'all values of each type; all attribute texts',
  'Number and time formats break at boundaries (nanosecond digits, signs, negative durations, leading zeros, empty text) that samples miss.',
  ['src/io/parse.rs', 'src/io/format.rs', 'src/style/units.rs', 'src/ds/length.rs'],
  [('readers', 'src/io/parse.rs parse_*, token_*'), ('writers', 'src/io/format.rs format_duration2, format_datetime'), ('words', 'Visibility, XLinkShow, XLinkType, XLinkActuate, FormatSource, TransliterationStyle, MasterPageUsage, Length')],
  ['C09_text'], 'proof', 'Word enums, booleans, integers, durations (value and text), date parts, lengths: unbounded proof that text and value are inverse. The nom grammar of durations and date-times is an assumed contract and, like chrono formatting and floating point text, covered by the bounded part.',
  'cells with every value type through write and read; grammar-derived and mutated attribute texts against an independent parser', GEN + ': boundary and random values; texts derived from the grammar and mutated',
  ['nom digit1/char/opt/tuple as documented (grammar contract).', 'chrono: Duration is a number of nanoseconds, Parsed::to_naive_datetime is the date named by its fields.', 'str::parse::<f64> reads back what f64 Display writes.'],
  ['thm_duration', 'thm_length', 'thm_visibility', 'thm_usage', 'thm_trans', 'thm_source']),
'C10': P('Whatever text a document holds, the written XML is well-formed and carries it',
  'For every content of every text, name, attribute, comment or script of a workbook, the written document is well-formed XML in which each such text appears exactly once decoded: no text can end its attribute or element early, open another element, or be changed by escaping. Every element that is opened is closed, in nesting order, and the writer refuses calls that would break this.',
  ['inputs', 'histories'], 'all texts in all places that accept text, all sequences of writer calls',
  'Escaping is correct or wrong per place; tests use plain words in most of the hundreds of places.',
  ['src/xmlwriter.rs', 'src/io/write.rs'],
  [('writer', 'src/xmlwriter.rs XmlWriter, Stack'), ('use', 'src/io/write.rs write_*')],
  ['C10_xml'], 'proof', 'XmlWriter (elements, attributes, text, escaping, nesting) is proved without bound: the output is exactly the specified serialisation, un-escaping it gives the text, an attribute value holds no quote and no markup. That every place in write.rs hands its text to the escaping calls is bounded.',
  'documents with hostile texts in every place, all output formats, re-parsed by an independent well-formedness checker and compared text by text', GEN + ': hostile fragments in 60 kinds of places',
  ['io::Write and Formatter append exactly what they are given.'],
  ['thm_escape', 'thm_attr_ends', 'thm_text_ends', 'thm_names']),
'C11': P('A style or format holds and keeps exactly the attributes set',
  'Every typed setter of a style, format, font, page layout or border records exactly the ODF attribute it is named for with the ODF text of the given value, replaces an earlier value of the same attribute and changes no other one. Styles, value formats with their parts and conditions, page styles, master pages and fonts come back from a written file with exactly these attributes, and headers and footers with exactly their regions, paragraphs and headings. A style in a file is read with exactly its own attributes and content, whether its element is empty or not, and takes nothing from its neighbours.',
  ['inputs', 'histories'], 'all typed setters, all values, all histories of setting and clearing; all workbooks of styles and formats through write and read',
  'More than 500 near-identical setters, each mapping to its own attribute name and unit; a test covers a few.',
  ['src/attrmap2.rs', 'src/macro_attr_style.rs', 'src/macro_attr_fo.rs', 'src/macro_attr_draw.rs', 'src/macro_attr_text.rs', 'src/style', 'src/format', 'src/io/write.rs', 'src/io/read.rs', 'src/color.rs'],
  [('attribute map', 'src/attrmap2.rs AttrMap2'), ('typed setters', 'src/macro_attr_*.rs, src/style/*.rs'), ('texts', 'Display of the unit enums in src/style/units.rs; color_string, border_string, shadow_string')],
  ['C11_attrs', 'C11_styles', 'C11_read'], 'proof', 'The attribute map is proved to be a map, 626 typed setters (of styles and value formats) are proved to set exactly the named attribute to the ODF text of the value, all unit enums to be written as their ODF words. The writers are proved too: every kind of style, each value format with its parts and conditions, page styles, master pages with headers and footers put out exactly their element with exactly the attributes the style holds, for all styles (write_styles, write_*style, write_valuestyles, write_pagestyles, write_masterpage, write_regions). Reading is proved too, for every sequence of events: the lists of styles (read_office_styles, read_office_automatic_styles, read_office_master_styles, read_office_font_face_decls), the eight kinds of styles, value formats with all kinds of parts, page layouts, master pages with headers and footers: each gets exactly the attributes and content of its own element, in order, and the reader goes on exactly behind it. set_print is bounded; the part builders of value formats are proved in C19.',
  'styles, formats, pages, master pages and fonts with random attributes through write and read; every setter called on the real crate', GEN + ': random attribute sets per style kind, all 526 setter cases',
  ['core::fmt writes what Display of the type specifies; f64/ints opaque decimal text.', 'HashMap::values yields every value once, in some order; iterating an attribute map yields its entries; texts of conditions and cell references are opaque here (C16, C01); XmlWriter as proved in C10; write_xmltag as proved in C15.', 'quick-xml delivers the events and attributes of the document in order with escapes resolved; WorkBook::add_* as proved in C12; read_xml as proved in C15; the texts of conditions and base cells are parsed as in C16/C01.'], []),
'C06': P('What is written to a file is what is read back, cell by cell',
  'For every workbook, the written file (ods compressed, ods stored, fods) read back gives the same sheets in the same order, and every sheet has exactly the same used cells at exactly the same positions, each with the same value, formula, style, validation, annotation, frames and repeat count: no cell is lost, duplicated, moved or changed, wherever the gaps between the cells are.',
  ['inputs'], 'all sheets: all sets of positions, all cell contents, all row repeats and column repeats, all output formats',
  'Positions are not in the file: they are sums of repeat counts, and the writer must fill every gap exactly. A test writes a few dense blocks.',
  ['src/io/write.rs', 'src/io/read.rs'],
  [('cells', 'src/io/write.rs write_sheet, write_cell, write_empty_cells, write_leading_cells'), ('rows', 'src/io/write.rs write_start_current_row, write_end_prev_row, write_empty_rows_before, write_empty_row'), ('reading', 'src/io/read.rs read_table, read_table_row, read_table_cell')],
  ['C07_grid', 'C06_read', 'C15_tree'], 'proof', 'Writer: each function that puts out cells and rows is proved against a model of what an ODF reader makes of the elements (position = sum of the repeat counts before), for all sheets; a written cell carries exactly the attributes and content of the cell. Theorems: every position belongs to exactly one element, none is missing. Reader: what each event of a table does is proved (row and column counted by the repeat counts, the cell read at exactly that position with exactly its attributes, value, paragraphs, annotation and frames; only a cell without content is left out). write_sheet as a whole is proved: its loop over the cells puts every cell of the sheet at its own place with its own content and nothing else into the table (thm_cell_kept, thm_nothing_made_up), for all sheets. The content of a cell: read_text_or_tag is proved to give the joined text of an element without markup and otherwise the tree of the element (thm_content), for all trees. The expansion of repeats after reading is covered by the bounded round trip.',
  'write and read of whole workbooks, all formats, with content-free, header-free and repeated reads', GEN + ': sparse sheets with far gaps, all value types, repeats, styles; non-trivial = book with used cells',
  ['quick-xml hands out the events and the attributes of an element in file order, with escapes resolved.', 'the read_table loop hands each event to the verified step once; positions stay below 2^32, no empty group element, repeat counts are positive.', 'read_annotation and read_draw_frame consume exactly their element (read_xml and read_text_or_tag: proved in C15_tree).', 'write_xmltag, write_annotation, write_draw_frame put out one element each (C15).', 'outer_groups_first returns the same groups in another order.', 'XmlWriter as proved in C10; CellRange predicates as proved in C02; Value::value_type as proved in C13.'],
  ['thm_one_element_per_position', 'thm_no_row_missing', 'thm_no_column_missing', 'thm_no_cell_missing', 'thm_lines']),
'C07': P('Merged areas cover exactly their cells in the file',
  'In the written file a cell is marked covered if and only if it lies inside the area of a visible merged cell other than its own top left cell, whatever other cells, empty rows, gaps and repeats surround the area; the span of the merged cell is written with it and content below it is kept. Reading such a file gives the same spans at the same positions.',
  ['inputs'], 'all sheets with merged cells: all spans, all positions, overlapping and nested ones, all cells inside',
  'Covering depends on the interplay of spans with gaps before, in and after rows; each combination has its own code path.',
  ['src/io/write.rs', 'src/io/read.rs', 'src/refs.rs'],
  [('spans', 'src/io/write.rs split_hidden, remove_outlived, SplitCols'), ('use', 'src/io/write.rs write_sheet, write_leading_cells, write_empty_row, write_empty_rows_before')],
  ['C07_grid', 'C06_read'], 'proof', 'split_hidden and remove_outlived are proved exact for all spans, and every filler of gaps is proved to mark exactly the covered positions of its rows and columns; reading a cell is proved to take over exactly its span attributes. The loop of write_sheet is proved to keep exactly the spans of the visible cells, so that every position of the table, with or without data, is marked covered exactly when it lies inside the span of another visible cell.',
  'files with merged areas read by an independent grid reader and compared with the covered positions computed from the spans; read back by the crate', GEN + ': sheets with random, nested, overlapping and touching spans; non-trivial = sheet with a visible span',
  ['outer_groups_first returns the same groups in another order.', 'CellRange predicates as proved in C02; XmlWriter as proved in C10.'],
  ['thm_one_element_per_position', 'thm_no_cell_missing']),
'C08': P('The layout of a sheet survives the file',
  'For every row and column inside the used grid, the written file read back gives the same style, default cell style, visibility, width or height and row repeat; the same row and column groups with the same nesting and display state; the same header rows and columns; and the same sheet name, style, visibility, print settings and view settings. Elements for rows, columns, groups and headers are properly nested.',
  ['inputs'], 'all combinations of row/column headers, groups, header rows/columns with cells and gaps inside the used grid',
  'Headers, groups and repeats must be cut at each other\'s borders; every relative position matters, tests use a few.',
  ['src/io/write.rs', 'src/io/read.rs', 'src/sheet_.rs'],
  [('columns', 'src/io/write.rs write_table_columns, calc_col_headers, dedup_colheader'), ('rows', 'src/io/write.rs write_start_current_row, write_end_prev_row, write_end_last_row, write_empty_rows_before'), ('view settings', 'src/config.rs, src/io/write.rs calc_derived, src/io/read.rs calc_derived')],
  ['C07_grid', 'C06_read'], 'proof', 'Writer: rows and columns are proved to carry exactly the settings of the rows and columns they stand for, to be inside header elements exactly when they belong to the header, and groups to be opened and closed at exactly their borders, for all sheets. Reader: table, row, column and group elements are proved to be read into exactly the row, column, group and header range they stand for. Preparation of the column headers and the view settings are covered by the bounded round trip.',
  'write and read of sheets with random layout, compared row by row and column by column', GEN + ': random headers, groups, header ranges, repeats and cells; non-trivial = sheet with at least one setting',
  ['outer_groups_first returns the same groups in another order.', 'XmlWriter as proved in C10; Visibility words as proved in C09.'],
  ['thm_no_row_missing', 'thm_no_column_missing', 'lemma_same_header', 'lemma_same_spans']),
'C15': P('The other parts of a workbook survive the file',
  'Document metadata (texts, dates, counters, template, reload, link behaviour and user defined values of every type), validation rules with their messages, scripts and event listeners, fonts, annotations and drawing frames with their pictures, application settings and embedded extra files: what a workbook holds is written in full, each item once and under the ODF element and attribute that is meant for it, with reserved characters escaped, and the written file read back gives the same content. Elements the library does not interpret (declarations in front of the sheets, named expressions, database ranges, conditional formats and the like behind them, the same within a sheet) are passed through unchanged and stay in their place.',
  ['inputs'], 'all metadata, validations, scripts, listeners, settings trees, fonts, annotations, frames, markup trees and extra files',
  'Some eighty optional items, each with its own element, attribute and type; a swapped or forgotten one shows only when exactly that item is used.',
  ['src/io/write.rs', 'src/io/read.rs', 'src/metadata.rs', 'src/validation.rs', 'src/draw.rs', 'src/config.rs', 'src/manifest.rs', 'src/xmltree.rs'],
  [('metadata', 'src/io/write.rs write_office_meta; src/io/read.rs read_office_meta'), ('validations', 'src/io/write.rs write_content_validations, write_validation_text; src/validation.rs'), ('scripts, events, fonts', 'src/io/write.rs write_scripts, write_event_listeners, write_style_font_face'), ('annotations, frames, markup', 'src/io/write.rs write_annotation, write_draw_frame, write_draw_image, write_xmltag; src/draw.rs, src/xmltree.rs'), ('settings', 'src/io/write.rs write_office_settings, write_config_*; src/config.rs'), ('extra files', 'src/io/write.rs write_ods_manifest, write_ods_extra')],
  ['C15_parts', 'C15_tree'], 'proof', 'Writer: every function that puts out one of these parts is proved to put out exactly the elements, attributes and texts that the data ask for, properly nested, for all data incl. markup trees and settings trees of any depth; insertion into and lookup in the settings map and the document counters are proved too. Reader: read_xml is proved to give, for every document tree, exactly this tree and to go on exactly behind it (thm_tree), so that passed-through elements are read in full; reading the other parts is covered by the bounded round trip.',
  'write and read of workbooks with random parts, two generations, all formats; documents with random elements the library does not interpret, put in front of and behind the sheets and rows', GEN + ': random metadata, validations, scripts, listeners, configuration, extra files; non-trivial = every generated book',
  ['XmlWriter as proved in C10 (the model keeps elements, attribute maps and texts; attribute order means nothing).', 'HashMap yields each value once, in an order of its own.', 'AttrMap2::iter walks keys and values in step; ConfigIter walks the entries in order.', 'format_datetime, format_duration2 and the XLink words as proved in C09; the text of conditions and cell references is opaque here (C01 for references).', 'texts given as base64 are base64; an indexed settings map has fewer than 2^31 entries; settings trees hold the item kinds their place allows (the writer panics otherwise).', 'attr_str and text_str receive constants without reserved characters.', 'quick-xml hands out the events in file order and reports an end tag that does not match as an error.'],
  ['lemma_count', 'thm_tree', 'thm_content']),
'C16': P('A condition states exactly the comparison it was made from',
  'Every constructor of a condition (comparison of the content or of the text length, ranges, lists of values, cell ranges, typed conditions, formulas) produces exactly the ODF expression of that comparison with exactly the given operands in the given order. A text operand is quoted so that, whatever characters it holds, it is read back as that text and ends where it ends; a number stands as its decimal text; in lists every element is quoted exactly once. Conditions of validations, style maps and value formats come back from a written file as the same expression.',
  ['inputs'], 'all operators, all numbers, all texts including quotes and separators, all lists',
  'The constructors are near-identical copies that differ in one operator; tests use one number each and no text with a quote in it.',
  ['src/condition.rs', 'src/validation.rs', 'src/style/stylemap.rs', 'src/format/stylemap.rs'],
  [('operands', 'src/condition.rs quote, Value::from'), ('constructors', 'src/condition.rs ValueCondition::*, Condition::*')],
  ['C16_cond'], 'proof', 'All constructors and all conversions of operands (every expansion of from_x_conditionvalue!) are proved; the quoting is proved to be inverse to reading a quoted text, in front of any continuation. The way through the file is bounded here (the writer of validations is proved in C15).',
  'conditions of validations, style maps and value formats through write and read', GEN + ': every constructor with boundary numbers and hostile texts; non-trivial = distinct condition',
  ['ToString of numbers and bool is an opaque text without quotes; CellRange::to_formula as proved in C01.', 'V: Into<Value> is one of the proved conversions.'],
  ['thm_quoted', 'thm_list_element']),
'C19': P('Value formats are built as asked, the ready-made ones are what they are called',
  'Every method of a format part builder sets exactly its ODF attribute, content or position to the given value and leaves the rest of the part alone; if_then applies its step exactly when the test is true; build appends exactly that part after the parts already there and changes nothing else of the value format. Every ready-made format (create_*, and the default formats of the supported locales) has the given name and locale and consists of exactly the parts its name says, in that order, each once (a currency prefix: symbol, blank, number; D.M.Y: day, month, year with dots between; ...). A workbook made for a supported locale has, for every value type, a default style whose value format exists in it under that name and is of the right kind.',
  ['inputs', 'histories'], 'all builder methods with all arguments in any sequence, all names, locales, symbols, digit counts',
  'There are 19 near-identical builders, 23 constructors and 32 locale functions; tests look at none of the attributes they produce.',
  ['src/format/builder.rs', 'src/format/mod.rs', 'src/format/create.rs', 'src/macro_format.rs', 'src/locale/', 'src/defaultstyles.rs', 'src/workbook_.rs'],
  [('parts and builders', 'src/format/mod.rs FormatPart; src/format/builder.rs Part*Builder'), ('formats', 'src/macro_format.rs valueformat!, part_*!, push_*!'), ('ready-made formats', 'src/format/create.rs create_*; src/locale/*.rs'), ('defaults of a workbook', 'src/workbook_.rs WorkBook::locale_settings; src/defaultstyles.rs')],
  ['C19_format'], 'proof', 'FormatPart, all 19 builders with every method, part_*/push_* of all seven formats, all 23 create functions and the formats of all four locales are proved, through mutable references held in the builders. The table that selects the locale and WorkBook::new are bounded.',
  'WorkBook::new and locale_settings for the supported locales; getters of value formats', GEN + ': every builder method with boundary values, alone and in random chains; every ready-made format; non-trivial = distinct part or format',
  ['ToString of numbers, characters and locale subtags is an opaque text; locale!(s) is the locale named by s and is not the unknown locale.', 'AsRef<str> and Into<String> arguments yield one text (trait with a text view stands in).', 'The derived Default of an attribute map and of a part list is empty.'],
  []),
'C20': P('Markup, drawings, headers and checks hold exactly what was put into them',
  'An element built through the API has exactly the name given, the attributes set (last value per name) and the texts and elements added, in that order; its plain text is its texts in document order, and turning it into a list of elements loses no text silently. Every text helper (headings, paragraphs, spans, links, blanks, tabs, fields) is the ODF element it stands for, and each of its methods and every typed setter of annotations, frames and images sets exactly the ODF attribute it is named for. Image data given as bytes is returned as exactly these bytes, and base64 of any program is understood. A header or footer keeps each region apart, is shown once it is filled unless it is hidden, and checks and conditional styles keep each of their settings.',
  ['inputs', 'histories'], 'all elements, texts, attribute values; all sequences of setting, adding and clearing',
  'Some 200 near-identical functions (33 element helpers, 48 typed setters, six headers times four regions) of which tests call a handful and look at none of the results.',
  ['src/xmltree.rs', 'src/text.rs', 'src/macro_text.rs', 'src/draw.rs', 'src/macro_attr_draw.rs', 'src/macro_attr_svg.rs', 'src/macro_attr_table.rs', 'src/macro_attr_xlink.rs', 'src/style/masterpage.rs', 'src/validation.rs', 'src/style/stylemap.rs', 'src/format/stylemap.rs'],
  [('elements', 'src/xmltree.rs XmlTag, XmlVec'), ('text helpers', 'src/macro_text.rs text_tag!; src/text.rs TextH, TextP, TextSpan, TextA, TextS, TextTab'), ('drawings', 'src/draw.rs Annotation, DrawFrame, DrawImage'), ('pages', 'src/style/masterpage.rs MasterPage, HeaderFooter; src/io/write.rs write_masterpage'), ('checks', 'src/validation.rs; src/style/stylemap.rs; src/format/stylemap.rs')],
  ['C20_markup'], 'proof', 'XmlTag including the recursive extract_text and into_vec, all 33 text elements with all their methods, all typed setters and accessors of annotations, frames and images, MasterPage and HeaderFooter, validations and style maps are proved without bound. Base64 (a dependency), attr_slice, Display and the shown flag in the written file are bounded.',
  'image data through base64, attribute slices, Display, headers in the written file', GEN + ': random trees against a plain model; every text helper, setter and accessor; random image bytes, padded, unpadded and broken into lines',
  ['ToString of numbers and cell references is an opaque text (C01, C09).', 'AsRef<str>, Into<String> and Into<XmlTag> arguments yield one text or element (traits with a view stand in).', 'into_vec is verified with its loop over a shared view of the content it consumes; the clone of an element is that element.', 'str::trim().is_empty() holds iff every character is white space.'],
  ['thm_set_get', 'thm_par']),
}

NOT_APPLICABLE = {
'C17': dict(title='A damaged or foreign file is an error, never a crash',
  statement='Reading any sequence of bytes as a spreadsheet either yields a workbook or an error; it never panics, never loops forever and never exhausts memory because of counts stated in the file.',
  over=['inputs'], qtext='all byte sequences', why='Files come from other programs and from damaged media; tests hold well-formed files only.',
  files=['src/io/read.rs'], mechanism=[('event loops', 'src/io/read.rs read_*')],
  reason='The claim is about every event stream that zip and quick-xml can produce; both are dependencies without contracts, and the proofs of the reader functions (C06, C08, C15) need the preconditions of written files (repeat counts positive and their sums below 2^32, groups not empty, streams complete). Deciding it would mean proving the whole reader free of these preconditions; no contract within reach expresses it.'),
'C18': dict(title='A failed write is reported to the caller',
  statement='If the destination of a write refuses or truncates data at any point, the write call returns an error; a call that returns success has delivered the complete document.',
  over=['crash_points'], qtext='all points at which the destination can fail', why='Needs an injected failure at every write of every document.',
  files=['src/io/write.rs', 'src/xmlwriter.rs'], mechanism=[('io', 'src/io/write.rs write_ods*, write_fods*')],
  reason='The contracts model the destination as a sink that accepts what it is given; the failing behaviour of io::Write, BufWriter and ZipWriter (buffering, implicit flush on drop) has no specification in vstd and lies in the dependencies, so no postcondition over the extracted functions can state delivery.'),
}
