#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["pdfsyntax/"+f for f in files],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": "pdfsyntax/"+w} for n, w in mechanism],
        "observe_at": observe, "hook_needed": None}})

p("C01", "Documents are persistent values",
  "Applying any public operation (add, update or delete an object, commit, rewind, squash, compress, rotate, remove or keep pages, concatenate, annotate, write) to a document returns a new document and leaves every earlier document as it was: its live objects, pending changes, revision number and the bytes it would write stay the same. This also holds for values handed out: modifying an object returned by the library does not modify the document.",
  ["histories"], "every sequence of operations, each applied to any document produced so far, observed on all documents after every step",
  "The tests never look at a document again after deriving another one from it; sharing between copies only shows in multi-step histories.",
  ["docstruct.py", "api.py"], [("copy_doc", "docstruct.py"), ("get_object (deepcopy)", "docstruct.py"), ("update_object/add_object", "docstruct.py")],
  ["get_object, in_use, changes, repr, writefile of every retained Doc"])
p("C02", "Writing appends to the original bytes and never rewrites them",
  "Writing a document opened from a file produces the original bytes up to the end of its last revision followed only by new sections, one per later non-empty revision, and an unmodified document is written back unchanged. Bytes of a committed revision are the same in every later write of a document that still contains that revision.",
  ["histories", "inputs"], "every edit/commit/write history over files of every structure (tables, streams, hybrid, linearized, several revisions, trailing garbage)",
  "No test writes a file at all.",
  ["api.py", "docstruct.py", "filestruct.py"], [("writefile", "api.py"), ("eof_cut", "filestruct.py"), ("revision_index/merge_fdata", "docstruct.py"), ("build_revision_byte_stream", "filestruct.py")],
  ["bytes written by writefile"])
p("C03", "What is written is what is read back",
  "After any history of edits and commits, the written file, reopened, has exactly the live objects of the document that was written, with the same values, references and decoded stream contents, and deleted objects stay deleted. Its revisions match the non-empty committed ones and each earlier revision is recovered by rewinding.",
  ["histories"], "every edit/commit/rewind/squash/reopen history, with object values of every PDF type",
  "No test writes or reopens a file.",
  ["docstruct.py", "filestruct.py", "objects.py", "api.py"], [("build_revision_byte_stream", "filestruct.py"), ("doc_constructor", "api.py"), ("serialize/parse_obj", "objects.py"), ("memoize_obj_in_cache", "docstruct.py")],
  ["readfile of a written file; bytes read by an independent reader"])
p("C04", "Commit and rewind move by exactly one revision",
  "Committing pending changes closes the revision and opens an empty one with the same live objects; committing without changes has no effect. Rewinding returns to the previous revision with exactly its live objects and its change list, any number of times down to revision 0, and that revision can then be edited, committed and written like any other.",
  ["histories"], "every interleaving of edits, commits and rewinds, on documents built in memory, opened from files of every structure, and reopened",
  "The tests only check the number of revisions of two freshly opened samples.",
  ["docstruct.py"], [("commit", "docstruct.py"), ("rewind", "docstruct.py"), ("build_cache", "docstruct.py")],
  ["repr (revision number), in_use, get_object, changes after each commit/rewind"])
p("C05", "Change tracking is exact",
  "The change list of a document names exactly the objects added, updated or deleted since the previous revision, each once and with the right action, and the object count shown for a document equals the length of that list. The list of objects in use names exactly the live objects.",
  ["histories"], "every sequence of add/update/delete/commit/rewind",
  "No test calls the change list.",
  ["docstruct.py"], [("changes", "docstruct.py"), ("in_use", "docstruct.py"), ("update_object/add_object", "docstruct.py")],
  ["changes, in_use, repr"])
p("C06", "Squash keeps the live document, whole and in one revision",
  "Squashing any document yields a single revision with exactly its live objects, densely renumbered with generation 0 and every reference (also inside nested containers and stream dictionaries) retargeted consistently; a reference to an object that is not live never becomes a reference to a live one. The catalog and the document information are kept, and the result writes and reopens to the same document.",
  ["histories", "inputs"], "every history with deletions, generations, gaps in numbering and reference graphs, then squash",
  "No test squashes.",
  ["docstruct.py", "objects.py"], [("squash", "docstruct.py"), ("defragment_map", "docstruct.py"), ("deep_ref_retarget", "objects.py")],
  ["in_use/get_object/trailer of the squashed document and of its reopened file"])
p("C07", "Compression is lossless",
  "Compressing any document yields a single-revision file that reopens to an equivalent document: same pages, same live objects up to renumbering, same decoded data of every stream, same metadata, and untouched data for streams whose filters are not supported. The result is at least version 1.5, and stays editable by further incremental updates.",
  ["histories", "inputs"], "every document (filters, object streams, deletions, revisions) compressed once or repeatedly, then edited and reopened",
  "No test compresses.",
  ["api.py", "docstruct.py", "filestruct.py", "filters.py"], [("compress", "api.py"), ("group_obj_into_stream", "docstruct.py"), ("apply_filter", "api.py"), ("finalize_stream/format_xref_stream", "filestruct.py")],
  ["reopened output of compress/writefile and of the compress command"])
p("C08", "Written sections are well-formed PDF",
  "In every file the library writes, each cross-reference entry locates exactly the object it names (by byte offset, or by position in its object stream), every object of a section is indexed, freed entries form one closed list with incremented generations, and /Size, /Prev, /Index, /W, /Length, /N, /First and startxref are exact. Table entries are 20 bytes long.",
  ["histories", "configurations"], "every file written after any history, with cross-reference tables or streams, object streams, any number of objects, generations and file sizes across field-width boundaries",
  "No test writes a file, and the library's own reader tolerates many of these errors.",
  ["filestruct.py", "docstruct.py", "objects.py"], [("format_xref_table/format_xref_stream", "filestruct.py"), ("circular_deleted", "filestruct.py"), ("build_revision_byte_stream", "filestruct.py"), ("finalize_stream", "filestruct.py")],
  ["bytes written by writefile, read by an independent strict scanner"])
p("C09", "Each object resolves to its latest definition",
  "For a file made of any sequence of revisions using cross-reference tables, cross-reference streams, hybrid sections, object streams or a linearized first revision, every object resolves, in every revision, to the definition given by the last section that mentions it, and to nothing when that section frees it. The number of revisions and the linearized and hybrid indications match the file.",
  ["inputs", "histories"], "every sequence of sections redefining, freeing and adding objects, directly or in object streams, in every supported layout",
  "The two sample files exercised have one table per revision and no redefinition, freeing, stream, hybrid or linearized structure.",
  ["filestruct.py", "docstruct.py", "api.py", "objects.py"], [("build_xref_sequence", "filestruct.py"), ("build_index_from_xref_sequence", "filestruct.py"), ("parse_xref_table/parse_xref_stream", "filestruct.py"), ("memoize_obj_in_cache", "docstruct.py")],
  ["get_object/in_use/structure after readfile and rewind"])
p("C10", "The order of object accesses does not matter",
  "The value of an object does not depend on which objects were read before it, nor on reading it again, nor on pending modifications of other objects: lazy loading is invisible.",
  ["histories", "inputs"], "every order and repetition of reads interleaved with updates, over files with object streams and redefined objects",
  "No test reads from an object stream.",
  ["docstruct.py"], [("memoize_obj_in_cache", "docstruct.py"), ("get_object", "docstruct.py")],
  ["get_object"])

p("C11", "The file map covers the file and finds every object",
  "Reading a well-formed file sequentially (the disassembler's map) yields consecutive regions that cover it from the first byte to the last without gap or overlap. The map contains every indirect object of every revision, including those inside object streams, with its number and generation, and every cross-reference entry, exactly once.",
  ["inputs"], "every layout of header, comments, objects, streams, tables, trailers and separators",
  "No test calls the file map.",
  ["filestruct.py", "objects.py", "cli.py"], [("file_object_map", "filestruct.py"), ("parse_region", "objects.py"), ("dump_disasm", "cli.py")],
  ["file_object_map result; output of the disasm command"])
p("C12", "Index diagnosis flags exactly the wrong entries",
  "For every file, the index check reports exactly the in-use cross-reference entries that do not lead to the object they name and exactly the objects that no entry leads to. The disassembler marks exactly those with a question mark.",
  ["inputs"], "every file with any subset of wrong, missing or superfluous entries, in tables or streams, for direct and embedded objects",
  "No test calls the index checks.",
  ["filestruct.py", "cli.py"], [("check_index_targets", "filestruct.py"), ("check_not_indexed_objects", "filestruct.py"), ("dump_disasm", "cli.py")],
  ["result of the check functions; output of the disasm command"])
p("C13", "Parsing yields the denoted object for every valid spelling",
  "Every valid spelling of a PDF object (numbers, names, booleans, null, literal and hexadecimal strings, references with generation, arrays, dictionaries, streams, any nesting, any white space and comments between tokens, any delimiter adjacency) parses to that object. The token boundaries found are those of the PDF lexical rules.",
  ["inputs"], "every object tree and every spelling of it, in particular delimiters, escapes and brackets inside strings and comments at any nesting depth",
  "Tests sample about thirty spellings; strings, comments and nesting interact in unboundedly many ways.",
  ["objects.py"], [("next_token", "objects.py"), ("parse_obj", "objects.py"), ("replace_ref", "objects.py")],
  ["parse_obj, next_token"])
p("C14", "Serializing then parsing gives the same object",
  "Every object the library can represent, of any nesting, serializes to bytes that are valid PDF syntax for that same object, for the library's own parser and for the PDF grammar. Stream data of any content, including empty data and data ending in line ends, survives unchanged.",
  ["inputs"], "every object tree over all types with extreme numbers, and every stream content",
  "Two tests compare two serialized values with constants.",
  ["objects.py", "filters.py"], [("serialize/to_str", "objects.py"), ("forge_stream", "objects.py"), ("parse_obj", "objects.py")],
  ["serialize, forge_stream, parse_obj"])
p("C15", "Filters decode the standard encodings and invert on encoding",
  "For every data and every chain of supported filters (Flate with or without PNG Up prediction, ASCIIHex, ASCII85), decoding the standard encoding of the data gives back the data, and encoding then decoding is the identity with the filters applied in the order of the filter array. Data with an unsupported filter or that cannot be decoded gives an explicit marker, never an exception or plausible data.",
  ["inputs"], "every byte string, filter chain, parameter form (name, array, missing) and permitted spelling of the encoded data",
  "No test applies a filter.",
  ["filters.py", "objects.py"], [("decode_stream/encode_stream", "filters.py"), ("decode_predictor", "filters.py"), ("asciihex", "filters.py")],
  ["decode_stream, encode_stream, stream contents of parsed objects"])
p("C16", "The page list follows the page tree, with inheritance",
  "For every page tree the page list is the sequence of its leaves in order, and each page has its own attributes completed by those of its nearest ancestor defining them, among resources, media box, crop box and rotation. The result depends only on the document at hand, not on documents or pages read before.",
  ["inputs", "histories"], "every page tree shape and placement of attributes, and every sequence of calls over several documents",
  "One test lists the single page of a flat tree without inherited attributes.",
  ["docstruct.py", "api.py"], [("flat_page_tree", "docstruct.py"), ("pages", "docstruct.py")],
  ["flat_page_tree, pages, page_layouts, len(doc)"])
p("C17", "Keeping or removing pages leaves exactly the pages asked for",
  "Removing, keeping, indexing, slicing or iterating pages yields a document with exactly the selected pages in their original order, with their inherited attributes, and a page count that agrees with the tree in every node. Everything the kept pages refer to, directly or through other objects (other than by back pointers /P and /Parent), is still there, and objects used only by removed pages are deleted.",
  ["inputs", "histories"], "every page tree, resource sharing graph and sequence of page selections, through commit, write, reopen and squash",
  "No test removes a page.",
  ["docstruct.py"], [("remove_pages/keep_pages", "docstruct.py"), ("dependencies", "docstruct.py"), ("Doc.__getitem__/DocIterator", "docstruct.py")],
  ["pages, flat_page_tree, get_object, in_use, number_pages"])
p("C18", "Concatenation is the sequence of both documents' pages",
  "Concatenating two documents gives a document whose pages are those of the left followed by those of the right, whichever of the two receives the incremental update, each page with its attributes, contents and reachable objects unchanged up to renumbering. Objects of the receiving document keep their numbers and values, and page counts agree with the tree.",
  ["inputs", "histories"], "every pair of documents (several revisions, deletions, generations, shared resources), repeated concatenation and slicing, through write and reopen",
  "No test concatenates.",
  ["docstruct.py", "objects.py"], [("concat", "docstruct.py"), ("deep_ref_retarget", "objects.py"), ("squash", "docstruct.py")],
  ["pages, flat_page_tree, get_object after concat and after reopening"])
p("C19", "Rotation composes modulo 360 and touches nothing else",
  "Rotating selected pages adds the angle, modulo 360, to the effective (own or inherited) rotation of exactly those pages, by default all pages. Every other page and page attribute is unchanged, for every sequence of rotations and other page operations.",
  ["inputs", "histories"], "every page tree with own or inherited rotations, page selection, angle, and sequence of rotations, commits, rewinds and reopens",
  "No test rotates.",
  ["api.py"], [("rotate", "api.py"), ("page_layouts", "api.py")],
  ["page_layouts, pages, changes"])
p("C20", "Adding an annotation adds exactly that annotation",
  "Adding a text annotation to a page makes it the last of that page's annotations, with the given text, rectangle and open state, and leaves all other annotations, pages and objects unchanged, whether the page had no annotation list, a direct one or an indirect one. It survives writing and reopening, for every text.",
  ["inputs", "histories"], "every text, page, existing annotation list form and sequence of annotations",
  "No test annotates.",
  ["api.py"], [("add_text_annotation", "api.py")],
  ["get_object on the page's /Annots, before and after reopening"])
p("C21", "Text strings are decoded by the PDF rules",
  "Every literal or hexadecimal string in PDFDocEncoding or big-endian UTF-16 is decoded to the text it denotes, for every permitted spelling: escapes, octal codes of one to three digits, line continuations, balanced or escaped parentheses, white space and either case in hexadecimal. Document metadata reports those texts.",
  ["inputs"], "every text and every spelling of it",
  "Eight tests sample one spelling each.",
  ["text.py", "api.py"], [("text_string", "text.py"), ("unescape_literal_string", "text.py"), ("decode_pdfdoc", "text.py"), ("metadata", "api.py")],
  ["text_string, metadata"])
p("C22", "Text is placed by the content stream's graphics and text state",
  "Interpreting a page's content stream places each shown string at the position and scale given by the text matrix, text rise, horizontal scaling, font size and current transformation at that point, for every sequence of state save and restore, transformation, text positioning and showing operators. Text advances by the widths of the shown characters, the character and word spacing, and the adjustments in arrays.",
  ["inputs", "programs"], "every operator sequence",
  "One test tokenizes a three-command stream; none interprets one.",
  ["graphics.py", "api.py", "text.py"], [("apply_command", "graphics.py"), ("multiply_matrices/trm", "graphics.py"), ("build_text_fragments", "api.py")],
  ["build_text_fragments on pages of a document"])
p("C23", "Shown codes map to Unicode through the font",
  "A shown string is converted by the font's ToUnicode map when present (single codes, ranges, range arrays, one or two byte codes) and else by the font's encoding (WinAnsi or MacRoman), and its width is the sum of the font's widths for its codes. Codes that are not mapped produce no text.",
  ["inputs"], "every character map, encoding, width table and string",
  "No test decodes through a font.",
  ["text.py", "docstruct.py"], [("apply_tounicode", "text.py"), ("apply_encoding", "text.py"), ("prepare_font/prepare_w/prepare_widths", "docstruct.py")],
  ["build_text_fragments, extract_page_text"])
p("C24", "Text extraction keeps all text, in reading order",
  "The extracted text of a page contains every shown string, lines from top to bottom (when they are at least a font size apart) and strings of a line from left to right. Strings far enough apart (more than 5 units) are separated by spaces in proportion to their distance, strings that touch are not separated, and lines are indented according to their distance to the left margin.",
  ["inputs"], "every arrangement of strings on a page",
  "No test extracts text.",
  ["layout.py", "api.py"], [("basic_spatial_layout", "layout.py"), ("extract_page_text", "api.py")],
  ["extract_page_text and the text command"])
p("C25", "The hex dump shows every byte of the range at its offset",
  "The hexadecimal dump of any data and range shows each byte of the range exactly once, in order, in hexadecimal and as a printable character or a dot, on lines labelled with their offset.",
  ["inputs"], "every data and range",
  "No test calls the dump.",
  ["filestruct.py", "filters.py", "cli.py"], [("hexdump", "filestruct.py"), ("ascii_hexdump_printable", "filters.py")],
  ["hexdump; the hexdump command"])
p("C26", "Every link of the browsable view leads somewhere and text is escaped",
  "In the HTML view of any document, every internal hyperlink targets an anchor that exists exactly once in the page, references lead to the object they name, each object of every revision appears, and file content never creates markup.",
  ["inputs", "histories"], "every file structure and revision history, and every object content",
  "No test builds the view.",
  ["display.py", "api.py", "cli.py"], [("build_html", "display.py"), ("follow_obj", "display.py"), ("cross_map_index", "api.py")],
  ["output of the browse command"])
p("C27", "The font inventory lists each font once with its pages",
  "The font inventory of a document lists each font used by its pages exactly once, with its name, type, encoding and Unicode map indication, and exactly the pages whose resources, own or inherited, name it.",
  ["inputs", "histories"], "every assignment of shared and private fonts to pages, directly or through inherited or indirect resources",
  "No test lists fonts.",
  ["api.py", "docstruct.py", "cli.py"], [("fonts", "api.py"), ("get_page_fonts", "docstruct.py")],
  ["fonts; the fonts command"])
p("C28", "The overview reports the document as it is",
  "The structure overview reports the higher of the header and catalog versions, the number of pages, the number of revisions, whether the file is encrypted, hybrid or linearized, and the first page's size, for every document state. Upgrading the version never lowers it and changes nothing else.",
  ["inputs", "histories"], "every combination of header version, catalog version, revisions and structure, before and after edits, commits, rewinds and version upgrades",
  "No test calls the overview.",
  ["api.py", "docstruct.py", "cli.py"], [("structure/paper", "api.py"), ("version/update_version", "docstruct.py"), ("hybrid/encrypted/updates", "docstruct.py"), ("linearized", "filestruct.py")],
  ["structure, version, update_version; the overview command"])
p("C29", "Data providers return exactly the requested window",
  "A data provider over bytes or a file, read at once or on demand, returns for every start (also counted from the end) and length exactly the available bytes of that window and the total length. A document opened on demand is the same as one read at once.",
  ["inputs", "histories"], "every data, start, length, sequence of reads, and composition of original data with appended revisions",
  "Tests read at three positions of ten bytes; on-demand reading is only measured for its length.",
  ["filestruct.py", "docstruct.py", "api.py"], [("bdata_provider", "filestruct.py"), ("bdata_dummy", "filestruct.py"), ("merge_fdata", "docstruct.py")],
  ["bdata_provider results; load(mode)"])
p("C30", "Documentation rendering keeps the text and its block structure",
  "Rendering Markdown of the documented subset (headings, paragraphs, lists, fenced and indented code, tables) produces each block once, in order, as the corresponding element with its text, and code is shown literally.",
  ["inputs"], "every sequence of blocks",
  "No test renders Markdown.",
  ["markdown.py"], [("parse_markdown", "markdown.py"), ("assemble_html", "markdown.py")],
  ["render_html"])
if __name__ == "__main__":
    for x in P: print(json.dumps(x, ensure_ascii=False))
