TESTS = "The existing tests marshal and unmarshal a handful of fixed snippets (a table, a drawing, a shape, a few relationships) and compare one fixed string; "
NOTE = "Online/offline monitors over executions of the real code; holds for the executions observed, whose number and content the evidence file reports. Trusts the Go toolchain, encoding/xml, archive/zip and the harness's own XML/zip readers and models."

prop("C02", "Saving a parsed document preserves every supported construct",
  "Opening a document made of the constructs the library models and saving it again yields a document.xml with the same content: the same elements in the same order, with the same attributes, values, text and nesting. Optional elements and attributes that the source leaves out do not appear, and explicit values (switching something off included) are not changed into other ones.",
  ["inputs"], "all documents over the supported WordprocessingML/DrawingML vocabulary, in any combination, nesting and order",
  TESTS + "any of several hundred element/attribute pairs in any combination can be lost, reordered or altered by one wrong tag or forgotten case without those tests noticing.",
  ["structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structgroup.go", "structcanvas.go", "structeffects.go", "structlink.go", "structnum.go", "structsect.go", "structcompatibility.go"],
  [("hand-written UnmarshalXML of every element paired with the xml tags used to marshal it", "struct*.go"), ("children kept in document order in Items/Children slices", "structdoc.go, structpara.go, structrun.go")],
  "differential runtime monitor: generated vocabulary trees vs. the re-saved tree (independent XML reader)", NOTE,
  observe=["document.xml before Parse and after WriteTo"])

prop("C03", "Unknown content never corrupts the supported content around it",
  "Elements, attributes, comments, processing instructions and whitespace that the library does not know may be dropped, but every supported construct around, before and after them is read exactly as if they were not there. Reading never merges, splits, duplicates or reorders text because of them, and values that cannot be what the format demands are reported as errors rather than silently altered.",
  ["inputs"], "all placements of unknown elements (with arbitrary, also known-looking, content), attributes, comments, processing instructions and whitespace in supported documents",
  TESTS + "none injects unknown markup, and every hand-written token loop has its own way of skipping it.",
  ["structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structcompatibility.go", "unpack.go"],
  [("d.Skip() for unknown tags in every token loop", "struct*.go"), ("dispatch on the local name of start elements", "struct*.go")],
  "metamorphic runtime monitor: same document with and without injected noise must read the same", NOTE,
  observe=["re-saved document.xml", "exported fields after Parse"])

prop("C05", "Builder calls produce exactly the document they describe",
  "Any sequence of calls to the adding and formatting functions, on a new, loaded or opened document, produces on saving exactly the content described by those calls, in call order: each paragraph, run, text, tab, break, link, picture, shape and table with precisely the formatting given. Nothing else in the document changes, every string survives whatever characters it contains (those XML cannot carry become U+FFFD), and each call affects only the element it was made on.",
  ["programs", "inputs"], "all sequences of builder calls with all argument values, continued after saving and re-opening",
  TESTS + "no test checks what combinations of builder calls mean or what hostile strings become.",
  ["apipara.go", "apirun.go", "apitext.go", "apitable.go", "apidrawing.go", "apishape.go", "apilink.go", "structtext.go", "structtable.go"],
  [("builders append to Document.Body.Items / Paragraph.Children / WTableCell.Paragraphs", "api*.go"), ("escaping by encoding/xml", "structtext.go")],
  "model-based runtime monitor: random builder programs vs. an independent document model", NOTE,
  observe=["document.xml after WriteTo"])

prop("C06", "Every saved package is well formed, closed and consistent",
  "Whatever history of building, opening, editing, splitting and appending led to a document, saving it gives a valid zip without duplicate names, whose XML parts are well formed with all namespace prefixes declared. Every relationship target inside the package exists and is of its type, every relationship id is unique and every id used by the document is defined with the right type. Every part has a content type, and every picture that of an image.",
  ["histories", "inputs"], "all histories of library operations over built, parsed, loaded, split and appended documents",
  TESTS + "no test looks at a saved package as a whole, let alone after splitting or appending.",
  ["pack.go", "docx.go", "link.go", "image.go", "media.go", "structrel.go", "structdoc.go", "theme.go", "empty.go", "xml/"],
  [("pack writes template files, document, relationships and media", "pack.go"), ("addLinkRelation/addImageRelation append relationships as ids are handed out", "link.go"), ("namespaces bound on the document root and on drawings", "structdoc.go, structdrawing.go")],
  "package-consistency monitor over saved zips of random operation histories", NOTE,
  observe=["the bytes WriteTo produces"])

prop("C07", "Opening and saving preserves media, relationships and other parts",
  "When a package is opened and saved, every media file keeps its name and exact bytes, every relationship of the document keeps its id, type, target and mode, and every picture still shows the same bytes and every link still goes to the same target. All other parts of the package (styles, numbering, settings, headers, custom and unknown files) are kept byte for byte under the same name.",
  ["inputs"], "all packages: any set of parts, names, sizes, compression methods, order of entries, relationship ids, types and targets",
  TESTS + "no test opens a package with other parts or media.",
  ["unpack.go", "pack.go", "media.go", "link.go", "image.go", "structrel.go"],
  [("unpack remembers all other entries and pack copies them", "unpack.go, pack.go"), ("media slice with name index", "media.go"), ("docRelation kept and written back", "unpack.go, pack.go")],
  "byte-for-byte comparison monitor of packages before and after", NOTE,
  observe=["the packages given to Parse and produced by WriteTo"])

prop("C08", "Adding pictures and links never disturbs the existing ones",
  "At every point of any history of adding pictures and links, opening, splitting, appending, deleting and saving, each picture still shows exactly the bytes and each link still goes to exactly the target it was given. Ids that must be unique (relationship ids, drawing ids, media names) are unique in every saved document, also when the opened package already used arbitrary ones.",
  ["histories"], "all interleavings of AddLink, AddInlineDrawing, AddAnchorDrawing, shapes, Parse, WriteTo, SplitByParagraph, AppendFile over several documents",
  TESTS + "none adds to an opened document; collisions need specific ids in the opened package.",
  ["link.go", "image.go", "media.go", "id.go", "apilink.go", "apidrawing.go", "apishape.go", "unpack.go", "structdoc.go"],
  [("rID, imageID, docID counters advanced past what Parse saw", "unpack.go, id.go, link.go"), ("mediaNameIdx maps media names to slots", "media.go"), ("link targets reuse an existing relationship", "link.go")],
  "history monitor: every reference resolved by content after every save", NOTE,
  observe=["saved packages", "relationships and media"],
  state=[("rID / docID / imageID", "next free ids", "docx.go")])

prop("C09", "Splitting partitions the body and yields complete documents",
  "SplitByParagraph cuts the body before each paragraph the rule accepts (and nowhere else), asking about body paragraphs only: the pieces, in order, hold every body item exactly once and in order, copied in full. Every piece is a complete, independently usable document with the same template and other parts, in which each picture shows the same bytes and each link goes to the same target as before. The original document is unchanged, and editing a piece or the original afterwards does not change the others.",
  ["histories", "inputs"], "all documents and all rules (also plain-text regular expressions), also repeatedly and after other operations",
  "There is no test of splitting; losing the item at a cut, the first or last piece, or one reference kind needs specific documents.",
  ["structdoc.go", "structdrawing.go", "structpara.go", "media.go", "link.go"],
  [("SplitByParagraph / SplitDocxByPlainTextRegex", "structdoc.go"), ("copymedia deep-copies references into the piece", "structdoc.go, structdrawing.go")],
  "model-based monitor of split pieces over random histories", NOTE, observe=["pieces after WriteTo", "the original after splitting"])

prop("C10", "Appending concatenates and resolves references in the target",
  "After AppendFile the body of the target is its former items followed by those of the other document, in order and in full, also when a document is appended to itself or repeatedly. Every appended picture shows the same bytes and every appended link goes to the same target as in its source, whatever ids and media names the two documents already used, while nothing that was in the target before changes. The source document is unchanged, and editing either document afterwards does not change the other.",
  ["histories"], "all pairs and sequences of built, parsed, split documents appended in any order, also to themselves",
  "There is no test of appending; clashes need documents with overlapping ids or names.",
  ["structdoc.go", "structdrawing.go", "media.go", "link.go", "image.go"],
  [("AppendFile", "structdoc.go"), ("copymedia re-registers media and links in the target", "structdoc.go, structdrawing.go")],
  "model-based monitor of appended bodies over random histories", NOTE, observe=["target and source after WriteTo"])

prop("C11", "Merging runs preserves text, order and formatting",
  "Merging the runs of a paragraph yields a paragraph with the same sequence of text, tabs, breaks, drawings, field codes and other content, in the same order, with nothing lost, duplicated or moved. Runs are joined exactly when they are adjacent plain runs that the rule accepts (merge all, same properties, or same selected properties), and merged text keeps the formatting of its run. The original paragraph is unchanged.",
  ["inputs", "programs"], "all paragraphs and all merge rules",
  "The one test of merging prints the result of a fixed document and asserts next to nothing.",
  ["structtext.go", "structrun.go", "structpara.go"],
  [("MergeText, MergeAllRuns, MergeSamePropRuns, MergeSamePropRunsOf", "structtext.go")],
  "model-based monitor of merged paragraphs", NOTE, observe=["the paragraph returned by MergeText", "the original paragraph"])

prop("C12", "Keep and drop operations remove exactly the named content",
  "The dropping operations of documents and paragraphs remove exactly the drawings of the named kind (canvas, shape, group, or pictures without content), wherever in the body they are, and nothing else. The keep operations remove exactly the elements whose kind is not named, and keep the others complete and in order. Repeating an operation changes nothing more, and an operation that names nothing present changes nothing.",
  ["inputs", "histories"], "all documents with any mixture of drawings, text and other elements, and all kinds and combinations of names",
  "There is no test of these operations.",
  ["structdoc.go", "structpara.go", "structrun.go"],
  [("DropDrawingOf / Drop* / KeepElements filter Items and Children in place", "structdoc.go, structpara.go, structrun.go")],
  "model-based monitor of filtered documents", NOTE, observe=["documents after the operation and WriteTo"])

prop("C13", "Failures while saving are reported, and saving can be retried",
  "If the destination fails at any write (with an error, a partial write, or an error at the very end), or a template, media or kept file of the package cannot be opened or read, saving returns an error. It never reports success for an incomplete package. After a failed save the document is unchanged and a later save to a good destination gives the complete package.",
  ["fault_sequences"], "every write call and byte offset of the output, every source file, every kind of fault",
  "No test injects a fault.",
  ["pack.go", "docx.go"],
  [("errors of io.Copy, zip.Writer.Create and Close are returned", "pack.go, docx.go")],
  "fault enumeration with failing writers and file systems, outcome monitor", "Every write call of each generated document and sampled byte offsets fail in turn; " + NOTE, level="fault_enumeration",
  observe=["the error WriteTo returns", "the bytes written", "later saves"])

prop("C14", "Damaged or unreadable packages are reported, never half-read",
  "If any read of the source fails or ends early, if the file is cut, or if stored data is corrupted, then opening (or, for parts only read then, saving) returns an error, or nothing of the document is affected. A document or relationship part whose XML ends early is always an error. No damaged package is silently opened as a shorter or different document.",
  ["fault_sequences", "inputs"], "every read of the source, every cut of the file, bit flips in every entry, every cut of the XML parts",
  "No test opens damaged input.",
  ["unpack.go", "docx.go", "structdoc.go", "structpara.go", "structrun.go", "structtable.go", "structdrawing.go", "pack.go"],
  [("errors of the token loops are passed up", "struct*.go"), ("checksums verified by reading to the end", "unpack.go")],
  "fault enumeration on the source with an all-or-error monitor", "Every read call of each generated package fails in turn, cuts and flips are sampled; " + NOTE, level="fault_enumeration",
  observe=["the error Parse returns", "what a later save contains"])

prop("C15", "Independent documents and shared readers are safe under concurrency",
  "Goroutines that build, open, edit, split, append and save different documents at the same time get exactly the results they would get alone, with no data race. So do goroutines that only read one document at the same time: rendering text, looking up relationships and media, and saving it.",
  ["schedules"], "all interleavings of goroutines working on their own documents or reading a shared one",
  "All tests are sequential.",
  ["docx.go", "pack.go", "link.go", "media.go", "id.go", "helper.go", "theme.go"],
  [("no package-level mutable state; per-document maps guarded by mutexes", "docx.go, id.go, media.go, link.go")],
  "Go race detector plus per-goroutine result monitors under stress schedules", "The race detector reports races on the schedules that occurred; results are compared with a sequential run of the same seed. " + NOTE,
  observe=["race reports", "results of each goroutine"])

prop("C16", "Adding a picture is all-or-nothing and keeps its proportions",
  "Adding a picture whose size cannot be recognised or computed, or whose file cannot be read, returns an error and leaves the document exactly as it was, never panicking. Adding a readable picture adds exactly one run whose picture shows exactly the given bytes, in the proportions of the image and within the usual text width. The name, the relationship and the content type of the new media file fit its format.",
  ["inputs", "histories"], "all byte strings and files offered as pictures, inline or anchored, in paragraphs of the body and of table cells, in built, opened and appended documents",
  TESTS + "the picture functions are only shown one ordinary file each; a truncated header, a zero side or an extreme ratio decides between an error, a panic and a division by zero.",
  ["apidrawing.go", "image.go", "media.go", "link.go", "id.go"],
  [("AddInlineDrawing / AddAnchorDrawing and their From variants", "apidrawing.go"), ("size computed with imgsz before anything is registered", "apidrawing.go"), ("addImage registers media and relationship", "image.go, link.go, media.go")],
  "state-comparison monitor around every insertion: whole-document state before and after, and the saved package", NOTE,
  observe=["error and run returned", "exported fields and saved package before and after"])

prop("C17", "Plain text renders all content in order and never fails",
  "The plain text of a paragraph or table contains the text of every run, hyperlink and picture (with link target or picture reference) in document order and nothing else; tables give the first paragraph of each cell, row by row. Rendering succeeds on any document, also with missing optional parts, and does not change it. Splitting by a regular expression decides each paragraph by exactly this text.",
  ["inputs"], "all paragraphs and tables of built, opened, split and appended documents",
  TESTS + "plain text is only printed there, not compared, and only for a fixed document.",
  ["apitext.go", "structpara.go", "structtable.go", "structdrawing.go", "structlink.go", "structdoc.go"],
  [("String methods of Paragraph, Table and the drawings", "structpara.go, structtable.go, structdrawing.go"), ("SplitDocxByPlainTextRegex", "structdoc.go")],
  "model-based monitor: rendered text vs. text derived from the saved document tree", NOTE,
  observe=["String() of paragraphs and tables", "pieces of a split by regular expression"])

prop("C18", "Numbers in documents are read exactly or reported",
  "Wherever the library reads a number or a switch from a document, a decimal integer within range is read exactly, whatever its length or sign. A number out of range, or a text that is no number, is reported as an error (or read as the documented default) and is never silently turned into another number. The conversion helper gives the same result for every caller, also concurrently.",
  ["inputs", "schedules"], "all attribute texts: every integer width and base, boundary values, decimals, exponents, spaces, signs, on/off words and arbitrary text",
  "The existing tests contain only ordinary numbers; overflow, sign and rounding errors need boundary values.",
  ["helper.go", "structtable.go", "structpara.go", "structrun.go", "structdrawing.go", "structshape.go", "structeffects.go"],
  [("GetInt64 / GetInt", "helper.go"), ("attribute switches of every UnmarshalXML", "struct*.go")],
  "big-integer oracle over conversions and parsed attributes, under the race detector", NOTE,
  observe=["result and error of GetInt64/GetInt", "exported fields and error after Parse"])

prop("C19", "Reading and saving never change a document",
  "Rendering text, looking up or iterating relationships and media, merging runs, splitting, saving, and being the source of an append leave a document exactly as it was. Saving a document repeatedly gives the same parts with the same content every time, and a document that is opened again from what was saved, and saved, gives these parts once more.",
  ["histories"], "all interleavings of reading operations and saves on built, opened, split and appended documents",
  TESTS + "none saves a document twice or compares it before and after reading from it.",
  ["docx.go", "pack.go", "structdoc.go", "structtext.go", "structpara.go", "structtable.go", "media.go", "link.go", "structdrawing.go"],
  [("WriteTo / pack marshal without touching the model", "docx.go, pack.go"), ("copies made by MergeText, SplitByParagraph, AppendFile", "structtext.go, structdoc.go, structdrawing.go")],
  "snapshot monitor: deep state and saved parts before and after every reading operation", NOTE,
  observe=["deep dump of exported fields", "saved packages"])

prop("C22", "Look-ups of relationships and media agree with the document",
  "Looking up a relationship by id, or media by name, gives exactly the target or the bytes the document contains under it, and says so when there is none. Iterating visits every relationship exactly once and in order, stops when told, and hands on the caller's error. Everything that can be looked up is what a save writes, after every history of operations.",
  ["histories", "inputs"], "all histories of building, opening, adding, splitting and appending; all ids and names, also unknown ones",
  "No test looks up anything in an opened or appended document.",
  ["link.go", "media.go", "image.go", "id.go", "unpack.go", "pack.go"],
  [("ReferTarget, RangeRelationships, ReferID", "link.go"), ("Media, mediaNameIdx", "media.go")],
  "reference-model monitor: every look-up against the relationships and media of the saved package", NOTE,
  observe=["results of ReferTarget, ReferID, RangeRelationships, Media", "the saved package"])

prop("C04", "Everything put into the exported structures is written and read back",
  "A document whose exported structures are set directly, any supported field of any of them with optional ones present or left out and children of the allowed kinds in any order, is saved and opened again with every field holding the value it was given. Fields that were left out are still left out, and explicit zero or switched-off values stay as they were set. What one field holds never appears in, or influences, another.",
  ["inputs"], "all values of the exported structures of the body, alone or over the parts of an opened package",
  TESTS + "the mapping of several hundred fields to markup and back is written by hand twice, once in the tags and once in UnmarshalXML, and the tests cover a few of them.",
  ["structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structgroup.go", "structcanvas.go", "structeffects.go", "structlink.go", "structnum.go", "structsect.go"],
  [("struct tags used by encoding/xml to write", "struct*.go"), ("UnmarshalXML of every element", "struct*.go")],
  "reflection-driven round-trip monitor: randomly filled structures vs. what is read back, field by field", NOTE,
  observe=["exported fields before WriteTo and after Parse"])

prop("C01", "No document, however damaged, makes the library panic or hang",
  "Opening any sequence of bytes returns a document or an error, without panicking and in reasonable time. A document that was opened, however odd its content, relationships and media, can be given to every operation (rendering, looking up, merging, splitting, appending, dropping, keeping, adding, formatting, saving) without a panic. What is saved from it is again a sound package, which opens.",
  ["inputs", "programs"], "all byte strings, in particular packages damaged in their bytes, entries, XML, element structure, attribute values, relationships and media",
  TESTS + "all of them on well-formed input; a nil pointer for one missing optional element needs exactly the document without it.",
  ["unpack.go", "docx.go", "structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structgroup.go", "structcanvas.go", "structeffects.go", "structlink.go", "structnum.go", "structcompatibility.go", "media.go", "link.go", "pack.go", "helper.go"],
  [("optional parts are pointers that every operation tests", "struct*.go, api*.go"), ("errors passed up by every token loop", "struct*.go")],
  "panic, error and package-soundness monitor over damaged inputs driven through every operation", NOTE,
  observe=["panics, errors and time of every call", "what WriteTo produces, opened again"])

prop("C20", "The command line program does what its options say",
  "Analysing a file prints the plain text of its paragraphs and tables in order. It writes exactly the files its options ask for (saved again, with pictures without content or paragraph properties dropped, split at the paragraphs that match, copied the given number of times), named after the input beside it, each with exactly the described content. The input is never changed, and a file that is missing or damaged makes it fail and write nothing.",
  ["inputs", "configurations"], "all input files, file names and combinations of options",
  "No test runs the program.",
  ["cmd/main/main.go", "structdoc.go", "unpack.go", "pack.go"],
  [("options and output file names", "cmd/main/main.go"), ("SplitByParagraph, AppendFile, DropDrawingOf, WriteTo used by it", "structdoc.go, docx.go")],
  "black-box monitor of runs of the built program: output, exit code, files written and their content vs. models", NOTE,
  observe=["standard output and exit code", "files in the working directory before and after"])

prop("C21", "Templates are packed whole, unchanged and through their own file system",
  "A document on a template is saved with exactly the files the template lists, each with its exact bytes under its listed name, read from the template's own file system and directory, plus the parts of the document itself. A listed file that is missing or fails to be read makes saving fail with that error, every file that was opened is closed again, and exchanging the template changes nothing but these files. Setting a page appends exactly one section of the paper size named to the body.",
  ["configurations", "fault_sequences", "histories"], "all templates: names, file lists, sizes, file systems, failing files, exchanged at any time; on new, opened, split and appended documents",
  TESTS + "all of them use the built-in template only, on a file system that cannot fail.",
  ["theme.go", "pack.go", "docx.go", "empty.go", "xml/"],
  [("UseTemplate, WithDefaultTheme, WithA3Page, WithA4Page", "theme.go, empty.go"), ("pack copies the listed files", "pack.go")],
  "monitor in an instrumented file system (opens, closes, reads, faults) and of the saved package", NOTE,
  observe=["files opened, read and closed by WriteTo", "the saved package"])

prop("C23", "Editing an opened document changes exactly what was edited",
  "Any element of an opened document, at any depth (paragraphs and runs in tables and text boxes, cells, links, drawings), can be edited through the API or through its exported fields, replaced, moved, copied or removed. The document saved afterwards is the opened one with exactly these edits: what was not edited keeps its content, formatting, place and references. The order of edits to different places does not matter.",
  ["programs", "histories"], "all sequences of edits at all places of all documents of the supported vocabulary",
  TESTS + "none edits a document it opened.",
  ["structdoc.go", "structpara.go", "structrun.go", "structtext.go", "structtable.go", "structdrawing.go", "structshape.go", "structlink.go", "apipara.go", "apirun.go", "apitext.go", "apitable.go", "apidrawing.go"],
  [("parsed elements are kept as pointers in exported slices and saved from them", "struct*.go"), ("setters change the element they are called on", "api*.go")],
  "model-based monitor: the tree of the opened document, edited alike, vs. the saved one", NOTE,
  observe=["document.xml after the edits", "exported fields"])
