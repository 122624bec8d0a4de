NOTE = ("Sound up to the listed assumptions: libraries behave as documented, no aliasing through "
        "integer casts, no exceptions out of library calls except where stated.")

prop("C01", "Every command-line option has its documented effect",
     "Every option given on the command line has exactly its documented effect: a skip option keeps "
     "its stage from running while all others run, a debug option or verbosity level sets the log "
     "level it names, a visualization option draws its own kind of element, and the input path, "
     "output path, format, roles and types reach the extraction and the output unchanged. Help and "
     "version options end the program successfully without processing a document, and no option is "
     "ignored.",
     ["configurations"], "all combinations of values of all declared command-line options",
     "No test starts the program with options; the option space is exponential and a test samples "
     "single combinations.",
     ["src/pdftotext++.cpp", "src/PdfToTextPlusPlus.cpp", "src/Config.h"],
     [("option table and configuration", "main in src/pdftotext++.cpp"),
      ("stage gating", "the extraction entry point in src/PdfToTextPlusPlus.cpp")],
     "stages run, log levels in force, files drawn, exit status",
     "abstract interpretation of the program from main with symbolic option values; per-option "
     "obligations on stage calls, configuration values and output calls", NOTE)

prop("C02", "The pipeline runs in its documented order on one document",
     "Every successful extraction parses all pages of the file from the first to the last and then "
     "runs each enabled stage exactly once, in the documented order, on the document the caller "
     "passed. Disabling one stage changes neither the order nor the number of runs of the others.",
     ["configurations", "inputs"], "all inputs and all choices of disabled stages",
     "The unit tests call single helpers; the pipeline is not even linked in the test build.",
     ["src/PdfToTextPlusPlus.cpp", "src/pdftotext++.cpp"],
     [("sequence of stages", "the extraction entry point in src/PdfToTextPlusPlus.cpp")],
     "order of stage runs and the document each works on",
     "abstract interpretation with trace partitioning on the sequence of stage calls", NOTE)

prop("C03", "Success is reported only when the text was written",
     "An exit status of 0 means that the file was loaded and parsed without an error, that the text "
     "was written once and completely to the requested target, and that a requested visualization "
     "was saved. Every failure, including an exception, ends in a non-zero status, and no path that "
     "prints an error message ends in success.",
     ["fault_sequences", "inputs", "configurations"],
     "all inputs, all failing loads, writes and exceptions",
     "No test runs the program or makes a write fail.",
     ["src/pdftotext++.cpp", "src/PdfToTextPlusPlus.cpp", "src/serializers/Serializer.cpp",
      "src/PdfDocumentVisualization.cpp"],
     [("exit status", "main in src/pdftotext++.cpp"),
      ("output errors", "the serializer base class"),
      ("load errors", "the extraction entry point")],
     "exit status of the program",
     "path-partitioned dataflow over results of load, write and save calls up to the returned "
     "status; handler analysis", NOTE)

prop("C04", "Standard output carries only what was asked for",
     "Unless help, the version, running times or more verbose logging is requested, nothing but the "
     "extracted text appears on standard output, and nothing at all if the text goes to a file; the "
     "target path - and only that selects standard output. A log message appears exactly if its "
     "level reaches the configured level and its page passes the page filter.",
     ["configurations", "inputs"], "all option values, all documents, all log messages",
     "Tests look at the stream one logger call selects, not at every statement of the program that "
     "can print.",
     ["src/pdftotext++.cpp", "src/serializers/Serializer.cpp", "src/utils/Log.cpp"],
     [("stream selection", "the logger"), ("target path", "the serializer base class"),
      ("reports", "main")],
     "bytes on standard output",
     "whole-program effect analysis of uses of standard output, path conditions by abstract "
     "interpretation", NOTE)

prop("C05", "Only requested files are touched and no other program runs",
     "The program creates and writes only the file named as output, its missing parent directories, "
     "and the file named for the visualization; it reads only the input and its model files. It "
     "runs no other program or shell, uses no network, and removes or renames nothing, whatever "
     "characters the paths contain.",
     ["inputs", "configurations"], "all paths and options, all documents",
     "No test exercises paths; absence of an effect cannot be sampled.",
     ["src/serializers/Serializer.cpp", "src/PdfDocumentVisualization.cpp",
      "src/SemanticRolesPrediction.cpp", "src/PdfToTextPlusPlus.cpp"],
     [("output file", "the serializer base class"), ("visualization file", "saving a visualization")],
     "file system and processes",
     "whole-program effect analysis; provenance of every path argument by abstract interpretation "
     "from main", NOTE)

prop("C06", "Writing the output leaves the document unchanged",
     "Serializing a document in any format, drawing its elements or saving a visualization changes "
     "nothing of the document: no text, position, order or link of any element, and no element is "
     "added or removed. So each output shows the same document, whichever outputs are requested "
     "and in whatever order they are produced.",
     ["inputs", "configurations"], "all documents, all formats and visualizations, in any order",
     "Tests compare single values after single calls; that nothing at all changes is a statement "
     "about all elements and all paths.",
     ["src/serializers/", "src/PdfDocumentVisualization.cpp", "src/pdftotext++.cpp"],
     [("output of text", "the serializers"), ("drawing", "the visualization class")],
     "elements of the document before and after output",
     "interprocedural effect analysis: every store, mutating call and deletion reached from an output "
     "method is traced to its root object", NOTE)

prop("C07", "JSONL output has one correct record per element",
     "In JSONL format, each page, character, word, text block, figure and shape of a selected type "
     "(and, for text, of a block with a selected role) is written exactly once, in document order, "
     "as one line with its own id, page, rank, box, font, text and further values; diacritic marks "
     "merged into their base characters have no record. Every record is well-formed: quotes, "
     "backslashes and control characters of texts and font names are escaped, and all other bytes "
     "are written unchanged.",
     ["inputs", "configurations"], "all documents, all selected roles and types, all bytes of texts",
     "Tests of the repository cover single strings of the escape function and no record at all.",
     ["src/serializers/JsonlSerializer.cpp", "src/utils/TextUtils.cpp"],
     [("records", "the JSONL serializer"), ("escapes", "the JSON escape helper")],
     "lines of the JSONL output",
     "grammar extraction by abstract interpretation: per loop, everything one turn can write, under "
     "which conditions, compared with the record of the element; loop coverage; escape table "
     "decided for each of the 256 bytes", NOTE)

prop("C08", "Plain text output has every selected text once",
     "In the text formats, each text block with a selected role appears exactly once, in document "
     "order, separated from the one before by a blank line; its words appear once each, in order, "
     "separated by single spaces, hyphenated words as the merged word, and each character with the "
     "diacritic mark merged into it. The extended format precedes each block by its role in capital "
     "letters in brackets and by ^A if it is emphasized, and ends each page by a form feed.",
     ["inputs", "configurations"], "all documents and selected roles",
     "No test serializes a document; separators depend on the history of all preceding blocks and "
     "words.",
     ["src/serializers/PlainTextSerializer.cpp", "src/serializers/PlainTextExtendedSerializer.cpp"],
     [("plain text", "the plain text serializer"),
      ("extended text", "the extended plain text serializer")],
     "bytes of the text output",
     "grammar extraction by abstract interpretation with partitioning on what was written before, "
     "compared with the specified grammar for every combination of conditions", NOTE)

prop("C09", "A visualization draws every element once, at its place",
     "A visualization draws, for each element of its kind on every page, exactly one box with the "
     "bounding box of the element on the page of the element, widened if it would be invisible; "
     "labels with roles, lines from each block to the next and numbers 1, 2, ... in reading order, "
     "and cuts with their names and a mark if they were chosen, are drawn in the same way. "
     "Nothing else is drawn.",
     ["inputs", "configurations"], "all documents and all kinds of visualization",
     "No test draws anything, and a missing or misplaced annotation needs an image to be noticed.",
     ["src/PdfDocumentVisualization.cpp"], [("drawing", "the visualization class")],
     "annotations of the written PDF file",
     "grammar extraction by abstract interpretation: per loop, every annotation that one turn can "
     "add and draw, with its page and symbolic coordinates, compared with the element", NOTE)

prop("C10", "Grouping text loses and duplicates nothing",
     "Each character of a page ends up in exactly one word (or is merged into its base character "
     "as a diacritic mark), each word in exactly one page segment and one text line, each line in "
     "exactly one text block, and each block exactly once in the reading order of its page. "
     "This holds for every document, whichever words are merged into symbols, lines are merged or "
     "cuts are chosen.",
     ["inputs"], "all documents, that is, all sequences of characters, words, lines and blocks",
     "The tests check single helpers; that no path of a stage drops, repeats or strands an element "
     "depends on all paths through nested loops.",
     ["src/WordsDetection.cpp", "src/PageSegmentation.cpp", "src/TextLinesDetection.cpp",
      "src/TextBlocksDetection.cpp", "src/ReadingOrderDetection.cpp", "src/utils/XYCut.cpp"],
     [("words", "WordsDetection::process"), ("segments", "PageSegmentation::processPage"),
      ("lines", "TextLinesDetection::process"), ("blocks", "TextBlocksDetection::process"),
      ("order", "ReadingOrderDetection::detectReadingOrder"), ("cuts", "utils/XYCut.cpp")],
     "the text in every output format",
     "linear flow of elements: abstract interpretation with a typestate per container (empty, "
     "holding, handed on), one hand-on per turn of each loop and per path of each stage, and a "
     "whole-program rule on who changes containers", NOTE)

prop("C12", "The same file and options give the same output",
     "Extracting a file again with the same options gives the same document and the same output, "
     "apart from the random ids of elements and the running times. No result depends on chance, the "
     "time, the environment, memory addresses, ids, or on a value that was never set. What an "
     "earlier extraction in the same process left behind decides nothing either.",
     ["inputs", "histories"], "all documents and options, and all earlier extractions in the process",
     "A test sees one memory layout, one sequence of random numbers and one history; a result that "
     "depends on them passes whenever the test does not compare two runs.",
     ["src"],
     [("sources", "createRandomString in utils/TextUtils.cpp; clocks in PdfToTextPlusPlus.cpp"),
      ("elements", "Types.h"), ("fonts", "PdfParsing::updateFont")],
     "the output in every format, and the extracted document",
     "whole-program information flow (noninterference by data and control dependence) from sources "
     "of nondeterminism to the document and the output, and definite assignment of locals and "
     "fields by dataflow", NOTE)

prop("C13", "Logging never changes the result",
     "The log level, the page filter of the log and the debug options decide only which messages "
     "are written. They change nothing in the extracted document, in which stages run, in the exit "
     "status or in the format of the text that is written after the messages.",
     ["configurations", "inputs"], "all settings of the log and all documents",
     "The tests run with one log setting; that no branch of any stage depends on it is a statement "
     "about all paths.",
     ["src/utils/Log.cpp", "src/utils/Log.h", "src/pdftotext++.cpp", "src/PdfToTextPlusPlus.cpp"],
     [("settings", "BaseConfig in Config.h"), ("logger", "Logger::getostream"),
      ("options", "main in pdftotext++.cpp")],
     "the output in every format with different log settings",
     "whole-program information flow (noninterference) from the log settings to everything but the "
     "choice of the log stream, and a rule on manipulators of that stream", NOTE)

prop("C14", "The work on a document comes to an end",
     "Whatever file is read, however damaged, every loop and every recursion of the extraction, of "
     "the parsing of embedded fonts, of reading the vocabularies, of serializing and of drawing "
     "comes to an end. Lists of elements are divided further only when they were divided, and "
     "chains from line to parent line never lead back.",
     ["inputs"], "all files, fonts and vocabularies",
     "A test that passes has ended; the input on which a loop never ends is the one nobody tried.",
     ["src"],
     [("cutting", "xyCut, xCut and yCut in utils/XYCut.cpp"),
      ("lines", "rounds of merging in TextLinesDetection::process; computeTextLineHierarchy"),
      ("fonts", "utils/PdfFontInfoParser.cpp"), ("pairs", "utils/BytePairEncoder.cpp")],
     "a run that does not end, or that exhausts the stack",
     "termination by ranking functions: a zone (difference bound) abstract interpretation shows for "
     "each loop a counter, position, container, stream or iterator that comes closer to its end in "
     "every turn; recursion by division or bounded depth on the call graph; descent along links",
     NOTE)

prop("C15", "Nothing outside a list, a text or a table is read",
     "Whatever file is read, however damaged, no position outside a list, a text or an array is read "
     "or changed, no first or last element of an empty list is asked for, and no text is cut at a "
     "start beyond its end. No map is asked for a key it does not have, and no integer is divided by "
     "zero.",
     ["inputs"], "all files, fonts and settings",
     "A read beyond the end of a list mostly goes unnoticed, and happens on documents nobody tried: a "
     "line of one word, a character without text, a font cut off in the middle.",
     ["src"],
     [("fonts", "the interpreter of char strings in utils/PdfFontInfoParser.cpp"),
      ("neighbours", "previous and next elements in the modules and utils/TextBlocksDetectionUtils.cpp"),
      ("texts", "utils/TextUtils.cpp"), ("drawing", "PdfDocumentVisualization.cpp")],
     "a crash, an exception that ends the program, or a random result",
     "a zone (difference bound) abstract interpretation of every function bounds each position by the "
     "size of its container, with what every caller guarantees; a forward must-analysis shows for each "
     "key that its presence was asked for",
     NOTE)

prop("C16", "No missing element is followed, and no assertion fails",
     "Whatever file is read, no link to an element that may be missing (the line before the first one, "
     "the base of a mark, a page that could not be loaded, a font that is not there) is followed unless "
     "it was asked for. Every link that is followed without asking has been set where its element was "
     "made, and no condition the program asserts about its own data can fail.",
     ["inputs"], "all files and settings",
     "Elements are missing at the edges: the first line of a page, a page with a single word, a mark "
     "without a base. A test shows one such edge, the program follows links in five thousand places.",
     ["src"],
     [("links", "Types.h and every place that follows one"),
      ("lines and blocks", "TextBlocksDetection.cpp, TextLinesDetection.cpp and their utils"),
      ("assertions", "every assert in src"), ("pages", "PdfDocumentVisualization.cpp")],
     "a crash or an abort that loses the whole text of a document",
     "a must-analysis of the pointers known to be there, with what a function demands from its callers, "
     "what its answer tells (per returned value), functions that may return nothing and lists that may "
     "hold nothing; typestate of new elements; assertions about sizes by the zone analysis of C15",
     NOTE)

prop("C17", "Everything a page draws is recorded once, where and as it is drawn",
     "Every page becomes one page of the document, and every character that has a font and is not white "
     "space, every path that is stroked or filled and every image that lies within its clip box is "
     "recorded exactly once, with its page, font, size, stroking color and the next extraction rank. It "
     "is recorded in the page if drawn with the clip box of the page, otherwise in the one figure of "
     "the page with that clip box, and the box of this figure encloses it. The box of a character is "
     "that of its glyph or of its font, and the box of an image that of the unit square, transformed as "
     "they are drawn.",
     ["inputs"], "all content streams",
     "A test shows some ways to draw. Text that is raised, rotated, vertical or stretched, images in a "
     "clip box seen before, and paths filled by another rule take other branches of the same code.",
     ["src/PdfParsing.cpp", "src/PdfParsing.h"],
     [("characters", "PdfParsing::drawChar"), ("paths", "PdfParsing::stroke, fill and eoFill"),
      ("images", "PdfParsing::drawGraphic"), ("pages and fonts", "PdfParsing::startPage, updateFont")],
     "text, shapes or images that are missing, double, or at another place",
     "abstract interpretation of the handlers of Poppler's drawing events: on every path the new "
     "elements, the list each is put into, what is known about the clip boxes there, and its fields and "
     "box as polynomials over the graphics state, compared with the ones PDF prescribes",
     NOTE)

prop("C11", "A text element has the box, page, text and font of its parts",
     "The bounding box of every word, line, block and page segment is the smallest one that encloses "
     "all of its parts, and its page, rotation and writing mode are those of its first part. The text of "
     "a word is that of its characters in order, a mark counting with its base character, and the text "
     "of a line or block is that of its words in order with one blank between two of them. Font and "
     "size of these are the most frequent ones of their parts, and every part refers to its element.",
     ["inputs"], "all sequences of parts",
     "Boxes, texts and fonts are computed in loops over the parts, at five places, and once more when "
     "two lines are merged. Only some sequences show that one part is skipped or one side is forgotten.",
     ["src"],
     [("words", "utils/WordsDetectionUtils.cpp, createWord"),
      ("lines", "TextLinesDetection.cpp, createTextLine, mergeTextLines, computeTextLineProperties"),
      ("blocks", "utils/TextBlocksDetectionUtils.cpp, createTextBlock"),
      ("segments", "utils/PageSegmentationUtils.cpp, createPageSegment")],
     "text at the wrong place, without the box that should enclose it, or with the font of a few words",
     "loop summaries: abstract interpretation folds what each loop computes over the elements of a list "
     "into a normal form (minimum, concatenation, count), compared with the fold that the property asks "
     "for, at every place where the list of the parts of an element changes",
     NOTE)

prop("C18", "No document ends the program by an exception",
     "An extraction throws no exception, whatever the document contains, except when a file of the "
     "program's own model is missing. The most frequent or largest of the values of a document is only "
     "asked for where a value was counted, and a key, position or number given to a function that throws "
     "if it does not suit does suit: also for text of size zero, without a font, or without any words.",
     ["inputs"], "all documents",
     "Every statistic of a document, line or word throws if nothing was counted, so each of its uses is "
     "right only under a condition at another place. Documents without the usual values are rare in tests.",
     ["src"],
     [("statistics", "utils/Counter.cpp"), ("uses", "*StatisticsCalculation.cpp, utils/*DetectionUtils.cpp"),
      ("keys and numbers", "PdfParsing.cpp, DiacriticalMarksMerging.cpp, utils/PdfFontInfoParser.cpp")],
     "the program ends with an error, or aborts, for an unusual document",
     "loop summaries prove the condition under which each throw is reached, and abstract interpretation "
     "that it cannot hold at any call; must-analysis of keys and bounds for library calls that throw",
     NOTE)

# ------------------------------------------------------------------------- not applicable
na("N01", "Words, lines and blocks are the ones a reader sees",
   "The words, lines, paragraphs and columns that are detected are those a person sees on the page.",
   ["inputs"], "all documents",
   "The end-to-end data set shows an average over some documents, not every layout.",
   ["src"], [("heuristics", "WordsDetection.cpp, TextLinesDetection.cpp, TextBlocksDetection.cpp")],
   "text that is split or joined at the wrong places",
   "what a reader sees is no property of the source: thresholds on distances are compared with page "
   "contents that only exist at run time, and there is no formal oracle for a right answer")

na("N02", "The reading order is the one a reader follows",
   "The blocks of every page are written in the order in which a person reads them.",
   ["inputs"], "all documents",
   "A test shows the order on its own pages only.",
   ["src/ReadingOrderDetection.cpp"], [("order", "ReadingOrderDetection.cpp and utils/XYCut.cpp")],
   "text in a confusing order",
   "which order is right depends on the contents of the page and has no formal oracle; that the order "
   "is a permutation of all blocks is decided by C10, that it is deterministic by C12")

na("N03", "The predicted semantic role is the true one",
   "Each block is given the role (title, heading, paragraph, ...) that it has in the document.",
   ["inputs"], "all documents",
   "The accuracy of a model is measured on samples.",
   ["src/SemanticRolesPrediction.cpp"], [("model", "the neural network in resources/models")],
   "blocks that are selected or dropped wrongly",
   "the answer is computed by a trained model outside the source; static analysis of the source cannot "
   "bound its error")

na("N04", "The unicode of each glyph is the right one",
   "Each character has the text its glyph shows, also with fonts that map their codes to nothing.",
   ["inputs"], "all fonts",
   "Fonts are countless and each has its own encoding.",
   ["src/PdfParsing.cpp"], [("mapping", "PdfParsing::drawChar, CharCode and unicode of Poppler")],
   "wrong letters",
   "the mapping is computed by Poppler from tables in the file; the source at hand only copies it "
   "(that it is copied for every character is decided by C17)")

na("N05", "No two elements have the same id",
   "The ids of all elements of a document differ.",
   ["histories"], "all sequences of random numbers",
   "A collision is rare.",
   ["src/utils/TextUtils.cpp"], [("ids", "createRandomString")],
   "records of different elements that cannot be told apart",
   "ids are random strings of eight letters: a collision is unlikely but possible, so that the property "
   "does not hold for every history and can only be given a probability (that ids decide nothing "
   "is decided by C12)")

na("N06", "The time and the memory for a page are bounded by its size",
   "Extraction takes time and memory that grow at most quadratically with what a page contains.",
   ["inputs"], "all documents",
   "The slow pages are the ones nobody measured.",
   ["src"], [("loops", "all stages")],
   "an extraction that takes hours",
   "the cost of the library calls (regular expressions, hash tables, sorting, Poppler) and the sizes "
   "that reach them are run-time quantities; that all loops end is decided by C14")
