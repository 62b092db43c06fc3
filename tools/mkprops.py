#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "observe_at": observe or [], "hook_needed": None}})

GEN = ["src/generator/builder.rs", "src/generator/package_xml.rs", "src/generator/slide_xml/mod.rs"]

p("G01", "Every generated presentation is a closed, well-formed package",
  "Whatever slides, settings and entry point (in-memory, streaming, lazy) are used, the produced file is a ZIP archive without duplicate entries whose XML parts are all well-formed. Relationship ids are unique within each source, every internal relationship target and every content-type override names an existing part, every relationship id used in a part's XML is declared for that part, and every part has a content type. The slide list names each slide part once, in order, with distinct slide ids of at least 256, and the shape ids on a slide are distinct.",
  ["inputs", "configurations"], "all decks (any number of slides, any mix of notes/images/charts/ink/tables/links/layouts), all settings combinations, all creation entry points",
  "Tests build a handful of fixed decks; id arithmetic and content-type bookkeeping depend on the combination of slide count, notes, handouts, fonts, signature, images, charts and ink, and lazy output is never validated.",
  GEN, [("relationship id arithmetic", "src/generator/package_xml.rs"), ("content type assembly", "src/generator/builder.rs write_content_types / write_content_types_lazy"), ("debug self check", "src/generator/builder.rs debug_assert_package_valid")],
  [("part table", "parts written to the archive", "src/generator/builder.rs")], ["bytes returned by create_pptx*, Presentation::build"])

p("G02", "User text appears verbatim and in order in the generated file",
  "For every text the user supplies (presentation title, slide titles, bullets, table cells, shape text, code blocks, speaker notes, chart titles, series names and categories, image alternative text, hyperlink targets and tooltips), decoding the XML of the generated file gives exactly that text at the place it was meant for. The items of every list keep their order, and none is lost, duplicated or moved to another slide. Texts are arbitrary printable Unicode, including XML metacharacters and leading or repeated spaces.",
  ["inputs"], "all strings of printable characters at every text entry point, all slide layouts, all deck sizes",
  "Tests check a few literal strings with contains(); escaping is applied separately at each of dozens of format! sites.",
  GEN + ["src/core/xml_utils.rs", "src/generator/props_xml.rs", "src/generator/notes_xml.rs", "src/generator/shapes_xml.rs"],
  [("escaping", "src/core/xml_utils.rs escape_xml"), ("layout renderers", "src/generator/slide_xml/layouts.rs")], None, ["slide, notes, chart, docProps XML of the output"])

p("G03", "Every object on a generated slide is bound to its own payload",
  "Each picture on a generated slide resolves through that slide's relationships to a media part holding exactly the bytes the user gave for that picture; each chart frame resolves to a chart part for that chart with its own embedded workbook; ink resolves to that slide's ink strokes; each hyperlink resolves to its own target. A slide's notes part exists exactly when notes were given, points back to that slide, and no slide refers to another slide's notes, chart or ink part. Each slide is attached to the layout part that was requested for it.",
  ["inputs", "configurations"], "all decks mixing slides with and without notes, pictures (with and without available bytes), charts, ink and links",
  "The ids are computed in two separate passes (slide XML and slide relationships) that must agree for every combination; tests cover single-feature decks.",
  GEN + ["src/generator/slide_xml/content.rs", "src/generator/media_registry.rs", "src/generator/notes_xml.rs"],
  [("two-pass relationship numbering", "src/generator/builder.rs write_slides / write_slide_relationships_extended"), ("image ids", "src/generator/slide_xml/content.rs")], None, ["slide XML + slide rels + target parts"])

p("G04", "In-memory, streaming and lazy generation produce the same presentation",
  "For the same title, slides and settings, the in-memory, streaming-writer and lazy-source entry points produce packages with the same set of parts and the same content in every part (creation timestamps and randomly generated picture names aside). A lazy source may be asked for a slide several times and in any order without changing the result. A writer may take the bytes in pieces of any size; generation into one that fails is never reported as successful.",
  ["inputs", "configurations"], "all decks and settings; all deterministic lazy sources",
  "The lazy writer is a separate copy of the package writer; the only existing comparison checks that both outputs are non-empty.",
  ["src/generator/builder.rs"], [("eager writer", "write_package_files"), ("lazy writer", "write_package_files_lazy")], None, ["part map of each output"])

p("G05", "Identical media is stored once and distinct media is never merged",
  "In a generated presentation two pictures share a media part if and only if they have the same bytes and the same file type, whichever slides they are on. The media parts are exactly those the pictures use, numbered from one in order of first use without gaps.",
  ["inputs"], "all sequences of pictures over all slides, including repeated bytes under different file types",
  "One unit test dedupes three images; sharing depends on the whole history of pictures over all slides, in both writers.",
  ["src/generator/media_registry.rs", "src/generator/builder.rs"], [("registry", "src/generator/media_registry.rs MediaRegistry")], [("entries", "media seen so far, in order", "src/generator/media_registry.rs")], ["ppt/media/* and image relationships"])

p("G06", "A chart part carries exactly the chart's title, categories, series and values",
  "For every chart type, the generated chart part has the plot kind that corresponds to the type, and for each plotted series its name and all its values, in order, each point carrying its own position index (0, 1, 2, ...) and the exact number given. Categories appear in order with a matching count, series have distinct consecutive indices, and the chart's position and size on the slide are those requested. Pie and doughnut charts plot the first series only; every other type plots every series.",
  ["inputs"], "all chart types, any number of series/categories/values, any finite numbers",
  "Tests look for substrings such as the series name; nothing checks that every value of every series survives with its index.",
  ["src/generator/charts/xml.rs", "src/generator/charts/types.rs", "src/generator/charts/data.rs"], [("series writers", "src/generator/charts/xml.rs")], None, ["ppt/charts/chartN.xml"])

p("G07", "A generated table has the given grid, cell texts, spans and cell formatting",
  "A table placed on a slide is emitted with one grid column per given column width (same widths, same order), one row per given row with its height, and one cell per given cell in order. Each cell carries its text, its bold/italic/underline/size/color/font, its background, its horizontal and vertical alignment, and its row/column span or merged-away marking exactly as requested, and no other cell does (a merged-away cell is covered by its neighbour and carries only its marks).",
  ["inputs"], "all tables: any shape, any cell texts and formatting, any spans",
  "Tests check single cells for substrings.",
  ["src/generator/table/xml.rs", "src/generator/table/format.rs", "src/generator/table/cell.rs", "src/generator/slide_content/table_merge.rs"], [("cell writer", "src/generator/table/format.rs generate_cell_xml")], None, ["a:tbl in slide XML"])

p("G08", "Bullets, titles, shapes and connectors keep their formatting and geometry",
  "Each bullet is emitted with its own level, bullet or numbering style and character formatting (falling back to the slide's defaults only where the bullet says nothing), and each title with the slide's title formatting. Each shape and connector is emitted once with its own kind, position, size, rotation, fill, line, arrow heads and connection points; a connector drawn right-to-left or bottom-to-top is emitted flipped at the same end points.",
  ["inputs"], "all bullets, title formats, shapes and connectors, on every layout",
  "Tests sample one attribute at a time on one layout; each layout has its own copy of the rendering code.",
  ["src/generator/slide_xml/layouts.rs", "src/generator/layouts/common.rs", "src/generator/shapes_xml.rs", "src/generator/connectors.rs", "src/generator/slide_content/bullet.rs"],
  [("layout renderers", "src/generator/slide_xml/layouts.rs"), ("shape writer", "src/generator/shapes_xml.rs"), ("connector writer", "src/generator/connectors.rs")], None, ["slide XML"])

p("G09", "Presentation-level settings are carried into the package",
  "Slide-show settings (type, loop, narration, animation, timings, slide range, pen color), theme colors and fonts, embedded fonts with their data, handout printing settings and digital-signature parts are present in the generated package exactly when configured, with the configured values. Configuring one of them does not change how any slide, or any other setting, is written.",
  ["configurations"], "all combinations of settings and deck shapes",
  "Tests set one setting at a time on a one-slide deck; relationship numbering of fonts/handout/notes depends on the combination.",
  ["src/generator/builder.rs", "src/generator/package_xml.rs", "src/generator/slide_content/slide_show_settings.rs", "src/generator/slide_content/print_settings.rs", "src/generator/slide_content/embedded_fonts.rs", "src/generator/slide_content/digital_signature.rs", "src/generator/presentation_theme.rs"],
  [("settings writers", "src/generator/builder.rs")], None, ["presProps, presentation.xml, theme, fonts, signature parts"])

p("R01", "Reading back a generated presentation returns what was written",
  "Opening a generated presentation with the reader, the editor or the importer reports the same title, the same number of slides in the same order, and for each slide the same title, the same bullet texts in order and the same table cells with their spans. The slides are those of the presentation's slide list, in its order, whatever their parts and relationships are called. Importing a presentation and generating it again, any number of times, preserves those texts.",
  ["inputs", "histories"], "all decks (including ten or more slides) and all printable texts; all chains of generate/import",
  "Round-trip tests use two or three short ASCII slides.",
  ["src/oxml/presentation.rs", "src/oxml/slide.rs", "src/oxml/xmlchemy.rs", "src/import/mod.rs", "src/api.rs"], [("reader", "src/oxml/presentation.rs PresentationReader"), ("importer", "src/import/mod.rs import_pptx")], None, ["PresentationReader, PresentationEditor::get_slide, Presentation::from_path"])

p("E01", "An editing session yields the expected slide sequence and a valid package",
  "After any sequence of add, update, insert, duplicate, remove and reorder operations on a presentation - however its slide parts are named and ordered in the opened file - the slides in it, seen in the session, and after saving and reopening, are exactly those the operations imply, in that order, and slides not touched keep their content and relationships. An operation with an index out of range reports an error and changes nothing. The package stays closed: unique relationship ids, no dangling references, and slide list, relationships and content types agree with the slide parts.",
  ["histories", "inputs"], "all operation sequences over presentations with any number of slides, with and without notes, images and charts, with intermediate save/reopen",
  "Tests run one or two operations on small decks and count slides.",
  ["src/oxml/editor.rs"], [("slide renumbering", "src/oxml/editor.rs renumber_slide"), ("presentation rebuild", "src/oxml/editor.rs rebuild_*")], [("package", "parts being edited", "src/oxml/editor.rs"), ("slide_count", "number of slides", "src/oxml/editor.rs")], ["get_slide, slide_count, save + reopen"])

p("O01", "A package container behaves as a map of part names to bytes and survives saving",
  "After any sequence of adding, overwriting, mutating and removing parts, a package lists exactly the parts present, each with the bytes last given to it. Saving it and opening the result (from a file or in memory) yields a package with the same parts and the same bytes, and opening a file never changes it.",
  ["histories", "inputs"], "all operation sequences, all part names and byte contents, with intermediate save/open",
  "Tests add one or two parts and count them; none writes and reopens a package.",
  ["src/opc/package.rs"], [("part map", "src/opc/package.rs Package")], [("parts", "name to bytes", "src/opc/package.rs")], ["get_part, part_paths, part_count, save_writer/open_reader"])

p("K01", "Compressing a presentation never changes what it shows",
  "Compressing a valid presentation in memory or from file to file yields a presentation that opens and is internally consistent, with the same slides in the same order, the same decoded text in every part that is kept, and every picture, chart and other part still referenced from a kept part present with its bytes. Exactly the parts the chosen options ask to remove are removed (document properties, notes, comments, media no relationship targets), together with the relationships and content types that name them; without XML optimisation kept parts are unchanged. The reported sizes, reduction and counts are those of the actual input and output (also when the output is larger), analysing a file reports its size, its slides and the sizes of its parts, and the source file is left untouched. Concurrent calls do not influence one another.",
  ["inputs", "configurations", "schedules"], "all valid presentations, all option combinations, concurrent in-memory calls",
  "Tests compress one generated deck and look at the size.",
  ["src/opc/compress.rs"], [("part filter", "src/opc/compress.rs"), ("XML minimiser", "src/opc/compress.rs minimize_xml"), ("temporary files", "src/opc/compress.rs compress_pptx_in_memory")], None, ["output package, CompressionResult"])

p("F01", "Repair makes a damaged package valid without losing slides, and is idempotent",
  "A presentation damaged by losing required parts, relationship entries, content types or slide-list entries is reported by validation with an issue for each kind of damage, and repairing it yields a package in which every slide part that had survived is listed once, in order, with its content unchanged, and that validates again without the repairable issues. Repairing an already valid package changes no part, and repairing twice equals repairing once.",
  ["fault_sequences", "inputs"], "all combinations of the damage kinds on all generated decks",
  "Tests damage one thing at a time on a one-slide deck.",
  ["src/oxml/repair.rs"], [("detectors", "src/oxml/repair.rs validate"), ("fixers", "src/oxml/repair.rs repair")], [("package", "parts under repair", "src/oxml/repair.rs")], ["PptxRepair::validate/repair/save"])

p("V01", "The package validator accepts every valid package and pinpoints damage",
  "Validating a package reports no error when all required parts exist, all relationships resolve, content types cover all parts and slide structure is consistent; and it reports at least one error whenever a required part is missing, an internal relationship target is missing, a part lacks a content type, or the slide list, presentation relationships and slide parts disagree. The verdict depends only on the package's content, not on the order of entries in the archive.",
  ["inputs", "fault_sequences"], "all generated packages and all single and double damages of them",
  "Tests cover a few damages on one deck.",
  ["src/core/package_validation/rules.rs", "src/core/package_validation/context.rs", "src/core/package_validation/report.rs"], [("rules", "src/core/package_validation/rules.rs")], None, ["validate_package_bytes"])

p("M01", "Markdown conversion keeps every block, in order, on the right slide",
  "Converting a Markdown document gives one slide per first-level heading (outside lists and quotes), plus one per thematic break and one for content that comes before the first heading; a further table on a slide opens a continuation slide (a slide holds one table). Each slide is titled with its heading's text and holds, in document order, every list item that follows the heading (with its nesting level and, in ordered lists, its number), every lower heading, paragraph, quote (as notes), table, code block and image. No text is lost, duplicated, or attached to another slide, whatever order blocks come in and however lists and quotes are nested, and no document makes the conversion panic.",
  ["inputs"], "all sequences of Markdown blocks",
  "Tests use a few hand-written documents; the parser is a state machine whose buffers must be reset correctly for every order of events.",
  ["src/cli/markdown/parser.rs"], [("event state machine", "src/cli/markdown/parser.rs")], [("current slide / list / table buffers", "pending content", "src/cli/markdown/parser.rs")], ["cli::parse_markdown result"])

p("M02", "A Mermaid diagram draws every element once and joins the right ones",
  "Converting a Markdown document with a Mermaid diagram gives a slide on which every declared element of the diagram is the text of exactly one shape, in order of declaration: the nodes of a flowchart (and the labels of its links), the participants of a sequence diagram above and below their messages, states, classes with or without a body, entities with every attribute, tasks and sections of Gantt charts and journeys (also those before the first section), every event of a date on a timeline, commits of a git graph on the row of the branch checked out, nodes of a mindmap by their labels, slices, quadrants and points. Each declared connection is a connector that names the shapes of its two ends (dashed where the link is dotted, without an arrow head where it is open), or for messages spans and points from sender to receiver. Nodes of one diagram lie at different places, points and slices where their numbers say, and shape identifiers are unique on the slide whatever number of diagrams it holds.",
  ["inputs"], "all sequences of diagram statements of the twelve supported kinds",
  "Tests render one sample per diagram kind and check that some shapes exist.",
  ["src/cli/markdown/mermaid", "src/cli/markdown/parser.rs", "src/generator/shapes_xml.rs", "src/generator/connectors.rs"], [("line by line parsers and layouts", "src/cli/markdown/mermaid")], [("declared elements and links", "parsed diagram", "src/cli/markdown/mermaid")], ["shapes and connectors of the slide in the generated package"])

p("H01", "HTML conversion keeps every block, in order, on the right slide",
  "Converting an HTML document gives a slide per h1 heading, titled with its text, and holding in document order the text of every visible block that follows: each lower heading, paragraph, list item or other block of text is a bullet of its own (with the colour its element's style gives it), each pre a code block, each table a table with its rows and cells (a further one on a slide opens a continuation slide), each outermost blockquote the notes of the slide (the last one counts); an hr also ends a slide. Text is neither lost nor duplicated nor run together with that of another block, wherever end tags are left out, blocks are nested, or formatting spans them; formatting marks surround exactly the text they format; character references are decoded. Text inside skipped elements (scripts, styles, navigation, ...) and comments never appears and never hides what follows it. The limits of slides and bullets (headings excepted) and the include options are respected, and no input makes conversion panic.",
  ["inputs", "configurations"], "all sequences and nestings of HTML blocks, all option values",
  "Tests use a few hand-written documents; the tokenizer keeps flags and buffers that must be reset for every nesting.",
  ["src/import/html.rs"], [("tokenizer + state machine", "src/import/html.rs")], [("skip depth, list/table/text buffers", "pending content", "src/import/html.rs")], ["parse_html result"])

p("W01", "A web page becomes slides of its own content, in order, under its headings",
  "Converting a web page gives a presentation named by the title option, else the page's title, first h1 or OpenGraph title; its first slide carries that title, the page's description and (unless switched off) the source URL. Then come, in document order, the blocks of the main content (the element marked as such if it holds more than a hundred characters, else the body): every heading starts a slide, and every paragraph (of ten characters or more), list item, quote, and as the options say code block, table (its size) and described picture is a bullet of its own under the heading before it - before any heading, of the first one when grouping by headings, else of a slide \"Overview\" or \"Key Points\". A full slide is continued on one of the same heading; there are never more bullets or slides than the options allow, and no slide without bullets. Texts keep their words apart and whole, save that a text too long for a bullet is cut at its end and marked so. Scripts, styles, forms, navigation, footers, advertisements never appear. A page without content is refused; none makes conversion panic, however deeply nested.",
  ["inputs", "configurations"], "all pages of content blocks in any nesting, all option values",
  "Tests convert two small pages and look only at whether the result is empty.",
  ["src/web2ppt/parser.rs", "src/web2ppt/converter.rs", "src/web2ppt/config.rs"], [("content extraction", "src/web2ppt/parser.rs WebParser"), ("slide building", "src/web2ppt/converter.rs Web2Ppt")], [("current slide, heading, bullet count", "slide being filled", "src/web2ppt/converter.rs")], ["presentation made by html_to_pptx(_with_options)"])

p("X01", "Markdown and HTML exports show every slide's content, safely escaped",
  "Exporting a presentation to Markdown or HTML gives the slides in order, each with its title, bullets, table cells, code and notes (as enabled by the options) in order. In HTML, user text appears only as text: decoding the HTML gives the original text and no user text creates markup. Likewise a CommonMark reader (with tables) of the Markdown finds the original texts, up to white space at line edges, as headings, list items, cells, code and quotes and no other markup, and table cells keep their row and column. The front matter names the title and the number of slides.",
  ["inputs", "configurations"], "all presentations, all texts, all export options",
  "Tests check a few substrings for one-slide presentations.",
  ["src/export/md.rs", "src/export/html.rs"], [("exporters", "src/export/md.rs, src/export/html.rs")], None, ["export_to_markdown, export_to_html output"])

p("X02", "PDF export draws every slide on its own page",
  "Exporting a presentation to PDF gives a well-formed PDF (cross-reference table, stream lengths, references and declared fonts all agree) with one page per slide in slide order. Each page shows that slide's title, bullets with their markers, code lines and page number, in order as far as the page reaches, each in the slide's face, size, colour and indent, as the very characters of the original text wherever the font's encoding has them. A presentation without slides is refused and nothing is written. The document-style PDF export is equally well-formed and has the requested orientation.",
  ["inputs", "configurations"], "all presentations, all texts, all text formats, all nesting levels",
  "Tests check that the file begins with %PDF and a few strings of one-slide presentations.",
  ["src/export/slide_render.rs", "src/export/pdf_export.rs"], [("drawn pages", "src/export/slide_render.rs"), ("document export", "src/export/pdf_export.rs")], None, ["render_to_pdf, export_to_pdf output"])

p("C01", "Every pptcli command does what it says, or fails and changes nothing",
  "Whatever files there are and whatever commands ran before: a command exits 0 exactly when it did its work, then its output file (the named one, or the input's name with .pptx) holds the result: the slides of the document under the options given, the slides of all merged files in order, the exported slides, one slide per PDF page in page order, with the title given or the documented default. Otherwise it exits 1 (2 for a malformed command line) with a message. No other file is changed, and no file at all by a failing command; no temporary files are left. validate tells presentations from other files (--json as one JSON report), info reports the title and the number of slides.",
  ["histories", "inputs", "faults"], "all sequences of commands on all files, with the PDF converter present, failing or missing",
  "Tests call the command functions a few times on valid input; none runs the program.",
  ["src/bin/pptcli.rs", "src/cli/commands.rs", "src/cli/parser.rs", "src/api.rs"], [("commands", "src/bin/pptcli.rs, src/cli/commands.rs, src/cli/parser.rs"), ("PDF pages as slides, slides as pictures", "src/api.rs")], None, ["exit code, files and output of pptcli"])

p("S01", "Section bookkeeping always partitions what the caller assigned",
  "After any sequence of adding, removing and renaming sections, the section manager reports each section with its own name, first slide and slide count, finds for a slide the section that covers it, and reports an overlap exactly when two sections share a slide. The generated section list names each section once, in order, with its own slide ids, and distinct sections have distinct identifiers.",
  ["histories"], "all operation sequences on sections",
  "Tests add two sections.",
  ["src/generator/slide_content/sections.rs"], [("section list", "src/generator/slide_content/sections.rs SectionManager")], [("sections", "ordered sections", "src/generator/slide_content/sections.rs")], ["SectionManager API, to_xml"])

p("T01", "Table merges never overlap and mark exactly the covered cells",
  "After any sequence of merge requests on a table grid, a request is accepted exactly when its region lies inside the grid, spans at least one row and one column and overlaps no region accepted before; a rejected request changes nothing. Each cell is reported as the anchor with its spans, as merged away horizontally or vertically, or as plain, exactly as the accepted regions imply.",
  ["histories", "inputs"], "all grids and all sequences of merge requests",
  "Tests check two or three regions.",
  ["src/generator/slide_content/table_merge.rs"], [("merge map", "src/generator/slide_content/table_merge.rs TableMergeMap")], [("regions", "accepted regions", "src/generator/slide_content/table_merge.rs")], ["add_merge, cell_state"])

p("N01", "Comments keep their author, text, place and per-slide order",
  "After any sequence of registering authors and adding comments, each author has one identifier that never changes and is shared with no other author, asking for a known author returns that author, and each slide's comments are listed in order with distinct indices. The generated author list and comment parts, decoded, carry exactly the names, initials, texts, positions and dates given.",
  ["histories", "inputs"], "all sequences of authors and comments, all printable texts",
  "Tests add one or two comments.",
  ["src/generator/slide_content/comments.rs"], [("author list", "src/generator/slide_content/comments.rs CommentAuthorList")], [("authors", "registered authors", "src/generator/slide_content/comments.rs")], ["CommentAuthorList, SlideComments, to_xml"])

p("P01", "Relationship and content-type containers round-trip and never reuse an id",
  "After any sequence of adding (with automatic or explicit ids), looking up and removing relationships, automatic ids never collide with an id in use, lookups by id and by type return what was added, and writing the container to XML and parsing it back yields the same relationships (id, type, target, internal/external). A content-type table answers with the override of a part, else the default of its extension, else nothing, and survives writing and parsing back.",
  ["histories", "inputs"], "all operation sequences, all targets and types",
  "Tests add one or two relationships and never parse back what they write with unusual types or targets.",
  ["src/parts/relationships.rs", "src/parts/content_types.rs"], [("relationship table", "src/parts/relationships.rs"), ("content types", "src/parts/content_types.rs")], [("items", "relationships", "src/parts/relationships.rs"), ("next_id", "next automatic id", "src/parts/relationships.rs")], ["Relationships API, ContentTypesPart API"])

p("A01", "The presentation builder accumulates exactly what it is given",
  "After any sequence of adding slides, appending other presentations, setting the title, theme and settings, and saving and reloading, a presentation reports its slides in the order implied, its last title and its last settings, and building it twice gives the same parts. Building or saving an empty presentation fails with an error and writes no file, leaving an existing file at that path unchanged.",
  ["histories"], "all builder call sequences",
  "Tests chain two or three calls.",
  ["src/api.rs"], [("builder", "src/api.rs Presentation")], [("title, slides, settings", "accumulated state", "src/api.rs")], ["Presentation API"])

p("B01", "Reading arbitrary bytes or text never panics or hangs, and damage is contained",
  "Opening, validating, repairing, compressing, analysing, editing or importing a file - however truncated, corrupted, re-ordered or hand-crafted - either succeeds or returns an error: it never panics, never loops forever, and leaves the input file unchanged. A truncated file is refused by every opener; in a file whose container is whole, damage of one part is felt only there: slides whose own parts are undamaged read as before, slides without a readable part give an error, indices beyond the last slide give an error, and a damaged package is not called valid. The same holds for text: Markdown (with diagrams), HTML, web pages, XML parts, colours and picture bytes of any content are converted or refused, never a panic, a hang or an unreadable presentation.",
  ["inputs", "fault_sequences"], "all byte strings and texts; in particular every truncation and every corruption of some parts of a generated package",
  "Tests open a few invalid files.",
  ["src/opc/package.rs", "src/oxml/xmlchemy.rs", "src/oxml/slide.rs", "src/oxml/presentation.rs", "src/oxml/repair.rs", "src/opc/compress.rs", "src/core/package_validation/context.rs", "src/import/mod.rs"], [("error returns", "all readers")], None, ["Result of each public reader"])

p("U01", "Length units and positions convert consistently",
  "Converting lengths between inches, centimetres, points, pixels, percentages/ratios of the slide and EMU always gives the value implied by the unit's definition, negative or oversized inputs saturate instead of wrapping or panicking, and placing an object by unit gives the same position and size as placing it by the equivalent EMU value.",
  ["inputs"], "all finite unit values on all objects that accept units",
  "Tests convert one or two values per unit.",
  ["src/core/dimension.rs", "src/elements/position.rs", "src/core/placement.rs"], [("conversion", "src/core/dimension.rs Dimension")], None, ["Dimension, Shape/Image/Chart/Table placement"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
