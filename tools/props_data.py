prop("C01", "Every deck the generator writes is a sound, closed OOXML package",
 "Whatever valid deck a caller describes, every entry point that generates a presentation succeeds and yields a ZIP whose parts are well-formed XML valid against the PresentationML/DrawingML structure, with every part declared in the content types exactly once, every relationship target present, every relationship id used in a part defined for it, and all drawing-object ids unique within a slide. The slide list, the document properties and the slide, notes, chart, image and layout parts agree with the deck (one slide part per slide, in order, and no orphan or duplicate parts).",
 ["inputs", "configurations"], "for all decks of slides combining any layout, text, bullets, shapes, connectors, images, charts, tables, notes, code blocks, ink and transitions, for all strings and numbers inside the documented ranges, and for every generating entry point",
 "Tests write a handful of fixed decks and check for substrings; whether ids, relationships and content types stay consistent depends on the combination of features on and across slides, which only many generated decks reach.",
 ["src/generator/builder.rs", "src/generator/package_xml.rs", "src/generator/slide_xml", "src/generator/images_xml.rs", "src/generator/notes_xml.rs", "src/generator/charts", "src/generator/props_xml.rs"],
 [("package assembly and part numbering", "src/generator/builder.rs"), ("content types and relationships", "src/generator/package_xml.rs")],
 "runtime monitoring: independent OPC/PresentationML package checker over generated decks",
 "Sampled decks; soundness judged by the harness's own strict ZIP/XML/OPC/schema-order reader (not the crate's validator).")
prop("C02", "Every string put into a deck comes out of it unchanged",
 "Titles, bullets, shape texts, table cells, code, notes, chart names and presentation titles read back from the written package by an XML parser equal the caller's strings character for character, in the caller's order, each in its own slide and place and none twice. Only characters that XML 1.0 cannot carry are left out, and no string, however hostile (markup, entities, quotes, control or astral characters), changes anything but the text it stands for.",
 ["inputs"], "for all Unicode strings in every text position of every slide layout",
 "Tests use short ASCII strings in one position at a time; escaping and ordering must hold for every string in every position.",
 ["src/core/xml_utils.rs", "src/generator/slide_xml", "src/generator/text", "src/generator/notes_xml.rs", "src/generator/shapes_xml.rs"],
 [("XML escaping", "src/core/xml_utils.rs"), ("text emission per slide layout", "src/generator/slide_xml")],
 "runtime monitoring: tagged-text conservation monitor over generated decks",
 "Sampled decks with uniquely tagged strings, read back by the harness's own XML parser.")
prop("C03", "Text formatting and layout choices are written as asked",
 "For every slide, the bold, italic, underline, colour, size and alignment asked for titles and content, the level, marker style (bullet character, numbering scheme, colour, font, size) and formatting of every bullet, the chosen slide layout and the chosen transition appear on exactly the paragraphs, runs and slide they were asked for, and nowhere else. Placeholder positions stay on the slide.",
 ["inputs", "configurations"], "for all combinations of formatting options, bullet styles and layouts on any slide of a deck",
 "Options interact (global versus per-bullet, title versus content, layout-specific code paths), so single-option tests do not settle the combinations.",
 ["src/generator/slide_xml", "src/generator/slide_content", "src/generator/text"],
 [("layout-specific slide XML", "src/generator/slide_xml"), ("bullets", "src/generator/slide_content")],
 "runtime monitoring: specification-vs-output comparison over generated decks",
 "Sampled option combinations; the expected formatting is computed from the deck description.")
prop("C04", "Shapes and connectors are drawn as described",
 "Every shape and connector appears once, in the caller's order, with the described geometry, position, size, rotation, flip, fill (solid, gradient, transparency), outline, text, hyperlink and connection sites. Coordinates are written exactly as given in EMU.",
 ["inputs"], "for all shape types, coordinates, sizes, fills, lines, gradients, texts and connector arrangements, alone and together on a slide",
 "Tests exercise single shapes with round numbers.",
 ["src/generator/shapes.rs", "src/generator/shapes_xml.rs", "src/generator/connectors.rs", "src/generator/gradients.rs", "src/generator/hyperlinks.rs"],
 [("shape XML", "src/generator/shapes_xml.rs"), ("connector XML", "src/generator/connectors.rs")],
 "runtime monitoring: specification-vs-output comparison over generated decks",
 "Sampled shapes; geometry is read back from DrawingML.")
prop("C05", "Images land in the package byte for byte and where they belong",
 "Every image (and every video or sound) given as bytes, base64 or file is stored with identical bytes, a content type and file extension matching its format, and exactly one picture on its own slide refers to it, with the described position, size, crop and effects. Images of one slide never show up on, or swap with, those of another.",
 ["inputs", "configurations"], "for all image formats, sources, sizes, crops and effects and any distribution of images over slides",
 "Numbering of media across slides is only wrong for particular distributions of images, charts and notes.",
 ["src/generator/images.rs", "src/generator/images_xml.rs", "src/generator/image_effects.rs", "src/generator/media.rs", "src/generator/media_registry.rs", "src/generator/builder.rs"],
 [("media registry", "src/generator/media_registry.rs"), ("picture XML", "src/generator/images_xml.rs")],
 "runtime monitoring: byte-identity and reference-tracking monitor over generated decks",
 "Sampled image distributions; pictures are followed through relationships to bytes.")
prop("C06", "Charts carry exactly the data they were given",
 "Every chart appears once on its own slide with the given type, title, categories, series names and values (numerically equal, at the right category, gaps where a value is not finite), and its part is a valid chart the frame refers to.",
 ["inputs"], "for all chart types, category and series lists (including ragged and empty ones), finite and non-finite values and hostile names",
 "Tests look for fixed substrings in charts with two or three points.",
 ["src/generator/charts", "src/generator/builder.rs"],
 [("chart XML", "src/generator/charts")],
 "runtime monitoring: data-conservation monitor over generated charts",
 "Sampled charts; the embedded workbook is a constant and is not checked.")
prop("C07", "Tables keep their cells, formatting and merges",
 "A table has exactly the described rows, columns, widths, heights and position, each cell its text and formatting (alignment, anchor, colours, font, size), and merged regions cover exactly the cells asked for, with spans consistent in both directions and every row as wide as the grid. Merge requests that overlap or leave the table are refused without changing anything.",
 ["inputs", "histories"], "for all table sizes, cell formats and merge sequences",
 "Tests merge one region in small tables; consistency must hold for any sequence of merges.",
 ["src/generator/table", "src/generator/slide_content/table_merge.rs", "src/helpers/tables.rs"],
 [("table XML", "src/generator/table"), ("merge map", "src/generator/slide_content/table_merge.rs")],
 "runtime monitoring: specification-vs-output comparison and a reference merge model",
 "Sampled tables and merge histories.")
prop("C08", "Speaker notes stay with their slides",
 "Every slide that was given notes, and no other, is linked to exactly one notes page, which links back to that slide and to the notes master and carries the notes text unchanged.",
 ["inputs", "configurations"], "for all decks and any subset of slides having notes, next to images, charts and ink on the same slides",
 "Notes parts are numbered and related separately from slides; mix-ups need particular subsets of noted slides.",
 ["src/generator/notes_xml.rs", "src/generator/builder.rs", "src/generator/package_xml.rs"],
 [("notes parts and relationships", "src/generator/builder.rs")],
 "runtime monitoring: relationship-following monitor over generated decks",
 "Sampled decks.")
prop("C09", "All ways of writing a deck give the same package; failed writes are reported",
 "The same slides, title and settings give the same package, part for part and apart from the timestamps, whether written in memory, to a writer, slide by slide from a lazy source, through the presentation object (built, saved to a new or existing file, or merged from two presentations) or a second time. When the destination fails at any point the call reports an error, and a writer that takes only a few bytes at a time changes nothing.",
 ["inputs", "configurations", "fault_sequences"], "for all decks, settings, entry points, and every byte position at which the destination can fail",
 "There are five writing paths with separately written content-type and relationship logic; tests look at one path at a time, and none injects a write failure.",
 ["src/generator/builder.rs", "src/generator/package_xml.rs", "src/generator/package_cache.rs", "src/api.rs"],
 [("eager and lazy package writers", "src/generator/builder.rs"), ("presentation object", "src/api.rs")],
 "runtime monitoring: differential part-by-part monitor and write-fault injection",
 "Sampled decks and fault positions; faults are injected through a Write/Seek implementation and missing folders.")
prop("C18", "Importing Markdown shows the whole document",
 "For every Markdown document, the deck has one slide per top-level heading, rule or second table, whose title, bullets with their nesting, numbering and task marks, table cells, code with its language, quoted notes and pictures are those of the document, in order, with entities, escapes and inline markup resolved. No document makes the importer panic or lose a word, and the slides that are written show it all.",
 ["inputs"], "for all Markdown documents: headings, nested, loose and task lists, tables, code, quotes, rules, images, inline markup, entities, HTML and arbitrary text between them",
 "Tests parse a few dozen short documents; what is lost depends on how blocks nest and follow each other and on the characters in them.",
 ["src/cli/markdown/parser.rs", "src/cli/markdown/mod.rs"],
 [("block and inline events to slides", "src/cli/markdown/parser.rs"), ("slides with tables, bullets and code", "src/generator/slide_xml/layouts.rs")],
 "runtime monitoring: generated documents with known meaning, and arbitrary text with the CommonMark event stream as oracle, watched up to the written deck",
 "Emphasis markers stay visible as text in bullets and are ignored by the oracle; diagrams in mermaid fences belong to C19.")

prop("C19", "Mermaid diagrams are drawn completely and truly",
 "For every diagram in the documented part of each of the twelve Mermaid kinds, the slide shows every title, node, participant, task, member, commit, point and label exactly as often as the diagram has it and nothing else, connectors and message arrows join the right items in the right direction with the right heads, and positions keep the order the diagram gives. Diagrams sharing a slide do not disturb each other, two runs give the same drawing, and no text or size of diagram makes the importer panic or the deck invalid.",
 ["inputs"], "for all diagrams of the twelve kinds: any names, labels, chains, nesting, comments, order of statements and size, alone or several to a slide, whole or damaged",
 "Tests check that some shape comes out of a few textbook diagrams; an item gets lost depending on its name, its place in a chain and what surrounds it.",
 ["src/cli/markdown/mermaid/mod.rs", "src/cli/markdown/mermaid/flowchart.rs", "src/cli/markdown/mermaid/sequence.rs", "src/cli/markdown/mermaid/class_diagram.rs", "src/cli/markdown/mermaid/er_diagram.rs", "src/cli/markdown/mermaid/state_diagram.rs", "src/cli/markdown/mermaid/timeline.rs", "src/cli/markdown/mermaid/types.rs"],
 [("diagram kinds and their drawing", "src/cli/markdown/mermaid/mod.rs"), ("placing and numbering on the slide", "src/cli/markdown/parser.rs")],
 "runtime monitoring: diagrams generated from a meaning, drawn by the importer, and the texts, positions and connectors of the written slide compared with that meaning",
 "Notes, loops, composite states, icons, tags and class styles are outside the documented part and not judged; directions BT and RL only keep the order of nodes.")

prop("C20", "Exported Markdown reads back as the deck",
 "For every deck and every export option, a Markdown reader finds in the exported document the deck's title, one section per slide in order with the asked numbering and separators, exactly the slide's title, bullet texts, table cells, code with its language, notes and one distinct reference per picture, and nothing else. This holds whatever characters and line breaks the texts contain, and the frontmatter, when asked for, gives the title and the number of slides.",
 ["inputs", "configurations"], "for all decks whose texts contain anything Markdown or YAML gives a meaning to, times all export options",
 "Tests look for a few plain phrases in the exported text; whether a text survives depends on how it combines with the markup around it.",
 ["src/export/md.rs"],
 [("export and escaping", "src/export/md.rs"), ("save_as_markdown", "src/api.rs")],
 "runtime monitoring: exported documents read back by a CommonMark/GFM parser and a YAML scalar reader as oracle",
 "White space is compared collapsed; shapes, charts and bullet nesting are not part of the export and not judged.")

prop("C21", "The exported HTML page shows exactly the deck",
 "For every deck and every export option, an HTML reader finds on the exported page the deck's title and one section per slide, in order, holding exactly the slide's title, bullets, table cells with their spans, pictures byte for byte, code with its language and notes when asked for. No text, whatever it contains, adds, hides or changes any other element of the page.",
 ["inputs", "configurations"], "for all decks whose texts contain anything HTML gives a meaning to, times all export options",
 "Tests look for a few plain phrases in the page; whether a text stays text depends on its characters and on the place it is written to.",
 ["src/export/html.rs"],
 [("export and escaping", "src/export/html.rs"), ("save_as_html", "src/api.rs")],
 "runtime monitoring: exported pages read back by an HTML5 parser, element by element, against the deck as oracle",
 "Shapes and charts are not part of the page and not judged; the script of the page is not run.")

prop("C16", "Any input ends in an answer, in bounded time and memory",
 "Whatever bytes, text or numbers a reader, builder, editor, repairer, compressor, validator, template loader or exporter is given, the call returns a result or an error: it never panics, aborts, overflows the stack, hangs or takes memory out of proportion to the input. The same input gives the same answer, and whatever is read from a damaged file and written again is a sound deck.",
 ["inputs", "fault_sequences"], "for all byte strings, part names, XML contents, texts and numeric arguments",
 "Tests feed a handful of small malformed inputs to some entry points; a panic needs a particular value in a particular place of a particular reader.",
 ["src/opc/package.rs", "src/opc/compress.rs", "src/oxml/xmlchemy.rs", "src/oxml/slide.rs", "src/oxml/presentation.rs", "src/oxml/editor.rs", "src/oxml/repair.rs", "src/import/mod.rs", "src/import/html.rs", "src/cli/parser.rs", "src/generator/template.rs", "src/generator/images.rs", "src/core/package_validation/rules.rs", "src/parts/relationships.rs", "src/core/dimension.rs"],
 [("archive reading", "src/opc/package.rs"), ("XML nesting bound", "src/oxml/xmlchemy.rs"), ("part names", "src/oxml/editor.rs"), ("picture headers", "src/generator/images.rs")],
 "runtime monitoring: overflow-checked build, panic, crash, CPU-time and allocation monitors around every entry point under structure-aware mutation of packages, parts, pictures, texts and numbers",
 "Bounds: 20 s of CPU time and 64 MB plus 400 times the unpacked size per call. Pictures fetched from the network are not exercised.")

prop("C17", "An imported HTML page becomes exactly the slides its elements describe",
 "For every HTML page, level-one headings and rules split slides, and each slide gets, in page order, the sub-headings, paragraphs, list items and image placeholders with the formatting their inline styles give them, the table cells, the code and the quotation as notes, up to the limits and switches of the options. Every word a browser would show is in the deck, and none that it would not; any input at all ends without a panic, gives the same result each time and makes a sound deck.",
 ["inputs", "configurations"], "for all pages: well-formed, with end tags left out or misplaced, with comments, scripts, navigation and void elements anywhere, times all parser options",
 "Tests import short pages with closed tags in the expected order; what a tag does depends on everything open around it.",
 ["src/import/html.rs"],
 [("tokenizer and slide builder", "src/import/html.rs"), ("html2ppt command", "src/cli/commands.rs")],
 "runtime monitoring: generated pages of known meaning, and random element trees judged against what an HTML5 parser shows",
 "Nested lists and several quotations on one slide are known findings; pictures are placeholders (no network, no local files).")
prop("C22", "An exported PDF shows all of every slide's text on its page",
 "For every deck, the exported PDF file is well formed and has one page per slide, in order, which shows the slide's title, bullets with their numbers, table cells, code and slide number, in order and inside the page, not one character more or less, in the fonts, colours and underlines of the slide. Characters of Western scripts appear as themselves and any other as one stand-in, whatever the text contains; a deck without slides is refused. The export that flows the deck's Markdown over pages is well formed too and holds its plain words, pictures and notes in order as the options say.",
 ["inputs", "configurations"], "for all decks with texts of any length and characters, times the two exports and their options",
 "Tests check that the file starts with the PDF signature; whether a reader can open it and what it then shows depends on lengths, encodings, resources and the number and length of lines.",
 ["src/export/slide_render.rs", "src/export/pdf_export.rs"],
 [("page renderer", "src/export/slide_render.rs"), ("export through Markdown", "src/export/pdf_export.rs"), ("save_as_pdf", "src/api.rs")],
 "runtime monitoring: exported files read back by a strict PDF reader written for this check, page by page, against the deck as oracle",
 "Pictures, shapes and charts are not drawn by the page renderer and not judged; in the flowed export only plain words are judged (the dependency shows Markdown escapes and garbles other scripts).")

prop("C23", "Lengths, colours, ready-made objects and arrangements mean what they say",
 "Every length given in inches, centimetres, points, percent or a fraction of the slide is drawn within one length unit of its exact value, never below zero, above the range or out of order; colour texts, names and adjustments give the exact colour within one step per channel, and any other text is refused or black. Every shape, table and deck made by a shortcut is drawn with the geometry, texts, fills, lines and header formats its name and arguments state, as if built in full. Centred, gridded, stacked and distributed places follow the arithmetic of the slide for every count and size, too large ones included.",
 ["inputs", "programs"], "for all numbers in every unit, all colours and amounts, and any sequence of shortcuts",
 "Tests check a handful of round numbers on shapes that fit; negative, huge and oversized values, other spellings and what finally gets drawn are not visited.",
 ["src/core/dimension.rs", "src/elements/color.rs", "src/elements/position.rs", "src/helpers/mod.rs", "src/helpers/colors.rs", "src/helpers/tables.rs", "src/prelude.rs", "src/generator/shapes.rs"],
 [("unit conversion", "src/core/dimension.rs"), ("colour arithmetic", "src/helpers/colors.rs"), ("shortcut shapes", "src/prelude.rs"), ("shortcut tables", "src/helpers/tables.rs"), ("arrangements", "src/prelude.rs")],
 "runtime monitoring: conversions, colours and places of random values compared with exact arithmetic, and every shortcut's object read back from the written deck and compared with its arguments",
 "Roundings of one unit either way are accepted. Theme colours given to the short fill and stroke methods are drawn black (known finding).")

prop("C24", "Presentation-wide settings are written as asked and disturb nothing else",
 "Theme, slide show, print, embedded font and signature settings appear in the package exactly as asked (colours, font names, flags, ranges, font bytes), the parts they need are present, typed and related, and the slides are those of the same deck without settings. Creation and modification times are the current time in UTC.",
 ["inputs", "configurations"], "for all combinations of settings on any deck, through every entry point that takes settings",
 "Each setting has a unit test of its own fragment; that the fragments fit together in one valid package does not follow.",
 ["src/generator/presentation_theme.rs", "src/generator/slide_content", "src/generator/builder.rs", "src/generator/props_xml.rs"],
 [("settings to parts", "src/generator/builder.rs")],
 "runtime monitoring: specification-vs-output comparison and clock monitor",
 "Sampled settings; sections, comments, audio and video are never written by the crate and are not covered.")
prop("C10", "Reading a package back reports exactly what it holds",
 "For every sound package, whoever wrote it, the reader reports the slides in presentation order with all their shapes (groups included, in slide coordinates), texts with levels and run formatting, tables with spans, titles, body text and document properties, none missing and none invented. Importing a package into a presentation keeps titles, bullets with levels, shapes with geometry and text and the table of each slide, and writing the imported presentation again yields a sound package that reads the same.",
 ["inputs"], "for all packages the generator can write and all sound packages of other producers (any part names, relationship ids, target forms, namespace prefixes, element order, groups, fields, breaks)",
 "Tests read back two or three decks the crate itself wrote, where file order, ids and slide order coincide.",
 ["src/oxml/presentation.rs", "src/oxml/slide.rs", "src/oxml/xmlchemy.rs", "src/import/mod.rs"],
 [("slide list resolution", "src/oxml/presentation.rs"), ("slide parsing", "src/oxml/slide.rs"), ("import", "src/import/mod.rs")],
 "runtime monitoring: reader output compared with an independent reader and with the model of synthesised foreign packages",
 "Sampled packages; foreign packages are synthesised with a model of their contents and first checked sound.")
prop("C11", "Any sequence of edits leaves a sound deck with exactly the edited slides",
 "After any sequence of adding, inserting, updating, removing, duplicating, moving, saving and reopening, the package is sound, lists exactly the slides of the corresponding list of edits in that order, shows every untouched slide (text, notes, pictures, charts, links) as before and every new slide as described, and leaves all other parts as they were. An edit at an index that does not exist is refused and changes nothing.",
 ["histories", "inputs"], "for all sequences of editing operations on new, generated and foreign decks",
 "Tests apply one or two edits to fresh decks whose part numbers, relationship ids and positions coincide; only longer histories and foreign numbering make them differ.",
 ["src/oxml/editor.rs", "src/opc/package.rs"],
 [("slide list and relationship edits", "src/oxml/editor.rs")],
 "runtime monitoring: trace of edits checked against a list model after every operation",
 "Sampled histories of up to nine edits; slides are compared by a fingerprint that follows relationships to content.")

prop("C12", "The part store behaves as a map and survives being saved and reopened",
 "After any sequence of adding, replacing, removing and looking up parts, saving and reopening, the store holds exactly the parts and bytes a map of names to bytes would hold. Saving the same parts twice gives the same order of entries, content types first. An archive with damaged data is refused rather than opened with other bytes, and opening never panics.",
 ["histories", "inputs", "fault_sequences"], "for all sequences of operations on parts with any names and contents, and for every cut or flipped bit of an archive",
 "Tests add and read back one or two short parts; replacing after reopening, names close to each other, large or empty contents and damaged archives are not visited.",
 ["src/opc/package.rs"],
 [("part map and archive reading and writing", "src/opc/package.rs")],
 "runtime monitoring: trace of store operations checked against a map model, bit-flip and truncation faults with an oracle on the bytes returned",
 "Histories of up to 30 operations; damage to names in the archive's directory carries no checksum and is only checked for panics.")

prop("C13", "Compression removes exactly what it was asked to remove",
 "Compressing any sound deck with any options gives a sound deck in which every slide, picture, chart, note, link and text that is in use is unchanged, only media nothing uses, notes and properties are removed and only when the options ask for it, and nothing appears. The reported sizes, percentage, number of removed files and target verdict agree with the bytes, compressing again changes nothing more, and what is not a deck is refused without touching the output.",
 ["inputs", "configurations"], "for all decks, generated here or by other producers, times all compression options",
 "Tests check that the output is smaller or that a report is produced; which parts may go depends on every relationship in the package and on how it is spelled.",
 ["src/opc/compress.rs", "src/api.rs"],
 [("unused media, notes and properties removal, XML white space", "src/opc/compress.rs"), ("Presentation::compress", "src/api.rs")],
 "runtime monitoring: part-by-part comparison of input and output packages by an independent reader (conservation oracle)",
 "Sampled decks and options. Images are never re-encoded (no codec), so image quality settings have no observable effect to judge.")

prop("C14", "Repair reports every damage it can name and its verdict is true",
 "Repair finds nothing in a sound deck and leaves it as it is; it reports each missing part, dangling relationship, unlisted slide, missing content type and malformed part. When it says the deck is valid, the saved deck is sound, shows every slide that still exists with untouched slides unchanged and needs no further repair, and when something cannot be repaired it says so instead.",
 ["inputs", "fault_sequences"], "for all sound decks, in any layout of their XML, times sequences of damages",
 "Tests repair one hand-made package with one missing part; the damage, its position and the spelling of the XML around it are unbounded.",
 ["src/oxml/repair.rs", "src/core/validation.rs"],
 [("detection and repair of damage", "src/oxml/repair.rs"), ("well-formedness", "src/core/validation.rs")],
 "runtime monitoring: fault injection into packages with the injected damage as oracle, soundness checker on the repaired deck",
 "Up to three damages of eleven kinds per deck; damage inside otherwise well-formed XML (wrong values) is outside what the module claims to find.")

prop("C15", "The package validator accepts what the library writes and rejects flawed decks",
 "Validation reports no error for any deck the library writes, and at least one error as soon as a required part, relationship target, content type, slide list entry, drawing number or chart part is missing or inconsistent or an XML part is not well formed. Counts, flags and messages of a report agree with each other and with the older entry point, and no input makes validation panic.",
 ["inputs", "fault_sequences"], "for all decks the library writes times flaws of nineteen kinds at any place, and for all byte strings",
 "Tests validate a few fixed decks and flaws; a false alarm or a miss depends on the features the deck combines.",
 ["src/core/package_validation/rules.rs", "src/core/package_validation/context.rs", "src/core/package_validation/report.rs", "src/core/powerpoint_compat.rs"],
 [("rules", "src/core/package_validation/rules.rs"), ("older entry point", "src/core/powerpoint_compat.rs")],
 "runtime monitoring: flaw injection with the injected flaw as oracle, both directions (no false alarm, no miss)",
 "The validator assumes the naming conventions of this library's writer, so decks of other producers are outside the property.")

prop("C25", "A deck made from a template wears that template's design",
 "A deck built from any sound template package, through every entry point that accepts one, is a sound package whose single slide master, layouts, theme, pictures and table styles are those of the template's first master, unchanged and typed as before, with each slide tied to the layout of its number (the first if there is none), all slides and settings as asked, and the template file untouched; packages without a master or layouts are refused. The ready-made business decks have exactly the documented slides in order, each showing its title and every given line.",
 ["inputs", "configurations"], "for all sound template packages (any number of masters and layouts, part names, relationship forms, pictures, links), all decks and settings put on them, and all contents of the business decks",
 "Tests load one template the crate itself wrote and check that a deck comes out; part names, counts and relationships coincide with the built-in ones there.",
 ["src/generator/template.rs", "src/generator/builder.rs", "src/templates.rs"],
 [("template loading", "src/generator/template.rs"), ("template parts in the package", "src/generator/builder.rs"), ("business decks", "src/templates.rs")],
 "runtime monitoring: relationship closure of the template compared with that of every deck built from it; slide content against the description",
 "Sampled templates and decks. The slide size is always the built-in one, and print headers are not added to a template's master; neither is judged.")
prop("C26", "The command line tool does what the library does and reports how it went",
 "Every command (create, md2ppt, html2ppt, web2ppt, pdf2ppt, merge, export, validate, info) with any options and file names writes exactly the file the library makes of the same input and options, under the given or documented default name, and nothing else. It exits with 0 exactly when that file is complete (for validate: when the package is valid), otherwise with 1 and a message, never crashes, leaves inputs, existing outputs and the temporary folder as they were, and copes with page drawers and web servers that fail, stall, redirect or answer partially.",
 ["inputs", "configurations", "fault_sequences"], "for all commands, options, file names and inputs, and all failures of the programs and servers the tool depends on",
 "Tests call the command functions on one input each; the program itself, its exit codes, default names, temporary files and the external page drawer are never run.",
 ["src/bin/pptcli.rs", "src/cli/commands.rs", "src/cli/parser.rs", "src/api.rs", "src/web2ppt/fetcher.rs"],
 [("argument handling and exit codes", "src/bin/pptcli.rs"), ("commands", "src/cli/commands.rs"), ("page pictures to slides", "src/api.rs"), ("fetching", "src/web2ppt/fetcher.rs")],
 "runtime monitoring: the real program run in a scratch folder with stand-in page drawer and loopback web server; files, exit code and output compared with the library's result",
 "Sampled command lines. What the library makes of an input is judged by the other properties.")
prop("C27", "A deck is the same whatever else is made before it or at the same time",
 "What the library makes of an input (a new deck with any settings, template or lazy source, a deck from text or pages, a read, edited, compressed or exported file) depends on that input alone. It is the same in a fresh process, after any history of other work, and while any number of threads and processes work on other inputs or build the very same presentation, sharing the folder for temporary files, of which nothing remains.",
 ["schedules", "histories"], "for all interleavings of any jobs on many threads and processes, from a process that has done nothing yet, and all orders of jobs in one process",
 "Tests run single conversions on one thread in an order that does not vary, and never compare a result with that of another schedule.",
 ["src/generator/package_cache.rs", "src/generator/builder.rs", "src/generator/images.rs", "src/api.rs", "src/export/image_export.rs", "src/export/slide_render.rs", "src/export/pdf_export.rs"],
 [("parts kept between decks", "src/generator/package_cache.rs"), ("temporary files", "src/api.rs"), ("temporary files of exports", "src/export/image_export.rs")],
 "runtime monitoring: recorded concurrent and sequential histories of jobs in fresh processes with delaying sources and writers, each product compared with that of a process running the job alone",
 "Sampled schedules; the crate has no unsafe code, so data races in the language sense cannot occur and no race detector is needed. Names drawn at random and times are masked.")
prop("C28", "Stand-alone parts carry every value and read back what they wrote",
 "Every part that can be built by itself (relationships, content types, presentation, slide, layout, master, theme, notes, chart, table, properties, pictures, media) writes well-formed XML with each given value exactly once whatever characters it holds, identifiers that never repeat, and path, content type and relationship targets that agree with each other. Reading what was written gives the same values and writes the same XML again, through any sequence of additions, changes and round trips, and parts assembled into a package form a sound deck that shows the slides as described.",
 ["inputs", "histories"], "for all values and all sequences of operations on the stand-alone parts",
 "Tests build each part once with short plain values; colliding identifiers, markup in values, merged cells and round trips after edits are not visited.",
 ["src/parts/relationships.rs", "src/parts/content_types.rs", "src/parts/presentation.rs", "src/parts/slide.rs", "src/parts/slide_layout.rs", "src/parts/slide_master.rs", "src/parts/theme.rs", "src/parts/notes_slide.rs", "src/parts/chart.rs", "src/parts/table.rs", "src/parts/app_props.rs", "src/parts/coreprops.rs", "src/parts/image.rs", "src/parts/media.rs", "src/parts/base.rs"],
 [("identifiers", "src/parts/relationships.rs"), ("slide list", "src/parts/presentation.rs"), ("cells, spans and borders", "src/parts/table.rs"), ("content types", "src/parts/base.rs")],
 "runtime monitoring: operation traces on the parts checked against models by an independent XML reader, and packages assembled from parts checked sound",
 "Theme colour names other than the twelve of the format and colours that are not hexadecimal are preconditions.")

prop("C29", "A web page becomes the outline its headings and blocks give",
 "For every web page, the deck starts with the page's title, description and source, followed by one slide per heading with content, holding in page order every paragraph, list item, quotation, code block, table and picture of the content area as a bullet, shortened only beyond the documented lengths and continued on further slides beyond the bullet limit. Options and limits do what they say, nothing that a browser hides is shown, and any input ends without a panic in a sound deck or a refusal.",
 ["inputs", "configurations"], "for all pages with any nesting of containers, inline markup, entities, hidden elements and block lengths, times all options",
 "Tests convert one tidy page and check that something comes out.",
 ["src/web2ppt/converter.rs", "src/web2ppt/parser.rs", "src/web2ppt/config.rs"],
 [("content extraction", "src/web2ppt/parser.rs"), ("slide building", "src/web2ppt/converter.rs")],
 "runtime monitoring: pages generated from known blocks, compared with the extracted blocks and with the slides of the written deck",
 "Fetching is not exercised (no network). Text directly in containers, paragraphs under ten bytes, headings and items beyond the documented lengths and pictures inside paragraphs are left out by design and not judged.")

prop("C30", "Pieces written on their own carry what they were given",
 "Runs, paragraphs, frames, right-to-left properties, links, gradients, arrows, media objects, ink, signatures, comments, sections, merge maps and rich text, each built by any sequence of setters and operations, write well-formed, schema-ordered XML in which every value set last appears exactly once, in range, and nothing else does. Sections, comment lists and merge maps accept exactly the operations that keep slides, indexes and cells disjoint, answer every lookup accordingly, and never repeat an identifier.",
 ["inputs", "histories"], "for all values, setter orders and operation sequences on the stand-alone pieces",
 "Tests look for one substring of one value each; combined settings, refused operations, huge ranges, markup in values and repeated names are not visited.",
 ["src/generator/text/run.rs", "src/generator/text/paragraph.rs", "src/generator/text/frame.rs", "src/generator/text/format.rs", "src/generator/text/rtl.rs", "src/generator/hyperlinks.rs", "src/generator/gradients.rs", "src/generator/media.rs", "src/generator/shapes_xml.rs", "src/generator/images_xml.rs", "src/generator/slide/formatting.rs", "src/generator/slide_content/sections.rs", "src/generator/slide_content/comments.rs", "src/generator/slide_content/table_merge.rs", "src/generator/slide_content/ink_annotations.rs", "src/generator/slide_content/digital_signature.rs", "src/core/xml_utils.rs"],
 [("run properties", "src/generator/text/run.rs"), ("disjoint ranges", "src/generator/slide_content/sections.rs"), ("cell states", "src/generator/slide_content/table_merge.rs"), ("comment indexes", "src/generator/slide_content/comments.rs"), ("link targets", "src/generator/hyperlinks.rs")],
 "runtime monitoring: setter and operation traces on the pieces checked against models by an independent XML reader and schema order checker",
 "Line spacing has no documented unit and media playback options are not packaged yet; both are not judged. Connection site numbers and lone rich text markers are known findings.")

prop("C31", "Links on shapes lead where they were asked to",
 "Every shape with a link carries exactly one click action with the given tip and highlight, which leads to the given address, mail, file, slide (by its number in the finished deck, also when the slide is put into an existing deck) or jump within the show. Whatever else is on the slide and whatever identifiers the caller chose, no link is lost, shares a relationship with another part, or leads anywhere else, and a link to a slide that is not there leaves a sound deck.",
 ["inputs", "histories", "configurations"], "for all kinds of link and distributions of linked shapes over slides with notes, images, charts and ink, through every way of writing a deck",
 "Tests build a link's XML from a hand-made relationship identifier and never follow one in a written deck.",
 ["src/generator/hyperlinks.rs", "src/generator/builder.rs", "src/generator/shapes_xml.rs", "src/oxml/editor.rs"],
 [("link XML and targets", "src/generator/hyperlinks.rs"), ("relationships of a slide", "src/generator/builder.rs")],
 "runtime monitoring: links of generated decks followed through the relationships by an independent reader",
 "Sampled decks. Addresses are written as given; their validity is the caller's.")

prop("C32", "Pictures of slides show the deck asked for and land where asked",
 "Drawing a deck or one of its slides hands the drawing program that very deck, and the call returns and writes exactly the pictures drawn of the slides asked for, byte for byte, in slide order and in the given place, leaving every other file as it was; a deck made of the pages of a document shows them all, once each and in page order. An invalid slide, a missing file or a program that fails ends in an error that changes no file, and nothing temporary is left in any case.",
 ["inputs", "configurations", "fault_sequences"], "for all decks, slide numbers, options, naming schemes and drawing orders of the program, earlier contents of the folder, and failures of the program at any point",
 "The drawing programs are not there when the tests run, so these calls are never executed by them.",
 ["src/export/image_export.rs", "src/api.rs"],
 [("picture export", "src/export/image_export.rs"), ("pages to slides", "src/api.rs")],
 "runtime monitoring: recording stand-ins for the outside programs, with fault injection, and before/after comparison of every file in reach",
 "The programs are stand-ins; what the real ones draw is not judged. Size and quality options are a known finding.")
