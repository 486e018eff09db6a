#!/usr/bin/env python3
"""The catalogue of properties; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []

def prop(id, title, statement, over, text, why, files, mechanism, note, technique, observe=None, level="model_checking", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  note=note, technique=technique, observe=observe, level=level, hook=hook))

TLA = "TLA+/TLC specification, replayed on the real code"

prop("C01", "Identifiers have one total order and an exact successor relation",
     "For each kind of identifier (act, article, paragraph, numeric, alphabetic, prefixed alphabetic), comparison is a total order that agrees with "
     "equality and is the legal order (numbers by value, a letter suffix after the bare number, Hungarian digraphs and accented letters in alphabetical "
     "place). An identifier is reported as the next one of another exactly when legal numbering allows it to follow, never when it is not greater. "
     "Being the first of a series is reported exactly for the identifiers a numbering may start with, and a range contains exactly the identifiers between its ends.",
     ["inputs"], "all pairs and triples of identifiers of each kind, and all ranges",
     "The tests compare a few dozen hand-picked pairs; order and succession are relations over all pairs, and the interesting ones are digraphs, suffix jumps and the ends of the integer range.",
     ["src/identifier/numeric.rs", "src/identifier/alphabetic.rs", "src/identifier/article.rs", "src/identifier/paragraph.rs",
      "src/identifier/prefixed_alphabetic.rs", "src/identifier/act.rs", "src/identifier/range.rs", "src/util/hun_str.rs"],
     [("IdentifierCommon::is_next_from / is_first / Ord", "src/identifier/mod.rs"), ("IdentifierRange::contains", "src/identifier/range.rs")],
     "Exhaustive over finite universes of each identifier kind (the alphabet completely), randomized beyond; trusts the transcription of Hungarian alphabetical order in spec/Ident.tla.",
     TLA)
prop("C02", "Identifier notations round-trip and nothing else is accepted",
     "Writing any identifier in its compact, display or Roman-numeral form and reading it back yields the same identifier, and the same holds for its JSON form. "
     "Every reader accepts exactly the notations of its kind and rejects all other strings with an error, never a panic. Roman numerals and Hungarian ordinals denote the right numbers.",
     ["inputs"], "all strings, and all identifiers of each kind",
     "Tests check a handful of strings; acceptance is a language over all strings.",
     ["src/identifier/*.rs", "src/util/hun_str.rs", "src/util/compact_string.rs"],
     [("FromStr / CompactString / Display of identifiers", "src/identifier/"), ("FromHungarianString, roman", "src/util/hun_str.rs")],
     "Every string up to a length over two alphabets, all Roman numerals and ordinals, and random or damaged notations.", TLA)
prop("C03", "Every reference built by any history of operations is well formed",
     "Whatever sequence of building, extending, truncating, relative-to and first/last-in-range operations is applied to references, each result is well formed: no "
     "gap between its levels other than the legal ones, a range only in its last part, and the operation is refused with an error exactly when the result would not be. "
     "The parts, the last part and the parent that a reference reports agree with how it was built.",
     ["programs", "histories"], "all programs over the reference construction API",
     "Tests build a few references; the invariant is over all operation sequences.",
     ["src/reference/mod.rs", "src/reference/builder.rs", "src/reference/unchecked.rs", "src/reference/parts.rs"],
     [("ReferenceBuilder, Reference::relative_to, first_in_range, last_in_range, parent", "src/reference/")],
     "All programs up to a bound over two vocabularies plus random longer ones; every register compared after each step.", TLA)
prop("C04", "Reference containment, parenthood and ordering form one algebra",
     "Containment of references is reflexive and transitive, agrees with ranges, and a reference contains exactly the references whose parts lie within its own. A "
     "reference is the parent of another exactly when its own parts are a proper leading portion of the other's. The order of references is total, agrees with "
     "equality, and places every reference after the ones that legally precede it.",
     ["inputs"], "all pairs and triples of references",
     "Tests compare a few dozen pairs; the laws quantify over all pairs and triples, including ranges and mixed point kinds.",
     ["src/reference/mod.rs", "src/reference/parts.rs", "src/identifier/range.rs"],
     [("Reference::contains, is_parent_of, Ord, is_act_only and kin", "src/reference/mod.rs")],
     "Every ordered pair of a finite universe, laws on the model, random kin pairs beyond it.", TLA)
prop("C05", "Reference notations round-trip and nothing else is accepted",
     "The compact notation of any reference, read back, gives the same reference, directly and through JSON and YAML. A string that is not the notation of a "
     "well-formed reference is rejected with an error, never accepted as something else and never a panic. Two different references never share a notation.",
     ["inputs"], "all references and all strings",
     "Tests read back a few references; the claim is over all of them and over all other strings.",
     ["src/reference/string.rs", "src/reference/unchecked.rs", "src/util/compact_string.rs"],
     [("CompactString for Reference, serde", "src/reference/string.rs")],
     "Random well-formed and damaged notations against the specification's reader.", TLA)
prop("C06", "Cutting and joining lines keeps every character at its place",
     "Cutting a line anywhere and joining the pieces gives back the same text, emphasis and horizontal positions; a cut line starts where its first character stood. "
     "Indents, emphasis, justification, emptiness and comparisons of indents reported for any line derived by cuts and joins follow from its characters alone. No cut position, in or out of range or negative, panics.",
     ["programs", "inputs"], "all lines and all programs of cuts and joins",
     "Tests cut two fixed lines; multi-byte characters, negative positions and repeated cuts are unbounded.",
     ["src/util/indentedline.rs"],
     [("IndentedLine::slice, slice_bytes, from_multiple, indent_at, indent_less_or_eq, as_bold", "src/util/indentedline.rs")],
     "All programs up to a bound over four lines, random programs over random lines; positions are multiples of 1/4 so floating point is exact.", TLA)
prop("C07", "Joining lines into text follows the hyphenation rule everywhere",
     "Appending the lines of a passage to a text puts exactly one space between words of consecutive lines, except that a word split by a hyphen at a line end is "
     "glued back together. A hyphen that belongs to a hanging compound (followed by 'és' or 'vagy') or stands alone is kept. No other character is added, dropped or reordered.",
     ["inputs"], "all sequences of lines", "Tests try five pairs of strings; the rule is about every boundary of every passage.",
     ["src/util/indentedline.rs"], [("IndentedLine::append_to", "src/util/indentedline.rs")],
     "Random line sequences rich in hyphens and connecting words against the specification.", TLA)
prop("C08", "Structure parsing conserves the text of the act",
     "Every act body that is accepted comes out with all of its text, in order, each word exactly once and in exactly one element; nothing is invented. This covers the preamble, "
     "titles of structural units, article titles, paragraph texts, points, quoted blocks and wrap-ups, whatever the indentation, damage or nesting of the input. "
     "A body that is not accepted is refused with an error.",
     ["inputs"], "all act bodies (sequences of lines with indents and emphasis)",
     "The data tests compare a dozen acts to stored results; conservation is a claim about every act that will ever be published.",
     ["src/parser/structure/*.rs", "src/util/indentedline.rs"],
     [("parse_act_structure", "src/parser/structure/act.rs"), ("SAEParser::extract_multiple", "src/parser/structure/sae.rs"), ("article, subtitle, structural element and quoted block parsers", "src/parser/structure/")],
     "The specification is the full parsing function; conservation is checked by TLC on every explored body, and the real tree must equal the specified one.", TLA)
prop("C09", "Sibling elements of a parsed act are consecutively numbered",
     "In every accepted act, articles follow each other consecutively, and the paragraphs, points and subpoints of one parent start with the first identifier of their kind, each being the legal successor of "
     "the previous one. A parent has no children or at least two of one kind, alphabetic subpoints carry the letter of their point, and a line that merely looks like a header but does not fit the numbering stays text. "
     "An element is divided into children wherever a complete, consecutive numbering is there to divide it.",
     ["inputs"], "all act bodies", "Stored examples show well-behaved numberings; the claim is about every look-alike, gap and nesting.",
     ["src/parser/structure/sae.rs", "src/parser/structure/article.rs", "src/parser/structure/act.rs"],
     [("SAEParser (identifier checks, indentation checks, children count)", "src/parser/structure/sae.rs"), ("ArticleParserFactory", "src/parser/structure/article.rs")],
     "All bodies up to a length over four vocabularies, random bodies beyond; the numbering law is checked by TLC on each.", TLA)
prop("C10", "Quoted text never shapes the structure; unbalanced quotes are refused",
     "Text inside quotation marks never starts an article, paragraph, point, subtitle or structural unit of the act that quotes it, whatever it looks like, also with quotes nested or opened and closed within a line. "
     "A body or element whose quotation marks do not balance is refused with an error. Whether a line begins or ends inside a quote is reported exactly.",
     ["inputs"], "all act bodies with all placements of quotation marks", "Stored examples have a few quoted blocks; look-alike headers at every place in a quote are not covered.",
     ["src/util/mod.rs", "src/parser/structure/act.rs", "src/parser/structure/sae.rs", "src/parser/structure/quote.rs"],
     [("QuoteCheck", "src/util/mod.rs"), ("parse_complex_body, SAEParser", "src/parser/structure/")],
     "All bodies up to a length over two quoting vocabularies; opacity (masking quoted text leaves the skeleton unchanged) is a law checked by TLC.", TLA)
prop("C11", "A well-drafted act is read back exactly as it was drafted",
     "Laying out any well-formed act (books, parts, titles, chapters, subtitles, articles with titles, paragraphs, points, subpoints, quoted blocks, intros and wrap-ups) into lines in the usual "
     "way and parsing them gives back that very act: the same elements, identifiers, titles and texts. It is accepted whatever the indent widths and line breaks. Nothing depends on the act's size or on which optional parts are present.",
     ["inputs"], "all well-formed acts and all their layouts", "The stored acts are a dozen points of this space.",
     ["src/parser/structure/*.rs"], [("parse_act_structure", "src/parser/structure/act.rs")],
     "Random act trees drafted by the specification (spec/Draft.tla); round trip through the specified parser is checked by TLC, through the real parser by replay. Excludes layouts the parser documentedly misreads (DESIGN.md).", TLA)
prop("C12", "Quoted blocks are extracted whole, with their introductions and closings",
     "A paragraph that ends its introduction with a quotation on its own lines is read as its intro, its quoted blocks and its wrap-up, every quoted line kept with its text, position and emphasis, only the outer quotation marks removed. "
     "Bracketed introductions and closings are attached to the block they belong to. Several consecutive blocks are separated exactly where one closes and the next opens.",
     ["inputs"], "all paragraphs with quoted blocks", "Stored examples show one or two shapes of each.",
     ["src/parser/structure/quote.rs", "src/parser/structure/sae.rs"], [("QuotedBlockParser", "src/parser/structure/quote.rs")],
     "All paragraphs up to a length over a vocabulary of block boundaries, and random quote-rich bodies.", TLA)
prop("C13", "Block amendments become the elements they spell out, or stay untouched",
     "Converting an amending paragraph turns its quoted block into the elements it spells out, of the kind and starting with the identifier that the amendment names, keeping all of the block's text, introduction and closing. "
     "If the block does not fit the place named, the conversion is refused with an error and the paragraph is left exactly as it was. Quoted text nested in the block never splits its elements, and no block, even an empty one, causes a panic.",
     ["inputs"], "all amended positions and all quoted blocks", "Conversion tests need the semantic parser, which does not even build here; they hold a few examples.",
     ["src/parser/structure/block_amendment.rs", "src/parser/structure/sae.rs", "src/parser/structure/article.rs"],
     [("convert_block_amendments", "src/parser/structure/block_amendment.rs")],
     "Random positions of every kind with fitting and misfitting quoted lines; laws on the specification, full comparison on the code.", TLA)
prop("C24", "Structure parsing is total: any lines give an act or an error",
     "Parsing any sequence of lines ends with an act or an error; it never panics, hangs or overflows. This includes empty bodies, lone punctuation, extreme numbers, unusual Unicode and unbalanced brackets. "
     "Which of the two it is, and the act, depends only on the lines.",
     ["inputs"], "all sequences of lines", "Tests only feed well-drafted acts.",
     ["src/parser/structure/*.rs", "src/util/indentedline.rs"], [("parse_act_structure", "src/parser/structure/act.rs")],
     "Random bodies of lines nobody would draft; a panic is a disagreement with the specification, which is total.", TLA)

prop("C14", "An issue yields exactly its acts: number, subject, date and body",
     "Reading the pages of an issue of Magyar Közlöny returns the acts printed in its section of acts, in order, each with its own year and number, its subject, the date on the cover and its body: "
     "every line between the subject and the signatures once, in order, without the adoption footnote and without doubled empty lines. Nothing from the cover, the contents or other sections gets into an act, "
     "an act's lines never end up in another act, and a header or date that is not written properly is never taken for a different one. An issue without a proper cover is an error.",
     ["inputs"], "all sequences of pages of lines", "The repository has one test with one real issue, and that needs a downloaded PDF; the reader is a state machine whose states outlive pages and sections.",
     ["src/parser/mk_act_section.rs", "src/util/hun_str.rs"], [("parse_mk_pages_into_acts / ActExtractor::feed_line", "src/parser/mk_act_section.rs"), ("NaiveDate::from_hungarian", "src/util/hun_str.rs")],
     "All continuations up to a length of four beginnings of an issue, issues set from known acts, and random pages. Issues with two acts whose footnotes share a page are outside the drafted class (the source says so), inside the random one.", TLA)

prop("C19", "Characters on a page become the lines a reader sees",
     "Gathering the characters of a PDF page into lines loses, duplicates and moves none: each character inside the crop box, and none outside it, is on exactly one line, at its own position and with its own boldness; lines run top to bottom "
     "and the characters of a line left to right whatever the order they were drawn in. Characters are on one line when they are less than half a point below the topmost; a gap of more than half a space (or an opening quote) makes exactly one space, a distance of "
     "more than 16 points exactly one empty line, and a line is justified when less than 0.8 space is missing to the rightmost end on the page. Lines neither begin nor end with a space; a page with nothing on it is one empty line.",
     ["inputs"], "all sets of positioned characters on a page", "The tests have four small PDF files; positions, order and distances are unbounded.",
     ["src/parser/pdf/page_of_lines.rs", "src/parser/pdf/collector.rs", "src/parser/pdf/mod.rs"], [("PageOfLines::try_from, consolidate_line", "src/parser/pdf/page_of_lines.rs"), ("CharCollector::render_character, CropBox::is_inside", "src/parser/pdf/collector.rs")],
     "All placements of up to three (four) characters on grids around the deciding distances; random pages of words. Characters at exactly the same place of a line have no determined order and are left out. Positions are multiples of 1/8 point, so that f32 is exact.", TLA)
prop("C20", "Rendering a PDF page gives the text and positions its operators draw",
     "The text of a page is what its operators draw: every shown code becomes the text its font gives it (ToUnicode over differences over base encoding; ligatures as several characters sharing the width evenly; replaced by the ActualText of the marked content it is in), "
     "with the Latin-1 substitutes of the Hungarian long vowels put right, at the place the text state gives: matrices, font size, scale, rise, leading, character and word spacing, adjustments. Saving, restoring and forms leave the state, font and boldness of what surrounds them as it was; "
     "the same font name on another page or in a form means that page's or form's font. A code without a meaning, an unknown font, graphics state or form, drawing without a font, a page without contents and unbalanced restores or marks are errors, never silently missing text.",
     ["inputs"], "all programs of text operators over all fonts, graphics states, forms and pages", "The tests render four small files made by one producer; sequences of operators and combinations of font tables are unbounded.",
     ["src/parser/pdf/page.rs", "src/parser/pdf/textstate.rs", "src/parser/pdf/font.rs", "src/parser/pdf/collector.rs", "src/parser/pdf/actual_text.rs", "src/parser/pdf/util.rs"],
     [("PageRenderer::handle_op", "src/parser/pdf/page.rs"), ("TextState", "src/parser/pdf/textstate.rs"), ("FastFont, FontCache", "src/parser/pdf/font.rs"), ("ActualTextCollector", "src/parser/pdf/actual_text.rs")],
     "All programs of three (four) operators over three vocabularies, random programs of up to 22 operators, on PDF files written by the harness. Outside: the current transformation matrix (ignored by the code, marked TODO), compressed or encrypted files, other encodings.", TLA)

prop("C15", "A correction changes exactly the line it names, and keeps the rest in place",
     "Applying stored corrections (fixups) to the lines of an act replaces, for each in order, the single line whose text and preceding lines are the ones recorded, by the new text, and touches nothing else. It is an error, never a guess, "
     "if that place is missing or not unique, or if the correction would change nothing. The beginning and end the old and new text share keep their positions and boldness, what is put between runs forwards between them, the text is bold throughout if the correction says so. "
     "Corrections written to disk and loaded again are the same, whatever characters they contain.",
     ["inputs"], "all lines, all corrections and all sequences of corrections", "The tests apply a dozen corrections to one line of five characters.",
     ["src/fixups.rs", "src/util/singleton_yaml.rs", "src/util/indentedline.rs"], [("Fixup::apply, Fixup::apply_to_line", "src/fixups.rs"), ("Fixups::save, Fixups::load_from", "src/fixups.rs")],
     "All pairs of old and new texts up to a length over a two letter alphabet; random lists of corrections on random lines. Positions that the specification's unit cannot express exactly are not compared.", TLA)
prop("C16", "Editing corrections: later runs read what the user last left in the editor",
     "In the fixup editor the user sees the lines of the act with all recorded corrections applied, with their quote levels, opened at the first line of unbalanced quotes. What they leave there is recorded, added to what was recorded before, for that act only: "
     "every later run applies all of it without error and reads exactly the lines as left, including lines made empty, doubled and repeated lines and lines made bold. If the edit cannot be expressed as corrections (lines added or removed, the line is not unique), "
     "nothing is recorded and nothing is lost. No content of the edited file makes the program panic.",
     ["inputs", "histories"], "all acts and all histories of editing sessions and reads", "There is no test of the editor at all; what one session records is only judged by later sessions.",
     ["src/bin/hun_law/fixup_editor.rs", "src/bin/hun_law/main.rs", "src/fixups.rs"], [("run_fixup_editor", "src/bin/hun_law/fixup_editor.rs"), ("process_one_act", "src/bin/hun_law/main.rs")],
     "All histories up to a bound over a few edits, and random ones, with the repository's command line tool, a cached synthetic issue and a scripted editor in a scratch directory.", TLA)

prop("C17", "Crashes, failed writes and parallel runs never damage what is stored",
     "Recorded corrections and cached issues survive a run that is ended, or whose write fails, at any point, and runs going on at the same time: what is found afterwards is complete and is what was there before or what was being stored, for the one act or issue concerned, "
     "the others being untouched. A truncated or mixed file is never found, by later or simultaneous runs. An operation that reports success has stored what it was given, and one that follows a crashed one works as if nothing had happened.",
     ["crash_points", "fault_sequences", "schedules", "histories"], "all histories of saves and downloads, all points at which a process can end, a write can fail or another process can run", "The tests never interrupt anything.",
     ["src/fixups.rs", "src/mk_downloader.rs"], [("Fixups::save, Fixups::load_from", "src/fixups.rs"), ("download_mk_issue", "src/mk_downloader.rs")],
     "A model of the file system shows which way of writing is safe (and that two others are not); child processes run the real code with every file system change disturbed in turn by a preloaded library. Power loss with reordered disk writes is outside.", TLA)
prop("C18", "An issue is fetched at most once, from its own address, and never half",
     "Asking for an issue gives the complete document the publisher sends for that year and number (two digits of the year, at least three of the number in the address), or an error. Once it was received it is answered from the cache: the same bytes, with no further request. "
     "After an error answer, a refused or broken connection or a document cut short nothing is cached, so that a later attempt can succeed. Issues do not affect each other.",
     ["inputs", "histories"], "all histories of requests and all behaviours of the publisher", "There is no test of the downloader; it needs the network.",
     ["src/mk_downloader.rs"], [("download_mk_issue, MkIssue::url, MkIssue::cache_key", "src/mk_downloader.rs")],
     "All short histories and random longer ones against a loopback server. Answers without a length that end early cannot be told from complete ones and are outside.", TLA)

prop("C21", "Walking an act visits every element once, in order, at its right place",
     "Walking the elements of an act (read-only or mutable) enters and leaves every paragraph, point and subpoint of every article exactly once, in the order of the text and properly nested, each with the absolute reference of its place (act, article, paragraph unless it has no identifier, "
     "point, subpoint); the contents of quoted blocks and block amendments are not visited. An error of the visitor ends the walk at once. What a mutable visitor changes is what is visited from then on and what remains, and nothing else changes. "
     "Looking up an article by its identifier gives the first one that has it, wherever it is, or nothing; an element counts as empty exactly when its text, or all it consists of, is empty.",
     ["inputs", "programs"], "all acts and all behaviours of visitors", "The tests walk one act with one visitor of each kind.",
     ["src/util/walker.rs", "src/reference/to_element.rs", "src/structure.rs"], [("walk_saes, walk_saes_mut", "src/util/walker.rs"), ("Act::article, SubArticleElement::is_empty", "src/structure.rs")],
     "The walk as a transition system (a stack of what is to be entered or left, a visitor that goes on, replaces or breaks off at any event), explored completely on three trees; all acts of a few growth steps; random annotated acts.", TLA)
prop("C22", "Acts written as JSON or YAML read back identically, in a stable form",
     "Writing any act as JSON or YAML and reading it back gives an equal act, whatever texts (also ones that look like numbers, booleans or YAML syntax), identifiers, quoted lines, references, phrases and change records it contains. Both formats hold the same value, "
     "whose form is fixed: names and tags of the fields, ranges as start and end, byte offsets of references, absent or default values left out and nothing else left out. The same holds for the raw lines of acts and pages.",
     ["inputs"], "all acts with all annotations", "The tests compare a handful of files; the number of combinations of optional parts is unbounded.",
     ["src/structure.rs", "src/semantic_info.rs", "src/reference/*.rs", "src/identifier/*.rs", "src/util/singleton_yaml.rs", "src/util/indentedline.rs", "src/output/mod.rs"],
     [("Serialize, Deserialize of Act", "src/structure.rs"), ("singleton_yaml", "src/util/singleton_yaml.rs"), ("CliOutput::cli_output", "src/output/mod.rs")],
     "All acts of a few growth steps over a vocabulary with every kind of element and annotation; random annotated acts. Characters outside the BMP are not generated.", TLA)
prop("C23", "The text form shows everything an act contains, in place and within width",
     "The plain text of an act shows its identifier and subject, preamble, headings, titles, identifiers and texts completely and in order; only spaces at line breaks disappear. Article and paragraph identifiers stand in columns of ten and five, each level is indented by five, "
     "texts are wrapped to the width at spaces and inner hyphens, longer words are broken, quoted lines are kept as they are with their relative indentation, amendments stand between quotation marks on their own lines with bracketed intro and wrap-up, and a blank line separates headings and subtitles, not consecutive articles. "
     "The coloured form differs only by escape sequences, which mark identifiers, headings, references and special phrases. Any width works. Pages and raw acts show every line with its indentation, in the testing format with marks for bold and not justified lines.",
     ["inputs", "configurations"], "all acts, widths and formats", "The tests compare the text of one or two acts at one width.",
     ["src/output/text.rs", "src/output/mod.rs", "src/structure.rs"], [("TextOutput, TextOutputParams", "src/output/text.rs"), ("CliOutput, quick_display_indented_line", "src/output/mod.rs"), ("header_string", "src/structure.rs")],
     "All short texts over two alphabets at several widths, all acts of a few growth steps, random annotated acts at widths 0 to 200. The wrapping of the textwrap library is part of the specification.", TLA)

prop("C25", "A run writes exactly what it was asked for, and reports success only then",
     "A run of the command line tool for acts (found through the list of acts, first entry) or for issues writes, for every act asked for (or every act of every issue asked for, or the issue itself), the result of the requested parsing step in the requested format and width, made from the published lines with the recorded corrections applied, "
     "under the act's or issue's name in the output directory, or to the standard output under a header naming it, in order of issue and then of appearance; nothing else is written. A failing act or issue does not keep the others from being processed. The exit status is success exactly when everything asked for was found, read and written; "
     "an id that cannot be understood, or is not in the list, refuses the whole run before anything is written. In interactive runs each failing act is offered for correction until it succeeds, the user declines or there are no more answers; corrections made are kept for later runs.",
     ["inputs", "histories", "configurations"], "all worlds of issues, acts, lists and recorded corrections, all options and all sequences of runs and answers", "There is no test of the command line tool.",
     ["src/bin/hun_law/main.rs", "src/bin/hun_law/fixup_editor.rs", "src/mk_downloader.rs"], [("main, get_issues, get_output, process_single_act, process_single_act_interactive, confirm", "src/bin/hun_law/main.rs")],
     "All histories of two runs over a vocabulary of nineteen runs of a small world (three runs over six), random histories over random worlds. The semantic step is a stand-in (its grammar cannot be built here) that recognises one kind of amendment and refuses one text. --force-fixup-editor is left out: it writes an act again after each session.", TLA)
prop("C26", "Citations in texts are marked where they stand, with what they cite",
     "Adding semantic information to an act marks every citation of an act (by number, or by an abbreviation introduced in the act) and every reference to parts of an act, single, listed or in ranges, with its exact byte range in the element in which it ends and with what it stands for: parts not repeated are taken from the references before it in the same citation, "
     "and a point is read after the introductions above it and before the closing texts after it. A citation that makes no sense is left out as a whole; matter in quotes cites nothing. Abbreviations are known from the place that introduces them on, in later elements, later readings and readings of a single article; where several fit, the longest is meant; a later introduction replaces an earlier one, "
     "and whether anything was learned is reported. The texts themselves stay as they are.",
     ["inputs", "histories"], "all texts of acts and all sequences of readings of the whole act or one of its articles", "The wordings and their distribution over elements are unbounded; the tests hold a list of sentences.",
     ["src/parser/semantic_info/mod.rs", "src/parser/semantic_info/sae.rs", "src/parser/semantic_info/reference.rs", "src/parser/semantic_info/abbreviation.rs", "hun_law_grammar"],
     [("Act::add_semantic_info, add_semantic_info_to_article", "src/parser/semantic_info/mod.rs"), ("SemanticInfoAdder", "src/parser/semantic_info/sae.rs"), ("OutgoingReferenceBuilder", "src/parser/semantic_info/reference.rs")],
     "Texts are sequences of words, quotes, mentions, references and separators of Cite.tla: all short ones over four vocabularies in three layouts, and random acts. The grammar is compiled by bin/peg.py, a stand-in for the parser generator that is not available here; with it the repository's own semantic tests all pass. "
     "Left open: an abbreviation used before it is introduced in the same passage.", TLA)

prop("C27", "Operative sentences are read as what they order",
     "A sentence that replaces or inserts parts of an act, replaces chapters, subtitles or other structural elements, replaces texts, repeals an act, parts of it or texts in it, or puts this act or parts of it into force, is recorded on the element in which it ends as exactly that: the act it is about, every part it names (the span of all of them for block amendments, each member of a list otherwise, with the "
     "chapter or part given around it), whether it only inserts, every pair of an old and a new text for every place named, and the date (with the date of its own end, if given) in the form in which it was written. A point completes the introductions above it and is completed by the closing texts after it. "
     "A sentence with any other wording only cites, and one with an operative wording whose parts make no sense (a date that does not exist, a number that is none) is refused, not misread.",
     ["inputs"], "all wordings of operative sentences, and their distributions over introductions, points and closing texts", "Wordings, lists and layouts combine without bound; the tests hold a list of sentences.",
     ["src/parser/semantic_info/block_amendment.rs", "src/parser/semantic_info/text_amendment.rs", "src/parser/semantic_info/repeal.rs", "src/parser/semantic_info/enforcement_date.rs", "src/parser/semantic_info/structural_reference.rs", "src/parser/semantic_info/sae.rs", "hun_law_grammar"],
     [("convert_block_amendment, convert_structural_block_amendment, convert_subtitle_block_amendment", "src/parser/semantic_info/block_amendment.rs"), ("convert_text_amendment", "src/parser/semantic_info/text_amendment.rs"),
      ("convert_repeal", "src/parser/semantic_info/repeal.rs"), ("convert_enforcement_date", "src/parser/semantic_info/enforcement_date.rs"), ("SemanticInfoAdder", "src/parser/semantic_info/sae.rs"), ("Root", "hun_law_grammar/grammar.ebnf")],
     "All sentences of 3 (4) atoms between four beginnings and six ends, in two layouts; random operative sentences in one text or spread over a passage. Sentences are sequences of atoms of Phrase.tla: the wordings the grammar lists and near misses of them. The grammar is compiled by bin/peg.py, a stand-in for the parser generator that is not available here. "
     "Left open: an act introduced with an abbreviation and directly followed by words on its entry into force.", TLA)

NOT_APPLICABLE = []

def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": p["hook"]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a},
                               ensure_ascii=False) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']}", "thorough_cmd": f"python3 bin/check.py {p['id']} thorough",
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["id"] not in na],
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks: every check observes the public API of a copy of /repo laid out under .build/ (see bin/layout.py)."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]

main()
