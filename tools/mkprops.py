#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed=None)))

prop("P01", "Object lookup follows the newest cross-reference entry over all revisions",
 """For every PDF built from any history of incremental updates (cross-reference tables or streams in any order and layout,
 objects defined, redefined, packed into object streams, freed and reused), opening the file or looking an object up by number
 returns exactly the version the newest revision mentioning it defines, and an error when that revision freed it; the trailer's
 Root and Info are the newest revision's. A file cut after an earlier revision shows exactly that earlier state, and the number of
 revisions reported is the number written.""",
 ["histories", "inputs"], "all sequences of revisions, each of which defines / packs / frees / leaves any object, in either cross-reference form and any legal byte layout",
 "Tests hold a few hand-made files, nearly all with one revision; the guarantee is over update histories and layouts.",
 ["core/parse/incremental.go", "core/parse/xref.go", "core/parse/xref_stream.go", "core/parse/object_stream.go", "core/parse/get_object.go", "core/parse/api.go", "core/parse/scan.go"],
 [("newest-first merge of the /Prev chain", "core/parse/incremental.go"), ("packed-object lookup", "core/parse/object_stream.go"), ("object extent scanning", "core/parse/scan.go")],
 ["parse.OpenWithOptions / PDF.GetObject / Objects / HasObject / RevisionCount / Trailer", "parse.GetObject"],
 [("xref", "object number -> newest entry", "parse.PDF"), ("revisions", "sections of the /Prev chain", "parse.PDF")])

prop("P02", "A writer session is read back exactly",
 """Whatever sequence of objects and streams is added to or replaced in a PDF writer, with or without cross-reference streams,
 object streams and compression, the bytes it produces are a well-formed PDF in which an independent strict reader and the library's own
 reader find exactly the objects of the session, with the content last given, under the numbers the writer returned, and the chosen
 root, info and version. Producing the bytes does not change the session: producing them again, or after further additions, gives the same objects.""",
 ["histories", "configurations", "inputs"], "all sequences of writer calls over all writer modes, object shapes and stream data",
 "Tests write a handful of small documents and search the output for substrings.",
 ["core/write/writer.go", "core/write/object_stream.go", "core/write/xref_stream.go"],
 [("serialisation and cross-reference emission", "core/write/writer.go"), ("object stream packing", "core/write/object_stream.go"), ("cross-reference stream", "core/write/xref_stream.go")],
 ["write.PDFWriter.Bytes / Write", "parse.Open on the result", "strict reader"])

prop("P03", "Byte-perfect parsing reconstructs the file and its objects exactly",
 """For every well-formed PDF with any history of incremental updates, parsing it into a document keeps every byte: writing the document
 out reproduces the input exactly, and a revision extracted is the file as it was then. Every object a revision defines is found in that revision
 with its number, generation and exactly its bytes (and where its dictionary and data lie in them), and each revision's cross-reference entries
 and trailer (size, root, info, previous section, file identifier) say what was written.""",
 ["histories", "inputs"], "all update histories in both cross-reference forms and all legal byte layouts",
 "The round-trip tests use one-revision fixtures and compare lengths or prefixes.",
 ["core/parse/document.go", "core/parse/document_parser.go", "core/parse/api.go"],
 [("document parser", "core/parse/document_parser.go")], ["parse.ParseDocument / Bytes / revisions / raw objects"])

prop("P04", "Exactly the right passwords open an encrypted document",
 """For every document encrypted by the standard security handler with RC4 40-128 bit, AES-128 or AES-256, for any user and owner password,
 opening it succeeds with the user password and with the owner password, with no password when the user password is empty, and fails with an
 error that classifies as a wrong password for every other password.""",
 ["inputs", "configurations"], "all password pairs, candidate passwords, security-handler revisions, key lengths and string notations of the encryption dictionary",
 "Tests use one or two passwords per algorithm, most through documents the library itself wrote.",
 ["core/encrypt/key_derivation.go", "core/encrypt/parser.go", "core/encrypt/decrypt.go", "core/parse/api.go", "types/errors.go"],
 [("key derivation and validator comparison", "core/encrypt/key_derivation.go"), ("encryption dictionary parsing", "core/encrypt/parser.go")],
 ["parse.OpenWithOptions", "encrypt.DecryptPDF", "errors"])

prop("P05", "Encrypted contents are recovered exactly",
 """Every string and stream of a document encrypted with RC4, AES-128 or AES-256 is returned, after opening with either password, with exactly its original
 bytes, whatever its length, object number, generation, and whether it lies directly in the file, inside an object stream or in a later revision.
 A document the library's writer encrypts is decrypted to the same contents by its own reader and by an independent one.""",
 ["inputs", "configurations", "histories"], "all object contents, numbers, generations and placements for every supported algorithm",
 "Tests decrypt one fixture and compare substrings.",
 ["core/encrypt/decrypt.go", "core/write/encryption.go", "core/write/encryption_v5.go", "core/parse/get_object.go"],
 [("per-object keys and ciphers", "core/encrypt/decrypt.go"), ("writer encryption", "core/write/writer.go")], ["parse.PDF.GetObject", "write.PDFWriter.SetEncryption"])

prop("P06", "Page edits act on a document exactly like edits on a list of pages",
 """Every sequence of page rotations, deletions and insertions, on any page tree shape, leaves a valid document whose pages, in order, with their contents,
 resources, boxes and rotation (inherited or not), are those the same edits give on a plain list of pages. Page counts stay consistent at every tree node, everything else in
 the document is unchanged, and an edit that names a page that does not exist, or would delete the last page, fails without changing anything.""",
 ["histories", "inputs"], "all edit sequences over all page tree shapes",
 "Tests apply one edit to a flat three page document and look at page count.",
 ["core/manipulate/manipulate.go", "core/manipulate/rotation.go", "core/manipulate/deletion.go", "core/manipulate/insertion.go"],
 [("page tree edits and rebuild", "core/manipulate")], ["manipulate.PDFManipulator.*", "Rebuild", "strict reader page walk"])

prop("P07", "Extracting, splitting and merging keep pages whole and in order",
 """For all documents and all selections of pages, extraction, splitting and merging produce valid documents whose pages are exactly the selected source pages, in the requested
 order, each with the contents, resources, boxes and rotation (inherited or not) it had in its source. Every reference in a result resolves inside it, and pages of different sources never share or mix objects that differ.""",
 ["inputs", "histories"], "all document sets, page selections and page tree shapes with shared and colliding object numbers",
 "Tests extract or merge generated one-page documents and count pages.",
 ["core/manipulate/extraction.go", "core/manipulate/splitting.go", "core/manipulate/merging.go"],
 [("dependency copying and renumbering", "core/manipulate")], ["manipulate.ExtractPages / SplitPDF* / MergePDFs", "strict reader"])

prop("P08", "Content extraction follows the content-stream state machine",
 """For every content stream, however its operators are laid out, split over streams, filtered or put into form XObjects, the extracted text elements are exactly the strings shown, in order and decoded with their font,
 with the font name, size, spacing, rise and line matrix the text state gives at that point and the start of their line in page coordinates as their position.
 Rectangles, lines and images come out in order too, with the line width, colours, transformed box or placement matrix the graphics state (with its save and restore stack, of which no stream or form takes or leaves more than it put) gives.""",
 ["programs", "inputs"], "all well-formed operator sequences and layouts",
 "Tests feed one-line-per-operator streams with a single text object.",
 ["content/extract/content_stream.go", "content/extract/encoding.go", "content/extract/pages.go", "content/extract/resources.go"],
 [("content stream interpreter", "content/extract/content_stream.go")], ["extract.ExtractContent"])

prop("P09", "Bookmark trees survive writing and reading",
 """Every bookmark tree written into a document (any titles, nesting, page, named and URI targets, open or closed) is valid outline structure for an independent reader
 and is extracted again with the same titles, nesting, order and targets; the rest of the document, including the catalog's other entries, is unchanged. Extraction terminates on cyclic outlines.""",
 ["inputs", "histories"], "all ordered trees and title strings",
 "Tests write two bookmarks with ASCII titles and grep the output.",
 ["core/write/bookmarks.go", "content/extract/bookmarks.go"],
 [("outline linking", "core/write/bookmarks.go"), ("outline walking", "content/extract/bookmarks.go")], ["write.SimplePDFBuilder / PDFWriter bookmarks", "extract.ExtractBookmarks"])

prop("P10", "Document metadata survives writing and reading",
 """Any metadata set on a document (all standard fields, dates with any offset, custom entries, any text including parentheses, backslashes and non-ASCII) is stored as valid PDF for an independent reader and extracted
 again unchanged, whatever else the document contains. The page count, version and encryption status reported are the document's.""",
 ["inputs"], "all field subsets, strings, dates and documents",
 "Tests set ASCII titles and grep the output.",
 ["core/write/metadata.go", "content/extract/metadata.go"],
 [("info dictionary writer", "core/write/metadata.go"), ("info dictionary reader", "content/extract/metadata.go")], ["write.PDFWriter.SetMetadata", "extract.ExtractMetadata"])

prop("P11", "Stream filters invert their encodings for all data",
 """For every byte string, decoding what a conforming encoder produced with Flate (with every PNG or TIFF predictor, column and colour layout), ASCIIHex, ASCII85 or RunLength in any legal layout, alone or in any
 chain of filters, gives the original bytes; so does encoding with the library's own encoders and decoding. Malformed data is reported as an error or decoded up to the defect, never a crash.""",
 ["inputs"], "all byte strings and all legal encodings of them",
 "Tests decode a few fixed words.",
 ["core/parse/filters.go", "core/parse/object_stream.go"],
 [("filter decoders", "core/parse/filters.go")], ["parse filter functions", "parse.DecodeStream"])

prop("P12", "Every call ends, on any input, and damage stays where it is",
 """Whatever bytes a document or stream consists of - values missing, of another kind, out of range or referring in rings, chains and fans, streams and files cut, overwritten, repeated or flooded - every call there is on documents ends with an answer or an error,
 without a panic, without running on for ever and without eating all memory.
 Damage to one piece leaves everything that is read without that piece as it was: other pages, bookmarks, fields, packets, metadata; and the same bytes are always read the same way.""",
 ["inputs"], "all bytes; all damage to values, references, streams and files; all shapes of object graphs",
 "Tests use well-formed files and a few broken ones.",
 ["core/parse", "core/syntax", "core/encrypt", "core/manipulate", "core/compare", "content/extract", "forms", "resources/font"],
 [("reading objects", "core/parse/scan.go"), ("following references", "content/extract/pages.go"), ("decoding", "core/parse/filters.go"), ("page tree walk", "core/manipulate/manipulate.go"), ("field walk", "forms/acroform/parser.go")], ["every exported function that takes document bytes"])

prop("P13", "Comparison reports exactly what differs",
 """For every pair of documents and every comparison option, no difference is reported exactly if both say the same under the options: pages (sizes, rotations, texts, rectangles, lines, images and annotations with their places and looks, repeats counted), metadata, bookmarks and form values, however the files are laid out, encoded or encrypted.
 Otherwise what is reported as removed, changed or moved is exactly what the first document has more of, and what is reported as added, changed or moved to is what the second has more of; relaxed sensitivity and change thresholds leave out only texts changed in place a little, tolerances, case and white space count as the options say.
 Comparing the other way round gives the mirror image, comparing again the same report, and text and JSON reports mention every kind of difference found.""",
 ["inputs"], "all pairs of documents, edits between them, layouts and options",
 "Tests compare a few pairs of tiny documents made by the same writer.",
 ["core/compare/compare.go", "core/compare/text_diff.go", "core/compare/myers_diff.go", "core/compare/report.go", "content/extract/images.go"],
 [("matching elements", "core/compare/compare.go"), ("text changes", "core/compare/text_diff.go"), ("reports", "core/compare/report.go")], ["compare.ComparePDFs / ComparePDFsWithOptions", "compare.GenerateReport / GenerateJSONReport"])

prop("P14", "Filled form fields read back exactly and nothing else changes",
 """For every AcroForm field tree (text, checkbox, radio, choice; nested names; inherited attributes; direct or packed in object streams) and every sequence of fills, the result is a valid document whose named fields
 carry exactly the filled values, every other field its previous value, button widgets showing the state of their field, and every other object unchanged. Extraction reports the fully qualified names, types, flags, options, defaults, pages and values present in the file;
 a form made with the form builder has the fields in the order added, each with the attributes, actions and appearance given to it last.""",
 ["histories", "inputs"], "all field trees, value strings and fill sequences",
 "Tests fill one field of one fixture and grep the output.",
 ["forms/acroform/parser.go", "forms/acroform/writer.go", "forms/acroform/replace.go", "forms/acroform/fill_streams.go", "forms/forms.go"],
 [("field lookup and replacement", "forms/acroform/parser.go"), ("form building", "forms/acroform/integration.go")], ["forms.Extract / Fill", "strict reader"])

prop("P15", "XFA packets and data survive extraction, filling and rebuilding",
 """For every XFA document, extracting gives exactly the packets stored, and filling it with data yields a valid document in which the fields named have exactly the given values while the rest of the datasets, the other packets,
 all other objects and the encryption stay; rebuilding replaces or adds exactly the packets given.
 Data that is parsed and serialised again keeps its fields, groups and values, across all histories of fills, rebuilds and builds.""",
 ["inputs", "histories"], "all packet sets, data trees, texts, values, layouts and histories of steps",
 "Tests use two fixtures and plain values.",
 ["forms/xfa", "forms/forms.go", "core/parse/xfa.go", "core/write/xfa_builder.go"],
 [("packet extraction and update", "forms/xfa/xfa.go"), ("data", "forms/xfa/xfa_datasets_translator.go"), ("unified form", "forms/forms.go")], ["xfa.ExtractAllXFAStreams", "xfa.UpdateXFAInPDF", "xfa.RebuildPDFFromXFAStreams", "xfa.BuildPDFFromXFAStreams", "xfa.ParseXFADatasets", "xfa.DatasetsToXFA", "forms.Extract"])

prop("P16", "Errors keep their class and warnings keep their order",
 """However library errors are wrapped, their code is found by the classification helpers and standard error matching, and exactly that code. A warning collector returns exactly the warnings added, in order, with
 their contexts, levels and codes, across all interleavings of additions, queries, filters and clears, by one goroutine or many.""",
 ["histories", "schedules"], "all wrap chains and all interleavings of collector operations",
 "Tests wrap once and use one goroutine.",
 ["types/errors.go", "types/warnings.go"],
 [("error codes", "types/errors.go"), ("collector", "types/warnings.go")], ["types.*"])

prop("P17", "Pages are read with everything that holds for them",
 """For every document, the pages extracted are those of the page tree in order, each with its own boxes and those, the rotation and the resources the nearest node above has where it says nothing itself (also by null or by a reference to nothing), rectangles by their corners and turns within 0 to 270.
 Each page's annotations are told one by one with their kind, place, texts, colour, border and target, and every font, form and image with its name and attributes; images' data is what was encoded.
 What is told of the document as a whole - all annotations, fonts, images, the JSON text and the extracted directory with its files and summary - is what its pages say, each thing once.""",
 ["inputs"], "all page trees, attributes anywhere in them, annotations, resources and image encodings, in all layouts, encrypted or not",
 "Tests extract one page with a box of its own and look at a link.",
 ["content/extract/pages.go", "content/extract/annotations.go", "content/extract/resources.go", "content/extract/images.go", "content/extract/extract.go", "content/extract/directory.go"],
 [("page tree walk and inheritance", "content/extract/pages.go"), ("annotations", "content/extract/annotations.go"), ("image data", "content/extract/images.go"), ("extraction to a directory", "content/extract/directory.go")],
 ["extract.ExtractContent / ExtractPages / ExtractContentToJSON", "extract.ExtractAllImages / ExtractPageImages", "extract.ExtractToDirectory"])

prop("P18", "What is drawn on pages is what documents written hold",
 """For every sequence of page-builder calls - several pages open at once, standard and embedded fonts, images, text, paths, watermarks, finishing in any order, writing any number of times - the document written has the finished pages in order,
 each with exactly the operators given, well nested, whose font, image and graphics-state names stand for what was meant: the font given with its widths and character codes, the image's own samples and transparency, the opacity asked for.
 Extracting the text gives back what was shown, in its font and size; a call that fails draws nothing.""",
 ["histories", "inputs"], "all drawing sessions, fonts, images, texts and numbers",
 "Tests draw one page with one font and grep the content.",
 ["core/write/page.go", "core/write/content.go", "core/write/image.go", "core/write/watermark.go", "resources/font/font.go", "resources/font/pdf.go", "core/syntax/winansi.go"],
 [("page building", "core/write/page.go"), ("embedding fonts", "resources/font/pdf.go"), ("embedding images", "core/write/image.go")], ["write.PageBuilder", "write.ContentStream", "font.Font", "strict reader"])

prop("P19", "Validation reports exactly the offending names",
 """For every form or schema and all data, validating reports an error for exactly the names that do not exist, the given values that break a rule of their field (too long in characters, not an option's stored value, empty where required, out of range, not matching) and the required fields at any depth that are not given.
 Empty values satisfy every field that is not required, lists are judged element by element, an editable combo box takes any text, and what is said of one name does not depend on the others, on the order of calls or on how the document is laid out.""",
 ["inputs", "histories"], "all field trees, flags, options, schemas and data histories",
 "Tests validate five values of one field each.",
 ["forms/acroform/validation.go", "forms/forms.go"],
 [("field and data validation", "forms/acroform/validation.go")], ["acroform.ValidateFormData", "acroform.ValidateFormSchema", "forms.Form.Validate"])

prop("P20", "XFA forms and settings survive being read and written",
 """For every XFA template, config, locale set, connection set and stylesheet, in any spelling of its XML (nesting, order of attributes, comments, character references, CDATA, space around texts), what is read is exactly what the packet tells:
 every field in document order wherever it is nested, with its name, label, kind of answer, default, options and their values, limits, visibility, place and rules; every setting of every section; properties the format does not name as text (or number and truth value in styles) at the thing they belong to.
 Nothing comes up that the packet does not tell. What is written from it is one well-formed packet of that kind, the same every time, that leaves what was given unchanged and reads back as exactly the same form or settings, also when it was made rather than read.""",
 ["inputs"], "all packets and all forms and settings made in the library's types",
 "Tests read one field or section and grep what is written.",
 ["forms/xfa/xfa_form_translator.go", "forms/xfa/xfa_config_translator.go", "forms/xfa/xfa_connection_translator.go", "forms/xfa/xfa_locale_translator.go", "forms/xfa/xfa_stylesheet_translator.go", "types/xfa_data_types.go", "types/form_types.go"],
 [("reading the template", "forms/xfa/xfa_form_translator.go"), ("settings", "forms/xfa/xfa_config_translator.go"), ("properties written in order", "forms/xfa/xfa_utils.go")],
 ["xfa.ParseXFAForm / FormToXFA", "xfa.ParseXFAConfig / ConfigToXFA", "xfa.ParseXFALocaleSet / LocaleSetToXFA", "xfa.ParseXFAConnectionSet / ConnectionSetToXFA", "xfa.ParseXFAStylesheet / StylesheetToXFA"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
