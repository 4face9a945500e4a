import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
p("C01","Encryption is Sketchware's cipher and is lossless",
 "For every byte string, encrypting yields exactly AES-128-CBC with PKCS#7 padding where the 16 ASCII bytes `sketchwaresecure` are both key and IV, and decrypting that returns the original bytes. The file variants read and write exactly the same bytes as the in-memory ones, overwrite only the requested destination (the source itself when no destination is given), and report a missing file as an error. Bytes that are not a valid ciphertext (length not a positive multiple of 16, or bad padding) are rejected with an error, never a panic and never made-up output.",
 ["inputs"],"every byte string of any length, every source/destination choice, every corrupted ciphertext",
 "No existing test touches encryption at all.",
 ["src/lib.rs"],[("encrypt_sw / decrypt_sw_encrypted (block-modes Cbc<Aes128,Pkcs7>)","src/lib.rs"),("encrypt_sw_file, encrypt_sw_file_to_file, decrypt_sw_file","src/lib.rs")],
 ["swrs::encrypt_sw","swrs::decrypt_sw_encrypted","swrs::encrypt_sw_file","swrs::encrypt_sw_file_to_file","swrs::decrypt_sw_file"])
p("C02","An encrypted project loads file for file, or fails",
 "Loading six encrypted data files (project, file, library, resource, view, logic) yields a raw project whose six texts are exactly the decrypted contents, each in its own slot, with the given resource files attached (or none, for the variant without resources). If any one of the six is not a valid ciphertext, or decrypts to bytes that are not UTF-8, loading fails with an error instead of producing a project.",
 ["inputs"],"every six-tuple of texts and every choice of which slots are damaged and how",
 "No existing test loads an encrypted project.",
 ["src/parser/mod.rs","src/lib.rs"],[("RawSketchwareProject::from_encrypted / from_encrypted_wo_res","src/parser/mod.rs")],
 ["RawSketchwareProject fields"])
p("C03","Project metadata survives parsing and writing unchanged",
 "For every project metadata file in Sketchware's format, parsing exposes each value as written (id, names, package, version code and name, icon flag, five colours whether spelled as integers or as floats, Sketchware version, and the `yyyyMMddHHmmss` creation date as its UTC Unix timestamp). Writing emits the same keys with the same values, the date always as 14 zero-padded digits, so that parsing the written text gives an equal value again, for any date in years 0000-9999. JSON key order, whitespace and escape style do not matter. A date that is not fourteen digits or does not exist in the calendar or on the clock (second 60 included), and an id or version code that is not a decimal number from 0 to 65535, is refused.",
 ["inputs"],"every metadata record, every calendar second of years 0000-9999, every 32-bit colour, every JSON spelling, every non-date and non-number in its place",
 "There is no test of the project file; a date with any one-digit component is needed to see the padding.",
 ["src/parser/project.rs","src/parser/serde_util.rs","src/color.rs"],[("Project serde model","src/parser/project.rs"),("date_to_timestamp, string_to_u16","src/parser/serde_util.rs"),("Color serde","src/color.rs")],
 ["Project::parse","Project::reconstruct"])
p("C04","The screen list survives parsing and writing unchanged",
 "For every `file` data file, parsing returns the activities and the custom views each in file order with their name, file type, keyboard setting, four option bits, orientation and theme as written; writing emits the same entries in the same sections and order. Parsing the written text gives an equal value, including when either section is empty.",
 ["inputs"],"every list of activities and custom views (including empty ones), every combination of field values, every string as a name, every JSON spelling",
 "Tests use one list with both sections non-empty and six of the possible option/theme/orientation combinations.",
 ["src/parser/file.rs"],[("File::parse section scanner","src/parser/file.rs"),("File::reconstruct","src/parser/file.rs"),("ActivityOptions bit mask","src/parser/file.rs")],
 ["File::parse","File::reconstruct","FileItem::parse","FileItem::reconstruct","ActivityOptions"])
p("C05","The library file survives parsing and writing unchanged",
 "For every `library` data file, the four sections (firebaseDB, compat, admob, googleMap), in whatever order they appear, are parsed into their own slots with all their fields (ad units, data, type, three reserved strings, test devices, use flag) as written; writing emits each back under its own header, and parsing the written text gives an equal value. A file lacking any of the four sections is rejected with an error naming the missing one.",
 ["inputs"],"every quadruple of library items, every section order, every non-empty set of missing sections",
 "Tests use one library file whose four items are almost identical, with no ad units or test devices.",
 ["src/parser/library.rs"],[("Library::parse / reconstruct","src/parser/library.rs"),("LibraryItem serde model","src/parser/library.rs")],
 ["Library::parse","Library::reconstruct"])
p("C06","The resource list survives parsing and writing unchanged",
 "For every `resource` data file, the image, sound and font entries are parsed into their own lists, in file order, with file name, resource name and type as written; writing emits them back under their own headers. Parsing the written text gives an equal value for any combination of empty and non-empty sections.",
 ["inputs"],"every triple of entry lists (including empty ones), every string as a name, every JSON spelling",
 "Tests use one resource file with all three sections filled.",
 ["src/parser/resource.rs"],[("Resource::parse / reconstruct","src/parser/resource.rs")],
 ["Resource::parse","Resource::reconstruct"])
p("C07","The view file survives parsing and writing unchanged",
 "For every `view` data file (any number of layouts, each with any number of views, and any number of floating action buttons, sections separated by blank lines as Sketchware writes them), parsing yields every layout and every FAB under its screen's name with every attribute of every view as written, in order. Writing emits all of them, and parsing the written text gives an equal value; no layout, view or FAB is lost, merged or renamed.",
 ["inputs"],"every set of layouts and FABs (including several layouts, empty layouts, several FABs), every attribute value, every JSON spelling",
 "Tests use a single layout and a single FAB, so nothing that separates two sections is exercised.",
 ["src/parser/view.rs","src/parser/serde_util.rs","src/color.rs"],[("View::parse section scanner","src/parser/view.rs"),("View::reconstruct, Layout::reconstruct","src/parser/view.rs"),("AndroidView serde model and its enums","src/parser/view.rs"),("bool_to_one_zero, bool_to_str","src/parser/serde_util.rs")],
 ["View::parse","View::reconstruct","Layout::parse","Layout::reconstruct","AndroidView::parse","AndroidView::reconstruct"])
p("C08","The logic file survives parsing and writing unchanged",
 "For every `logic` data file whose sections (variables, lists, components, events, more-blocks, block containers; any order, any screens, any of them missing or empty) are separated by one or more blank lines, parsing attributes each section to its screen and yields every entry with all its fields, in order. Writing emits all of it, and parsing the written text gives the same per-screen content again; no section, screen, entry or block is lost, merged or attributed to another screen.",
 ["inputs"],"every set of screens and sections (including screens without block containers and empty pools), every entry value, every section order, every JSON spelling",
 "Tests check one single-screen logic file for text equality; several screens with different subsets of sections are never written.",
 ["src/parser/logic.rs"],[("Logic::parse header dispatch","src/parser/logic.rs"),("Logic::reconstruct stitching","src/parser/logic.rs"),("VariablePool, ListVariablePool, ComponentPool, EventPool, MoreBlockPool, BlockContainer","src/parser/logic.rs")],
 ["Logic::parse","Logic::reconstruct","the pools' and items' parse/reconstruct"])
p("C09","A whole project parses and writes back file for file",
 "Parsing a raw project delegates each of its six texts to the right format, yields exactly what parsing each text separately yields, and keeps the attached resource files (none stays none). Writing a parsed project back yields six texts that parse to an equal project and the same set of resource files; if any of the six texts is malformed, parsing the project fails with an error that names that data file.",
 ["inputs"],"every consistent or inconsistent six-tuple of texts, with and without resource files, and every choice of which text is malformed",
 "No test parses or writes a whole project.",
 ["src/parser/mod.rs"],[("SketchwareProject::parse_from / parse / parse_wo_res","src/parser/mod.rs"),("TryInto<RawSketchwareProject>","src/parser/mod.rs")],
 ["parser::SketchwareProject","RawSketchwareProject"])
p("C10","No input makes parsing or conversion panic",
 "For every text, parsing it as any data file, item, pool, header or block spec returns a value or an error; it never panics, aborts or loops forever. The same holds for converting whatever was parsed into the high-level project, for converting block lists and layouts (including cyclic, dangling or duplicate references, with nesting of up to a few hundred levels), and for writing back anything that was obtained by parsing.",
 ["inputs"],"every Unicode text, with emphasis on near-valid ones: truncated, mutated, reordered, mistyped or non-ASCII variations of valid files, and block graphs with arbitrary pointers",
 "Tests only ever feed well-formed input.",
 ["src/parser/mod.rs","src/parser/logic.rs","src/parser/view.rs","src/parser/serde_util.rs","src/api/block.rs","src/api/mod.rs","src/api/screen.rs","src/api/view.rs"],
 [("Result-returning parse/try_from throughout","src/parser, src/api"),("removal of visited blocks","src/api/block.rs")],
 ["every Parsable::parse / reconstruct","BlockContent::parse, parse_wo_params, apply_args","Blocks::try_from","api::SketchwareProject::try_from"])
p("C11","A block list is read as the program it encodes",
 "Reading a block list yields the program it encodes: starting from the first listed block, statements follow the next pointers, the two nested stacks of a block are the chains starting at its two stack pointers (negative meaning absent), and a parameter `@n` is the block with id n placed in that argument position. Every field of every reachable block (colour, opcode, spec, argument values, return/control type and type name) is kept, whatever ids the blocks carry and in whatever order the non-first ones are listed. A non-numeric id, an unknown block type, a pointer to a block that is not there or a block reached twice is an error.",
 ["inputs"],"every program tree of statements, nested stacks and nested argument blocks, every assignment of ids, every listing order; every single broken reference",
 "The one test converts one list and asserts nothing about the result.",
 ["src/api/block.rs"],[("TryFrom<BlockContainer> for Blocks (parse_block/parse_blocks)","src/api/block.rs"),("BlockType::from, BlockContent::parse, apply_blocks","src/api/block.rs")],
 ["Blocks::try_from(BlockContainer)"])
p("C12","A block program is written as an equivalent, well-formed block list",
 "Converting any block program (statements, nested stacks, argument blocks nested to any depth, literals, empty arguments, list-, view- and component-typed blocks) to a block list yields unique numeric ids, the program's first statement listed first, and next, stack and `@n` references that all resolve, each block being referenced exactly once. Interpreting that list gives back the same program (an empty nested stack being the same as none), and reading it with this library gives an equal program.",
 ["inputs"],"every block program that can be built through the API, of any nesting shape",
 "The one test prints the result of a conversion and asserts nothing; a stack of two blocks or an argument inside an argument is enough to tell a wrong pointer from a right one.",
 ["src/api/block.rs"],[("Blocks::to_block_container (convert_block, process_content)","src/api/block.rs"),("BlockType to_string / get_typename","src/api/block.rs")],
 ["BlockContainer::from(Blocks)"])
p("C13","Block specs and their arguments are parsed and rendered exactly",
 "For every spec made of space-separated words and parameters (`%s`, `%d`, `%b`, each optionally `.name`, and `%m.name`; a lone `%` is an ordinary word), parsing yields the words and typed, named parameters in order and rendering gives back the identical spec text. Supplying parameters fills the unset ones left to right (arguments already set are kept): `@n` becomes a reference to block n, empty number and boolean parameters are empty arguments, other values are the literal of that type, and filling a spec parsed without parameters gives the same result as parsing it with them. Too few parameters, a malformed number, boolean or block reference, or an unknown parameter kind is an error that names the offending value, and resolving references fails naming the first block that is missing.",
 ["inputs"],"every spec of that grammar, every parameter list (matching, short, or ill-typed)",
 "No test looks at a parsed spec or its arguments.",
 ["src/api/block.rs"],[("BlockContent::parse_wo_params / parse / apply_args / apply_blocks / take_args / get_args / to_string","src/api/block.rs")],
 ["BlockContent"])
p("C14","Layout lists and view trees convert into each other without loss",
 "Reading a flat layout in which every view names `root` or an earlier view as parent yields the tree with exactly those parent links, siblings in listing order; a missing parent field or a parent that is not an earlier view of the layout (unknown, listed later, or the view itself) is an error naming the view. Flattening any view tree lists every view exactly once, parents before their children and siblings in order, each with the id and the type code of its actual parent (`root` and 0 at top level). The two directions are inverse, and looking up a view by id finds it at any depth.",
 ["inputs"],"every forest of uniquely named views of any shape and any mix of view types, every parent-before-child listing order, every single broken parent link",
 "No test builds a view tree.",
 ["src/api/view.rs"],[("parse_raw_layout, View::find_id, find_id_mut","src/api/view.rs"),("flatten_views","src/api/view.rs")],
 ["parse_raw_layout","flatten_views","View::find_id","View::find_id_mut"])
p("C15","Typed view attributes and the raw view record agree in both directions",
 "Reading a view exposes, for each of the known view types, exactly the attributes of that type plus the common ones (id, size, padding, margin, weights, gravity, background) with the values in the record, and marks unknown types or images without resource as unrecognised while keeping the raw record. Writing a view puts the exposed attributes, as currently set, and the type code of the currently set view type into the record and leaves every other attribute of the raw record untouched; an unrecognised view keeps its raw type. Reading and writing back unmodified changes nothing but the parent link.",
 ["inputs"],"every view record of every type, every edit of an exposed attribute or replacement of the view type",
 "No test converts a view to its typed form.",
 ["src/api/view.rs","src/parser/view.rs"],[("From<AndroidView> for View, ViewType::from_view","src/api/view.rs"),("ViewType::get_type_id, apply_values_to_view, flatten_views","src/api/view.rs")],
 ["View","ViewType","flatten_views"])
p("C16","Opening a project exposes exactly what its files contain",
 "For every consistent project (the screens, custom views, layouts, logic and resource files referenced by each other exist), opening it through the high-level API exposes its metadata, colours, enabled libraries with their settings, resources, custom views, and for each activity, in order, its flags, layout tree, FAB, variables, lists, components, more-blocks and events, each with the code belonging to it. A screen's logic is found under its Java name (`debug_screen` is `DebugScreenActivity`), its onCreate code, even if empty, appears as an onCreate event, and a screen without layout or logic is empty but still has that Java name.",
 ["inputs"],"every consistent project: any number of screens, events of all kinds, components of all 21 kinds, more-blocks, views, libraries, resources",
 "No test opens a project through the API.",
 ["src/api/mod.rs","src/api/screen.rs","src/api/component.rs"],[("TryFrom<parser::SketchwareProject> for api::SketchwareProject","src/api/mod.rs"),("Screen::from_parsed, Event/EventType","src/api/screen.rs"),("ComponentKind::from_parser_component","src/api/component.rs"),("view_name_to_logic","src/api/mod.rs")],
 ["api::SketchwareProject"])
p("C17","Opening and saving a project unmodified loses nothing",
 "For every consistent project in Sketchware's format, opening it through the high-level API and saving it again writes files with the same content: metadata and icon flag, screen and custom-view entries (drawers stay drawers), libraries, resource entries and files, layouts, FABs, variables, lists, components, events with their targets, more-blocks, and equivalent code in every event and more-block. Block ids, listing order of views and blocks, and the presence of empty sections may change. Reopening the saved files gives an equal project.",
 ["inputs"],"every consistent project, with resource files attached and without",
 "No test opens or saves a project through the API.",
 ["src/api/mod.rs","src/api/screen.rs","src/api/component.rs","src/api/block.rs","src/api/view.rs","src/parser/mod.rs"],[("From<api::SketchwareProject> for parser::SketchwareProject","src/api/mod.rs"),("Event::into_parser_event, get_block_container_id, MoreBlock::into_parser_more_block","src/api/screen.rs"),("ComponentKind::into_parser_component","src/api/component.rs")],
 ["RawSketchwareProject produced from api::SketchwareProject"])
p("C18","Every sequence of edits survives saving and reopening",
 "After any sequence of edits through the high-level API (metadata, colours, libraries, screens and their flags, views, variables, lists, components, more-blocks, events, code, resources, icon; on an opened or a newly created project), saving, encrypting, decrypting and reopening gives a project that shows exactly the edited state: every edit is present, and everything that was not edited is unchanged. This holds again after further edits and saves.",
 ["histories","inputs"],"every history of edits interleaved with save/reopen cycles, starting from any consistent project or from an empty one",
 "No test edits a project.",
 ["src/api/mod.rs","src/api/screen.rs","src/api/block.rs","src/api/view.rs"],[("api -> parser -> raw conversion and back","src/api/mod.rs"),("Resources::put_resource / remove_resource","src/api/mod.rs")],
 ["api::SketchwareProject after save/reopen"])
p("C19","The resource table behaves as a map with unique ids",
 "After any sequence of adding and removing resources, the table contains exactly the resources added and not removed since, in insertion order, each under its id and in the list of its kind, and lookup by id returns the stored file and kind. Adding under an id that is already present in any kind is refused and changes nothing; adding a real path that does not exist is refused and changes nothing; the kind given on adding replaces the one in the file wrapper while its id and file name are kept. Removing returns what was stored; removing an absent id changes nothing.",
 ["histories"],"every sequence of put/remove/get operations over all kinds, ids and wrapper forms",
 "No test uses the resource table.",
 ["src/api/mod.rs"],[("Resources::put_resource, get_resource, remove_resource, get_images/get_sounds/get_fonts","src/api/mod.rs")],
 ["api::Resources"])
p("C20","Resource files are classified by kind and matched to entries by name",
 "A list of resource files is sorted into images, sounds, fonts and custom icon by the declared kind of an id-based wrapper, or, for a real path, by the folder two levels up (images, sounds, fonts, icons), keyed by full file name; a path that does not exist or does not lie in such a folder is an error. Turning the collection back into a list yields the same wrappers, none lost or altered. On opening a project, each resource entry gets the file with its full name from the list of its own kind and a missing file is an error naming the entry; without resource files, each entry (and a custom icon, if the project has one) gets a generated id wrapper with the entry's file name and kind.",
 ["inputs","configurations"],"every list of wrappers of every form and kind with distinct names per kind, every directory layout, every pairing with resource entries",
 "No test attaches resource files.",
 ["src/parser/mod.rs","src/api/mod.rs"],[("TryFrom<Vec<ResourceFileWrapper>> for ResourceFiles and Into back","src/parser/mod.rs"),("resources_conv!","src/api/mod.rs"),("ResourceFileWrapper::get_full_name, make_random_id","src/parser/mod.rs")],
 ["ResourceFiles","api::Resources"])
p("C21","Colours keep all 32 bits in every representation",
 "A colour built from alpha/red/green/blue bytes, from a 32-bit value, or from 6- or 8-digit hex text (6 digits meaning opaque) has exactly those components and displays as `0xAARRGGBB`. Its JSON form is the signed 32-bit integer of its ARGB value; reading that integer, or the same number written as a float, gives back the same colour. Each block category maps to its own colour and back, and colours of no category are reported as unknown.",
 ["inputs"],"every 32-bit colour value, every hex text, every integer and float spelling of a 32-bit signed number",
 "No test covers the colour type.",
 ["src/color.rs","src/api/block.rs"],[("Color","src/color.rs"),("BlockCategory <-> Color","src/api/block.rs")],
 ["Color","BlockCategory"])
p("C22","Inconsistent or unknown content is refused with an error, not dropped",
 "Opening a project fails with an error identifying the culprit when a component, event or block has an unknown type, a library's use flag is neither Y nor N (firebase, admob, google map), a view names a parent that does not exist, a listed custom view has no layout, a resource entry has no matching resource file, or a block or more-block spec is malformed. Parsing fails with an error for any entry line that is not valid JSON of its kind, lacks a required field, or has a variable of unknown type or an enumeration value outside the format. A single such fault anywhere in an otherwise valid project is enough.",
 ["inputs","fault_sequences"],"every valid project and every single fault from that list injected at any place in it",
 "Tests contain no invalid input at all.",
 ["src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/parser/view.rs","src/parser/logic.rs","src/api/mod.rs","src/api/screen.rs","src/api/block.rs","src/api/component.rs","src/api/view.rs"],
 [("error enums of every parser and conversion","src/parser, src/api")],
 ["SketchwareProjectParseError","APISketchwareProjectConversionError"])
p("C23","A malformed entry is reported with its place",
 "When exactly one entry or header of a data file is malformed, the parse error identifies it: the section or screen and container it is in, the line (counted from 0 in file, library, resource and logic, where logic gives the line of the section header and the index of the entry within the section; from 1 for fabs and headers in view; the index within the layout for a view of a layout), the text of the offending line where the error carries it, and for layouts the view before it. A library file that ends after a header or lacks a section names that header.",
 ["inputs","fault_sequences"],"every well-formed data file with any one of its entries or headers damaged in any way, at any position",
 "No test parses malformed input, so no error value is ever looked at.",
 ["src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/parser/view.rs","src/parser/logic.rs","src/util.rs"],
 [("FileParseError, LibraryParseError, ResourceParseError, ViewParseError, LayoutParseError, LogicParseError and the pool errors","src/parser"),("CountingIterator","src/util.rs")],
 ["SketchwareProjectParseError and the per-file errors"])
p("C24","Every coded value is accepted exactly within its code table",
 "Each coded field of a screen entry, view or variable (type, theme, orientation, keyboard, choice and spinner mode, input type, IME option, text type, scale type, 0/1 flags, bounded numbers) accepts exactly the codes of the format and is written with the same code it was read with; any other number, text or JSON kind is refused, never mapped to a neighbouring value. Flags read any non-zero number as set; the options byte and the gravity byte decompose into exactly their documented bits.",
 ["inputs"],"every coded field with every integer (in and out of range, wrap-arounds), text and JSON kind as its value, in any otherwise well-formed record; every byte for options and gravity",
 "Tests contain only a few codes of a few fields and no illegal ones.",
 ["src/parser/file.rs","src/parser/view.rs","src/parser/serde_util.rs","src/parser/logic.rs"],
 [("FileItem, ActivityOptions, KeyboardSetting, Orientation, Theme","src/parser/file.rs"),("AndroidView and models (layout, text, image, gravity)","src/parser/view.rs"),("bool_to_one_zero and the other coders","src/parser/serde_util.rs"),("VariableType","src/parser/logic.rs")],
 ["FileItem","AndroidView","VariableType","Gravity","ActivityOptions"])
p("C25","Saving is canonical and repeatable",
 "Two texts that spell the same content differently (key order, white space, escapes, block ids, listing order of sections and blocks) are read as equal values and are written as the same text, and writing the same value twice gives the same text. Saving what was reopened from a save reproduces it byte for byte (for a logic file read on its own, up to the order of its sections).",
 ["inputs"],"every pair of spellings of every well-formed data file and of every consistent project",
 "Each test writes one value once; none compares two writes or two spellings.",
 ["src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/parser/view.rs","src/parser/logic.rs","src/api/mod.rs","src/api/block.rs","src/api/screen.rs"],
 [("Parsable::reconstruct of every data file","src/parser"),("From<api::SketchwareProject> for parser::SketchwareProject","src/api/mod.rs"),("Blocks into BlockContainer","src/api/block.rs")],
 ["RawSketchwareProject"])
p("C26","Single records convert between file form and API form by their codes",
 "Every component type code from 1 to 21 corresponds to exactly one component kind and back with only that kind's parameter, every event code to its kind with the target it names and to the container its code lives in, every block type code (with its type name) to its block type, every more-block to its id and spec; unknown codes are refused with an error carrying the code. The constructors of blocks, components, views and generated resource wrappers build exactly the record their arguments describe, and conversion never alters attached code.",
 ["inputs"],"every type code, every parameter, id and name, every block content and attached code",
 "No test converts a component, event, more-block or block type between the two forms.",
 ["src/api/component.rs","src/api/screen.rs","src/api/block.rs","src/parser/logic.rs","src/parser/view.rs","src/parser/mod.rs"],
 [("ComponentKind::from_parser_component / into_parser_component","src/api/component.rs"),("Event, EventType, MoreBlock conversions","src/api/screen.rs"),("BlockType, ListItem, Block::new*, BlockCategory","src/api/block.rs"),("Component::new*","src/parser/logic.rs"),("AndroidView::new_empty","src/parser/view.rs"),("ResourceFileWrapper::make_random_id","src/parser/mod.rs")],
 ["ComponentKind","Event","MoreBlock","BlockType","Block"])
p("C27","Sections and entries can be read and written on their own",
 "Reading a section (variables, lists, components, events, more-blocks, blocks, a layout) from a line source consumes its lines and the blank line that ends it and nothing more, and gives the same as reading it from a text of its own; writing it and reading that back changes nothing. Likewise every single entry and header reads from and writes to exactly one line.",
 ["inputs"],"every section of every kind and size, followed by nothing or by any further lines; every single entry",
 "Tests read each kind once from a fixed text and never look at what is left of the input.",
 ["src/parser/logic.rs","src/parser/view.rs","src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs"],
 [("parse_iter of the pools and of Layout","src/parser/logic.rs, src/parser/view.rs"),("Parsable for items, BlockContainer, BlockContainerHeader","src/parser")],
 ["VariablePool","ListVariablePool","ComponentPool","EventPool","MoreBlockPool","BlockContainer","Layout"])
p("C28","What is made from scratch starts with the documented defaults",
 "A view record made from an id, type code, parent id and parent type carries these and in every other field the default documented for it: empty texts, alpha and scales 1, no translation, clickable and enabled, not checked, no choice mode, divider height 0, first day of week 1, drop-down spinner, progress 0 of 100, determinate; vertical layout matching its parent in height and wrapping its content in width, padding 8, no margin, weight or gravity, background 0x00FFFFFF; text black, hint 0xFF607D8B, size 12, `default_font`, normal type, text input, IME option normal, lines 0; centred unrotated image without resource. A view built on such a record and saved holds what was set on it and these defaults elsewhere, and is written to text and read back the same. The default colour palette is Sketchware's, the default colour is opaque black, and default resource files, pools and code are empty.",
 ["inputs"],"every id, type code, parent id and parent type; every typed view and every common attribute set on a new view",
 "Tests never make a view or default settings.",
 ["src/parser/view.rs","src/parser/project.rs","src/color.rs","src/api/view.rs"],
 [("AndroidView::new_empty and the Default impls","src/parser/view.rs"),("ProjectColorPalette::default","src/parser/project.rs"),("flatten_views","src/api/view.rs")],
 ["AndroidView::new_empty","LayoutConfig","TextConfig","ImageConfig","ProjectColorPalette","Color"])
p("C29","Whatever is accepted can be written and read back",
 "Also for text that is not as the editor writes it (damaged, edited by hand, written by another tool): any data file, section, entry or header that is read without an error can be written, the written text is read without an error, as the same value, and is written as the same text again (in a logic file, up to the order of its screens and sections). Likewise any project that opens can be saved, the saved project opens, and saving that again gives the same texts. Not claimed for numbers too big for their field's float type and for names that cannot stand in a header line (white space, control characters, `.java_`).",
 ["inputs"],"every text of every kind of data file, section and entry, and every project, that the library accepts",
 "Tests read a few well-formed texts; none writes what was read from an odd one.",
 ["src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/parser/view.rs","src/parser/logic.rs","src/parser/project.rs","src/api/mod.rs","src/api/block.rs","src/api/view.rs","src/api/screen.rs"],
 [("Parsable::parse / reconstruct of every data file, section and entry","src/parser"),("TryFrom<parser::SketchwareProject> for api::SketchwareProject and back","src/api/mod.rs")],
 ["Parsable","RawSketchwareProject","SketchwareProject"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
