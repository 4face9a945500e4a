import json
T={
"C01":("differential against an independent AES-128-CBC/PKCS#7 written from FIPS-197, round-trip, and corrupted-ciphertext generation; file variants in scratch directories","every length class 0..~5000 bytes incl. block boundaries is drawn; trusts the reference cipher (self-tested against the FIPS-197 vector at start)"),
"C02":("generated six-tuples with injected damage, against slot-by-slot expectation","trusts the reference cipher"),
"C03":("model-based round-trip: generated metadata records in generated JSON spellings against an independent calendar and JSON reader","serde_json is trusted as JSON reader; years 0000-9999"),
"C04":("model-based round-trip over generated files with an independent decoder of the written text","serde_json is trusted as JSON reader"),
"C05":("model-based round-trip over generated files with section permutations and omissions","serde_json is trusted as JSON reader"),
"C06":("model-based round-trip over generated files","serde_json is trusted as JSON reader"),
"C07":("model-based round-trip over generated view files with an independent decoder","serde_json is trusted as JSON reader"),
"C08":("model-based round-trip over generated logic files with an independent decoder","serde_json is trusted as JSON reader"),
"C09":("differential (whole project against part-by-part) and round-trip over generated projects; single malformed text injected","full names of attached files are distinct"),
"C10":("generation and mutation fuzzing (grammar-based, near-valid and arbitrary texts, arbitrary block graphs) with a no-panic/termination oracle in a watched process","panics, aborts, stack overflows and non-termination (60 s CPU, reproduced in a fresh process) count; nesting up to a few hundred levels"),
"C11":("generated program trees encoded by an independent encoder with arbitrary ids and order, compared with the library's reading; single-fault injection","the encoder in harness/src/prog.rs states the format"),
"C12":("generated API programs; the written list is checked by an independent interpreter and read back","the interpreter in harness/src/prog.rs states the format"),
"C13":("grammar-generated specs and parameter lists against a reference spec parser; error injection","specs in the documented token grammar"),
"C14":("generated forests, reference tree builder and flattening validity predicate; broken-link injection","unique view ids"),
"C15":("generated view records against an attribute table per type; metamorphic edits","attribute table in harness/src/tree.rs states which attributes belong to which type"),
"C16":("generated consistent projects against a reference reader of their content","consistent projects only (DESIGN.md lists the domain)"),
"C17":("generated consistent projects, open + save, written files decoded independently and compared with the model","consistent projects only; two known findings"),
"C18":("stateful model-based testing: generated edit/save/reopen histories against a model project","edits through public fields and methods"),
"C19":("stateful model-based testing: generated put/remove/get histories against a reference map","custom icons are never put into the table (documented)"),
"C20":("generated wrapper lists and scratch directory layouts against a reference classifier","distinct full names per kind"),
"C21":("generated colours (random and boundary bit patterns, all categories) against direct bit arithmetic","category colours are the documented constants"),
"C23":("single-fault injection into generated well-formed files; the error's place is compared with the known place of the fault","one fault per file; the line conventions of the statement"),
"C24":("generated codes (every table entry, neighbours, wrap-arounds, other JSON kinds) spliced into generated records, against an explicit code table","the code table in harness/src/p_more.rs states the format"),
"C25":("metamorphic testing: two generated spellings of one generated file or project must be read and written alike; repeated saving","consistent projects and well-formed files"),
"C26":("generated records and codes against reference conversion tables, and constructor postconditions","the type codes in harness/src/p_more.rs state the format"),
"C27":("model-based round-trip of single sections and entries, with generated following lines and a leftover-input oracle","entries of the domains of C04 to C08"),
"C28":("generated records made from scratch and typed views set on them, against a table of defaults, through saving and reading back","the progress style of a new view is not judged: the code and its comment disagree"),
"C29":("mutated well-formed texts and projects; whatever the library accepts must survive writing and reading, and saving must reach a fixed point at once","numbers within their field's float range, names that can stand in a header line"),
"C22":("single-fault injection into generated valid projects; oracle: an error identifying the culprit","the fault list of the statement"),
}
checks=[dict(property=k,quick_cmd=f"./run.sh {k}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {k}",technique="property-based testing: "+t,level="exploration",level_note="Search over generated inputs, no proof: holds on everything generated (counts in evidence). "+n[0].upper()+n[1:]+".") for k,(t,n) in T.items()]
json.dump(dict(version=1,setup_cmd="./run.sh --build",checks=checks,not_applicable=[],notes="No hooks: every check goes through the crate's public API. Replay a saved case with ./run.sh --replay FILE."),open('/verif/MANIFEST.json','w'),indent=1)
