#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/pe_lib/"+f for f in files],
            state=[dict(name=n, meaning=m, where="src/pe_lib/"+w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where="src/pe_lib/"+w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

prop("C01", "A saved image comes back unchanged after a restart",
 "After any sequence of edits to headers, DOS stub and sections, saving the image and loading the saved bytes in a fresh session yields the same header values, stub, data directory table and, for every section, the same name, address, virtual size, attributes and raw bytes. The saved file is itself well formed when read by an independent PE parser: every section's bytes lie at the file offset and with the size its header states, offsets are file-aligned and do not overlap each other or the headers, and header counts and sizes match what is there. Saving, reloading and saving again without edits reproduces the same bytes.",
 ["histories", "configurations", "inputs"],
 "every history of header, stub, section, alignment and directory edits interleaved with saves (all option combinations) and restarts, on PE32 and PE32+ images, loaded, created empty or loaded from a memory dump",
 "The tests rebuild nine fixed files once each with one or two edits; whether an edit survives depends on the whole history (what was saved, reloaded, realigned or stripped before).",
 ["pe_rebuilder.cpp", "pe_base.cpp", "pe_section.cpp", "pe_properties_generic.cpp", "pe_factory.cpp"],
 [("header and layout recalculation on save", "pe_rebuilder.cpp: rebuild_pe"), ("header and section reader with consistency checks", "pe_base.cpp: read_pe")],
 [("section list", "in-memory sections with header and raw bytes", "pe_base.h"), ("NT headers", "PE32/PE32+ header image", "pe_properties_generic.h")],
 ["rebuild_pe output bytes", "pe_factory::create_pe on those bytes", "all header/section getters"])

prop("C02", "Imports written by a rebuild are the imports read back",
 "After any history of import edits (libraries and functions added, removed or reordered; by name with hint or by ordinal; any rebuilder settings that are documented to give a loadable table), rebuilding, saving and reloading yields exactly the intended libraries and functions in order, for both PE32 and PE32+. An independent walk of the import descriptors, lookup tables and address tables in the saved file finds the same list, with every referenced address inside a section.",
 ["histories", "configurations", "inputs"],
 "every import list and rebuilder setting, rebuilt repeatedly into fresh or already used section space, with restarts between rebuilds",
 "The tests rebuild a handful of fixed import lists once; repeated rebuilds in used space, mixed ordinal/name lists, preserved address tables and restarts in between are not sampled.",
 ["pe_imports.cpp", "pe_imports.h"],
 [("import table builder", "pe_imports.cpp: rebuild_imports"), ("import table reader", "pe_imports.cpp: get_imported_functions")],
 observe=["get_imported_functions", "saved bytes"])

prop("C03", "Exports written by a rebuild are the exports read back",
 "After any history of export edits (functions with ordinals, names, addresses and forwarders; export information fields), rebuilding, saving and reloading yields exactly the intended functions with their ordinals, names, addresses and forwarders, and the intended information fields. In the saved file the name table is sorted, name ordinals and addresses agree, and lookup by name and by ordinal in an independent parser finds each function.",
 ["histories", "configurations", "inputs"],
 "every export list (gaps in ordinals, unnamed functions, forwarders, high bases), rebuilt repeatedly with restarts between",
 "The tests cover a few fixed export lists; ordering, gaps, forwarders and repeated rebuilds over stale data combine freely in use.",
 ["pe_exports.cpp", "pe_exports.h"],
 [("export table builder", "pe_exports.cpp: rebuild_exports"), ("export table reader", "pe_exports.cpp: get_exported_functions")],
 observe=["get_exported_functions", "saved bytes"])

prop("C04", "Relocation tables round-trip and rebasing composes",
 "After any history of relocation edits, rebuilding, saving and reloading yields exactly the intended set of relocation addresses and types. Rebasing an image to a new base changes precisely the locations the table names, each by the base difference, and updates the image base; any chain of rebases, with saves and restarts between, equals one direct rebase to the final base, and rebasing back restores the original bytes. Removing relocations or failing part-way never leaves other bytes altered.",
 ["histories", "inputs", "fault_sequences"],
 "every relocation table (all entry types the rebuilder accepts, page and block boundaries, odd counts) and every chain of rebases, saves and restarts, including allocation failures inside a rebuild",
 "The tests rebuild and rebase one image once; block boundary cases and chains of rebases across restarts are not sampled.",
 ["pe_relocations.cpp", "pe_relocations.h"],
 [("relocation builder", "pe_relocations.cpp: rebuild_relocations"), ("relocation reader", "pe_relocations.cpp: get_relocations"), ("image rebasing", "pe_relocations.cpp: rebase_image")],
 observe=["get_relocations", "rebase_image", "saved bytes"])

prop("C05", "The resource tree round-trips through every edit history",
 "After any history of resource additions, replacements and removals (by type, by integer id or by name, per language), rebuilding, saving and reloading yields exactly the resources an ordinary map model predicts, with identical data and code pages and nothing else. Listing, counting and lookup calls agree with that model at every step, and in the saved file every directory lists named entries before id entries, each group in ascending order (the loader finds a resource by binary search), and every data block lies inside a section.",
 ["histories", "configurations", "inputs"],
 "every sequence of resource manager operations with rebuilds (into new or the same section), saves and restarts between",
 "The tests exercise single operations on one tree; operation order, repeated replacement, emptying and regrowing a directory, and rebuild-in-place are history dependent.",
 ["pe_resources.cpp", "pe_resource_manager.cpp", "pe_resource_viewer.cpp"],
 [("tree builder", "pe_resources.cpp: rebuild_resources"), ("tree reader", "pe_resources.cpp: get_resources"), ("add/remove/replace", "pe_resource_manager.cpp")],
 observe=["pe_resource_viewer", "get_resources", "saved bytes"])

prop("C06", "Typed resources keep their meaning through edit and restart",
 "Bitmaps, icons, cursors and version information written into an image are read back as the same file bytes or the same fields and string sets after any history of adding, replacing and removing them, rebuilding and restarting; icon and cursor groups always reference exactly the images that exist, and removing a group removes just its own images. String tables, message tables and version blocks stored in the image are reported exactly as an independent decoder of the resource data reads them.",
 ["histories", "inputs"],
 "every history of adding/removing bitmaps, icon and cursor groups and version blocks, with id collisions, several languages, appends and replacements, saves and restarts",
 "The tests add one or two items to one file; id allocation, group sharing, replacement and multi-language histories are open-ended.",
 ["resource_bitmap_reader.cpp", "resource_bitmap_writer.cpp", "resource_cursor_icon_reader.cpp", "resource_cursor_icon_writer.cpp", "resource_version_info_reader.cpp", "resource_version_info_writer.cpp", "resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "version_info_editor.cpp", "version_info_viewer.cpp", "file_version_info.cpp"],
 [("group and image writer with free-id allocation", "resource_cursor_icon_writer.cpp"), ("group reader", "resource_cursor_icon_reader.cpp"), ("version block builder", "resource_version_info_writer.cpp"), ("version block parser", "resource_version_info_reader.cpp")],
 observe=["reader classes", "resource data bytes"])

prop("C07", "TLS, load configuration and bound imports round-trip",
 "After any history of edits, rebuilding the TLS directory (with callbacks and raw data), the load configuration directory (with SE handler and lock prefix tables) and the bound import directory, then saving and reloading, yields exactly the intended field values, callback, handler and prefix lists, bound modules and forwarder references, for PE32 and PE32+. Rebuilding again with a shorter list leaves nothing of the longer one visible.",
 ["histories", "configurations", "inputs"],
 "every directory content and rebuild option, rebuilt repeatedly into fresh or used space, with saves and restarts between",
 "The tests rebuild each directory once with one fixed content; list lengths, options, repeated rebuilds over stale bytes and restarts combine freely.",
 ["pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp"],
 [("TLS builder/reader", "pe_tls.cpp"), ("load config builder/reader", "pe_load_config.cpp"), ("bound import builder/reader", "pe_bound_import.cpp")],
 observe=["get_tls_info", "get_image_config", "get_bound_import_module_list", "saved bytes"])

prop("C08", "Editing one part of an image leaves every other part untouched",
 "Rebuilding or removing one directory, adding or growing a section, or changing a header field alters nothing else that can be read from the image: all other directories report the same content, all other sections keep their bytes and addresses, all other header fields keep their values. This holds after every step of a session that mixes edits of all kinds and across saves and restarts, also when an edit fails and is retried.",
 ["histories", "fault_sequences"],
 "every interleaving of edits to different parts of one image, including edits that fail for lack of memory and are retried, with saves and restarts between",
 "Tests look at the directory they just rebuilt; interference between directories sharing sections appears only in mixed histories.",
 ["pe_base.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_resources.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_rebuilder.cpp"],
 [("each rebuilder writes only its own range and directory entry", "pe_*.cpp: rebuild_*"), ("section growth rules", "pe_base.cpp: expand_section, recalculate_section_sizes")],
 observe=["all readers", "section bytes", "header getters"])

prop("C09", "The address space stays consistent through section edits",
 "After any sequence of adding, growing, resizing and realigning sections and changing alignments, sections are contiguous, aligned, ordered and non-overlapping, and the image size covers exactly them. Every address inside a section is resolved to that section by relative address, virtual address and file offset; the conversions are mutually inverse where defined and refuse addresses outside; and reading through any of them yields that section's byte, with the unbacked tail of virtual data reading as zero.",
 ["histories", "inputs"],
 "every history of section operations with interleaved raw and virtual reads, saves and restarts, probing boundary and random addresses",
 "Tests check a few addresses of one image; the resolver's result depends on every earlier resize and on whether virtual data is currently mapped.",
 ["pe_base.cpp", "pe_section.cpp", "pe_properties_generic.cpp"],
 [("section placement", "pe_base.cpp: add_section, prepare_section"), ("resolution and conversion", "pe_base.cpp: section_from_rva, rva_to_file_offset, file_offset_to_rva"), ("raw/virtual mapping of section data", "pe_section.cpp: map_virtual, unmap_virtual")],
 [("mapped state", "section data is temporarily extended to its virtual size", "pe_section.h")],
 observe=["section_from_*", "section_data_from_*", "address conversions"])

prop("C10", "Loading through a faulty stream is exact or fails loudly",
 "Loading an image from a stream that delivers data in arbitrary chunks gives exactly the image stored; if any read, seek or position query fails or ends early during the load, the result is either that same image or a reported error, never an image with silently missing, zeroed or shifted content (optional debug payloads may be absent, never wrong). Once the stream works again, retrying on the same stream succeeds and gives the exact image.",
 ["fault_sequences", "inputs"],
 "every placement of read errors, early end of file, failed seeks, failed position queries and throwing stream buffers within a load, for every chunking of the data",
 "Tests read complete files from healthy in-memory or file streams; no stream ever fails.",
 ["pe_base.cpp", "pe_factory.cpp", "utils.cpp"],
 [("stream state checks after each read", "pe_base.cpp: read_pe, read_dos_header"), ("type detection", "pe_base.cpp: get_pe_type"), ("size query", "utils.cpp: get_file_size")],
 observe=["pe_factory::create_pe", "pe_base constructor", "pe_base::get_pe_type"])

prop("C11", "Borrowed streams are handed back as they were lent",
 "Loading an image, detecting its type and computing its checksum leave the caller's input stream at its original position, with its original exception mask and usable, whether the operation succeeds or fails; entropy calculation likewise returns the stream to where it was. Saving leaves the output stream's exception mask as the caller set it, and a failure is signalled according to that mask. No error escapes as anything other than the library's own exception (or an out-of-memory or caller-requested stream exception).",
 ["fault_sequences", "configurations", "inputs"],
 "every caller exception mask, stream position, file content (valid, damaged, truncated) and fault placement",
 "Tests never inspect the stream after a failed call and never set an exception mask.",
 ["pe_base.cpp", "pe_checksum.cpp", "entropy.cpp", "pe_rebuilder.cpp"],
 [("state save and restore around stream use", "pe_base.cpp: pe_base, get_pe_type; pe_checksum.cpp: calculate_checksum; entropy.cpp; pe_rebuilder.cpp")],
 observe=["stream position", "stream exceptions()", "stream state"])

prop("C12", "A failed save is visible, harmless and repeatable",
 "If the output device rejects, shortens or fails a write, fills up or throws at any point of a save, the caller can see the failure on the stream or as an exception, and whatever did reach the device is a prefix of the correct file. The image in memory is not damaged: saving again to a healthy stream produces exactly the bytes an undisturbed save would have produced, whether or not the device supports position queries and at whatever offset the stream started.",
 ["fault_sequences", "histories", "configurations"],
 "every placement of write faults within a save, any number of failed saves before a good one, on images with any edit history and all save options",
 "Tests save to healthy string streams only, and compare at most one save.",
 ["pe_rebuilder.cpp", "pe_base.cpp"],
 [("sequential writer with padding", "pe_rebuilder.cpp: rebuild_pe(pe, ostream)"), ("header recalculation", "pe_rebuilder.cpp: rebuild_pe(pe, dos_header)")],
 observe=["bytes that reached the device", "stream state", "bytes of the retry"])

prop("C13", "Saved bytes are a function of the image alone",
 "Two sessions performing the same edits save identical bytes, whatever the contents of uninitialised memory, the earlier saves of the same image, the way input was chunked, or other images handled in the process. No byte of the output comes from memory outside the image's own content: gaps and alignment padding are zero.",
 ["histories", "configurations"],
 "every edit history and save option, executed twice under different memory contents, chunkings and save repetitions",
 "Uninitialised or foreign memory often happens to be zero or stable in a test process, and tests do not compare two executions byte for byte.",
 ["pe_rebuilder.cpp", "pe_base.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_resources.cpp", "pe_tls.cpp", "pe_load_config.cpp", "resource_version_info_writer.cpp"],
 [("zero padding and fully initialised headers", "pe_rebuilder.cpp"), ("builders initialise what they write", "pe_*.cpp: rebuild_*")],
 observe=["saved bytes of paired executions"])

prop("C14", "Damaged files are refused safely by every reader",
 "Whatever bytes a file contains - truncated, bit-flipped, with lost, zeroed or swapped sectors, or with any header or directory field replaced by an extreme value - loading it and calling every reader, viewer and editor entry point either succeeds or throws the library's exception (or reports lack of memory). It never reads or writes outside its own data, never leaks, and finishes within a number of steps bounded by the file's size and the declared counts.",
 ["inputs", "fault_sequences", "crash_points"],
 "every damaged version of every valid image, in particular directory structures pointing at section ends, into each other or at themselves",
 "The tests use well-formed files; memory errors need particular damaged values next to a section's end.",
 ["pe_base.cpp", "pe_imports.cpp", "pe_exports.cpp", "pe_relocations.cpp", "pe_resources.cpp", "pe_tls.cpp", "pe_load_config.cpp", "pe_bound_import.cpp", "pe_debug.cpp", "pe_dotnet.cpp", "pe_exception_directory.cpp", "pe_rich_data.cpp", "resource_version_info_reader.cpp", "resource_string_table_reader.cpp", "resource_message_list_reader.cpp", "resource_cursor_icon_reader.cpp", "resource_bitmap_reader.cpp"],
 [("bounds and sum checks before each access", "pe_base.h: section_data_from_rva<T>; each reader"), ("termination checks in directory walks", "each reader")],
 observe=["address sanitizer", "exception types", "step counter"])

prop("C15", "Running out of memory never corrupts or leaks",
 "If any memory allocation inside any library call fails, the call reports it (or completes) without crashing and without leaking; every object involved stays destructible and usable; read-only calls leave the image exactly as it was, and a failed edit leaves everything except the part being edited as it was. When memory is available again, repeating the call gives the same result as if the failure had never happened.",
 ["fault_sequences", "histories"],
 "every allocation site reached by every library operation, failing once or repeatedly, inside any edit history",
 "No test makes an allocation fail; each operation contains hundreds of allocation points, each a distinct failure path.",
 ["pe_base.cpp", "pe_section.cpp", "pe_resources.cpp", "pe_resource_manager.cpp", "resource_cursor_icon_writer.cpp", "pe_properties_generic.cpp"],
 [("ownership of header object, resource tree and section buffers across exceptions", "pe_base.cpp; pe_resources.cpp; pe_section.cpp")],
 observe=["live allocation accounting", "address sanitizer", "image content before and after"])

prop("C16", "Copies of an image are independent values",
 "Copying or assigning an image (or a section, resource tree or directory description) gives an equal, fully independent value: any later edit, save, failure or destruction of one is invisible in the other, and both save to what a never-copied image with the same edits would. Self-assignment and an assignment that fails for lack of memory leave every object involved valid.",
 ["histories", "fault_sequences"],
 "every interleaving of edits, copies, assignments, saves and destructions over a pool of images and trees, including allocation failures during copying",
 "Tests copy images incidentally and never interleave edits of the copies or fail a copy.",
 ["pe_base.cpp", "pe_resources.cpp", "pe_properties_generic.cpp", "pe_section.cpp"],
 [("deep copy of header object and tree nodes", "pe_base.cpp: copy constructor, operator=; pe_resources.cpp: resource_directory_entry")],
 observe=["all readers on both copies", "saved bytes"])

prop("C17", "Threads working on their own images never affect each other",
 "When several threads each load, read, edit and save their own image through their own streams, under any interleaving of their execution, each thread obtains exactly the results and bytes it would obtain running alone. The same holds when threads start from copies of one common image.",
 ["schedules", "histories"],
 "every interleaving (at basic-block and stream-operation granularity) of two to four threads running arbitrary sessions on images they own",
 "The tests are single-threaded.",
 ["pe_base.cpp", "pe_section.cpp", "pe_resources.cpp", "utils.cpp", "pe_rebuilder.cpp", "pe_exception.cpp"],
 [("no mutable state shared between images: no globals, no shared buffers, deep copies", "all of src/pe_lib")],
 observe=["per-thread results versus a serial execution"])

prop("C18", "Checksum and entropy are exact on every stream",
 "The checksum computed over a stream equals the documented PE checksum algorithm over the file's bytes, and the entropy equals the Shannon entropy of the bytes from the current position, for files of every size and however the stream chunks its data. If the stream fails or ends early while they are computed, they report an error instead of returning a number for data that was not read.",
 ["fault_sequences", "inputs"],
 "every file content and length (including lengths not a multiple of four), chunking, start position and read/seek fault placement",
 "Tests compute two checksums and a few entropies over healthy streams whose sizes are multiples of four.",
 ["pe_checksum.cpp", "entropy.cpp", "utils.cpp"],
 [("checksum loop", "pe_checksum.cpp: calculate_checksum"), ("byte histogram", "entropy.cpp: calculate_entropy")],
 observe=["calculate_checksum", "entropy_calculator"])

prop("C19", "A torn save is never mistaken for a complete image",
 "If a save is cut short by a crash, so that only some leading part of the file is durable, loading that file is either refused with an error or yields an image whose headers and section contents are those of the complete file. No section ever appears with part of its content missing, and recovery from the previous intact version of the file yields exactly that version.",
 ["crash_points", "histories"],
 "every crash point within every save of every edit history, alternating between two file slots",
 "Tests never truncate a file they saved.",
 ["pe_base.cpp", "pe_rebuilder.cpp"],
 [("section extent check against file size", "pe_base.cpp: read_pe")],
 observe=["pe_factory::create_pe on every prefix"])

prop("C20", "Read-only views report what is stored, whatever happened before",
 "Debug entries, exception (unwind) entries, the .NET header, rich header records, the DOS stub, the overlay flag and every section's name, attributes, emptiness, raw data and zero-extended virtual data are reported exactly as an independent decoder reads them from the stored file, for PE32 and PE32+. The reports do not depend on the order of calls, on reads of raw or virtual section data made before, or on edits to other parts of the image, and reading never changes what would be saved.",
 ["histories", "inputs"],
 "every stored directory content and every order and repetition of read-only calls, mixed with unrelated edits, chunked loads and restarts",
 "The tests decode one fixed file per view in one fixed order.",
 ["pe_debug.cpp", "pe_exception_directory.cpp", "pe_dotnet.cpp", "pe_rich_data.cpp", "pe_base.cpp", "pe_section.cpp"],
 [("debug reader", "pe_debug.cpp: get_debug_information"), ("unwind reader", "pe_exception_directory.cpp: get_exception_directory_data"), (".NET header reader", "pe_dotnet.cpp"), ("rich header decoder", "pe_rich_data.cpp: get_rich_data"), ("temporary mapping of virtual data during reads", "pe_section.cpp: map_virtual")],
 observe=["reader results", "saved bytes before and after reading"])

prop("C21", "Scalar conversions and accessors are exact for every value",
 "Language and translation codes, version strings, GUID comparison, alignment arithmetic and similar value conversions give the mathematically defined result for every argument.",
 ["inputs"],
 "every argument value",
 "Tests sample a few values.",
 ["utils.h", "file_version_info.cpp", "version_info_viewer.cpp", "resource_data_info.cpp"],
 [("alignment helpers", "utils.h"), ("translation parsing", "version_info_viewer.cpp")])

os.makedirs("/verif", exist_ok=True)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
