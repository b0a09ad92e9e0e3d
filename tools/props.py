"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

P = []

def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), level_note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level_note=level_note, technique=technique, na=na))

# ---------------------------------------------------------------- storage and downloads

prop("C01", "A write that fails leaves no partial output behind",
     "When writing a downloaded, extracted or converted file (or converted directory) fails part-way for any reason, an interrupt included, "
     "the partially written file or directory is removed and the original error still reaches the caller. "
     "When the writing succeeds the output is left in place, and its missing parent directories have been created.",
     ["fault_sequences", "crash_points", "inputs"],
     "every exception (I/O error, decoding error, KeyboardInterrupt) raised at any point while any download, extraction or conversion output is open for writing",
     "no test makes a write fail; the existing tests write two small files successfully",
     ["cdtb/tools.py", "cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py", "cdtb/wad.py", "cdtb/export.py", "cdtb/hashes.py"],
     [("write_file_or_remove / write_dir_or_remove", "cdtb/tools.py"), ("their use around every data write", "storage.download, extract_file, RadsProjectVersion.extract, WadFileHeader.extract, FileConverter.convert, update_default_hashfile")],
     technique="exceptional-exit (typestate) analysis on inlined control flow: every write-open is covered by a catch-all handler that removes the same path and re-raises",
     level_note="Sound for the modelled exception flow of the enumerated write sites (all roots that download, extract or convert); assumes os.remove/rmtree do what they say and says nothing about a killed process.")

prop("C02", "An HTTP error answer is never used as data",
     "The content of an HTTP response (body, text, JSON, streamed data or headers) is used only once its status has been checked to be a success. "
     "A failed request always surfaces as an error, and never ends up in the storage, in hash lists or in release information.",
     ["inputs", "fault_sequences"],
     "every request the toolbox makes and every status code the server may answer",
     "tests replace requests by a mock that always answers 200",
     ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/hashes.py", "cdtb/rads.py"],
     [("raise_for_status() before the response is used", "storage.download/request_text/stream, patcher.get_latest_*, hashes.update_default_hashfile")],
     technique="must-pass-through dataflow: each use of a response is dominated by a status check of the same response",
     level_note="Decides every response object whose creation and use are visible in one inlined call tree; assumes requests' raise_for_status semantics.")

prop("C03", "The storage is a fetch-once mirror of the server",
     "Downloading a path requests exactly the storage's base URL followed by that path and stores the response body under the requested destination (the same relative path by default). "
     "If the destination is already a file and the download is not forced, no request is made and nothing is written; in every other case the request is made. "
     "Manifests, bundles and package lists are read back from exactly the place they were downloaded to.",
     ["inputs", "histories"],
     "every path, every combination of force flag and pre-existing file, every manifest/bundle/package identifier",
     "two tests download one list each into an empty storage; forced, repeated and bundle downloads are never exercised",
     ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py"],
     [("Storage.download", "cdtb/storage.py"), ("download_manifest/download_bundle/load_chunk path formats", "cdtb/patcher.py"), ("packagemanifest/solutionmanifest paths", "cdtb/rads.py")],
     technique="value-flow comparison of request URL / destination / reader paths, with guards compared as Boolean functions",
     level_note="Decides the URL, destination, skip condition and reader/writer path agreement as value-flow facts; file-system behaviour is trusted.")

prop("C04", "Chunks are read from where their bundle stores them",
     "In a bundle the first chunk starts at offset 0 and every other chunk starts where the compressed data of the previous one ends. "
     "Loading a chunk reads exactly its compressed size in bytes, at its offset, from the bundle it belongs to, and decompresses them; identifiers, compressed sizes and uncompressed sizes read from a manifest are never confused.",
     ["inputs"],
     "every bundle layout a manifest can describe (any number and size of chunks)",
     "the tests contain no manifest and no bundle",
     ["cdtb/patcher.py"],
     [("PatcherBundle.add_chunk", "cdtb/patcher.py"), ("PatcherManifest._parse_bundle", "cdtb/patcher.py"), ("PatcherStorage.load_chunk", "cdtb/patcher.py")],
     technique="value-flow analysis of the offset recurrence, the manifest field order and the seek/read/decompress chain",
     level_note="Decides the recurrence and field flow exactly; decompression itself is trusted.")

prop("C05", "An extracted release file holds exactly its chunks, in order",
     "Extracting a release file writes the decompressed data of all of its chunks, once each, in manifest order. "
     "When extracted files are shared, the name of the shared copy is computed from the complete ordered list of chunk identifiers and of nothing else, and the file's own path becomes a symbolic link that resolves to that copy, replacing whatever was there. "
     "When they are not shared, the data is written to the file's own path.",
     ["inputs", "histories", "configurations"],
     "every manifest file and chunk list, with symlinked sharing on or off, over any previous state of the storage",
     "no test extracts a release file",
     ["cdtb/patcher.py"],
     [("PatcherStorage.extract_file", "cdtb/patcher.py"), ("PatcherFile.hexdigest", "cdtb/patcher.py")],
     technique="value-flow and event-order analysis of the extraction routine (iteration source, written value, name digest, link target)",
     level_note="Decides iteration source/order, name dependence and link construction; assumes SHA-1 does not collide.")

prop("C06", "Needed bundles are fetched before extraction; only complete files are skipped",
     "Downloading a release element first fetches every bundle that holds a chunk of a file that is about to be extracted (same language selection; linked files are left out of both), and a failed bundle download prevents extraction. "
     "A file is considered already extracted only if it exists with exactly the size given by the manifest, and it is skipped only in that case and only if overwriting was not requested. "
     "Concurrent downloads never work on the same bundle twice.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every manifest, language selection, previous storage content, worker scheduling and failing download",
     "no test downloads or extracts a release",
     ["cdtb/patcher.py"],
     [("PatcherReleaseElement.bundle_ids/download_bundles/extract/is_extracted_file", "cdtb/patcher.py"), ("PatcherPatchElement.download", "cdtb/patcher.py")],
     technique="agreement check of the guard sets of the fetch and extract loops, must-precede ordering and escape analysis",
     level_note="Decides that the two file selections agree, ordering, uniqueness of parallel work items and propagation of worker errors.")

prop("C07", "Language selection means the same everywhere",
     "Selecting files of a patch element with language False yields exactly the language-independent files, True yields all files, a single language yields exactly the files of that language, and a list of languages yields the files of every listed language, as documented. "
     "This holds for both storage types and for languages given on the command line.",
     ["inputs", "configurations"],
     "every value of the language filter (False, True, one language, list) and every set of file flags or dependencies",
     "no test passes any language filter",
     ["cdtb/patcher.py", "cdtb/rads.py", "cdtb/__main__.py", "cdtb/storage.py"],
     [("PatcherFile.langs_predicate", "cdtb/patcher.py"), ("RadsSolutionVersion.projects", "cdtb/rads.py"), ("--lang/--no-lang", "cdtb/__main__.py")],
     technique="case analysis of the selection function over the finite partition of the filter's documented values, on value-flow summaries",
     level_note="Decides which predicate is applied for each class of filter value; flag contents themselves are data.")

prop("C08", "The three file listings of a patch element agree",
     "For every patch element and language selection, listing (disk path, export path) pairs gives the same pairs, in the same order, as zipping the separate listings of disk paths and of export paths. "
     "Export paths are always lower-cased, and the listed disk path is the path the element's download extracts that file to.",
     ["inputs", "configurations"],
     "every patch element of every storage type and every language selection",
     "no test lists the files of a real patch element",
     ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py"],
     [("fspaths/relpaths/paths overrides", "cdtb/patcher.py PatcherPatchElement, cdtb/rads.py RadsPatchElement")],
     technique="sibling agreement: the generators' element expressions and sources are compared as value-flow terms",
     level_note="Decides equality of the generated element expressions over the same source.")

prop("C09", "Patches are listed latest first and looked up without guessing",
     "Releases of a storage are listed from the numerically latest to the oldest, and only releases whose information is complete in the storage are listed. "
     "Each listed patch contains, for every element name, only the latest listed element of that version. "
     "Looking up a patch or an element returns the first match in listing order (the latest one when no version is given), and reports 'not found' instead of failing when there is none.",
     ["inputs", "histories"],
     "every content of the storage's release directories and every requested version",
     "tests only list one hard-coded decreasing sequence of versions",
     ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py", "cdtb/__main__.py"],
     [("PatcherStorage.iter_releases", "cdtb/patcher.py"), ("RadsStorage.patch_elements", "cdtb/rads.py"), ("Storage.patches/patch/patch_element", "cdtb/storage.py")],
     technique="value-flow analysis of listing sources, sort keys and directions, selection guards and not-found results",
     level_note="Decides ordering key/direction, completeness guard and selection shape; relies on the documented monotonicity of patch versions.")

prop("C10", "Version comparison is coherent",
     "Two versions are equal exactly when their number sequences are equal, whatever their spelling, and equal versions hash alike. "
     "Exactly one of less-than, equal and greater-than holds for two versions of the same kind, and ordering compares the numbers component by component, never as text.",
     ["inputs"],
     "every pair of version strings or tuples, including multi-digit components, different lengths and leading zeros",
     "tests compare about ten fixed pairs",
     ["cdtb/storage.py", "cdtb/rads.py"],
     [("BaseVersion comparison operators and constructor", "cdtb/storage.py"), ("RadsVersion, PatchVersion", "cdtb/storage.py, cdtb/rads.py")],
     technique="operator-family agreement: each comparison operator's value-flow term is matched to the numeric key, and the text form is shown to be a function of that key",
     level_note="Decides that all operators are the corresponding comparison of one key; integer tuple order is Python's.")

prop("C11", "The PBE pseudo-version is never ordered against numbered patches",
     "The special version used for the PBE is comparable only with itself, so every place that orders a patch's version against a numbered one handles the PBE version first, treating it as the most recent. "
     "Handling any PBE patch therefore never fails or takes an old-patch branch because of its version.",
     ["inputs", "configurations"],
     "every ordering comparison of a patch version in the program, for PBE and numbered patches",
     "no test processes a PBE patch",
     ["cdtb/storage.py", "cdtb/export.py", "cdtb/tftdata.py", "cdtb/arenadata.py", "cdtb/__main__.py"],
     [("version == 'main' guards", "cdtb/export.py"), ("PatchVersion.as_int", "cdtb/storage.py")],
     technique="guard-dominance lint over all ordering comparisons with a version operand, evaluated in the PBE case of each guard",
     level_note="Decides every ordering comparison against a fixed or user-given version; comparisons between versions of one storage are homogeneous by construction and listed.")

prop("C12", "Working on stored data discovers nothing new",
     "Listing or looking up patches restricted to stored data never asks the server for new releases or release listings and never adds a release to the storage. "
     "Without that restriction, the latest release is fetched into the storage before listing, and a component given with an explicit element version is looked up in stored data only.",
     ["inputs", "histories"],
     "every storage content and every call with or without the stored restriction, through the library or the command line",
     "tests replace the listing function itself",
     ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py", "cdtb/__main__.py"],
     [("stored parameter of patch_elements/patch/patches", "cdtb/storage.py, cdtb/patcher.py, cdtb/rads.py")],
     technique="effect reachability: request/discovery effects reachable from the listing entry points, with the stored flag propagated as a constant",
     level_note="Decides which discovery effects are reachable per flag value and that the flag is forwarded unchanged through every layer.")

prop("C13", "A release is published only once it is complete",
     "The storage's pointer to the latest release is updated only after that release's information file has been completely written, and both are written for the same timestamp. "
     "A new release is recorded exactly when the freshly fetched manifest URLs differ from those of the latest recorded release, and the recorded information is what reading the release back yields for the game and for the client.",
     ["crash_points", "histories", "fault_sequences"],
     "every interruption between the writes and every sequence of updates",
     "no test records a release",
     ["cdtb/patcher.py"],
     [("PatcherStorage.fetch_latest_update/latest_timestamp", "cdtb/patcher.py"), ("PatcherRelease", "cdtb/patcher.py")],
     technique="ordering and typestate analysis of the write events, writer/reader key and path agreement",
     level_note="Decides write order, handler coverage and key/path agreement; atomicity of a single file write is C01.")

prop("C14", "The cached patch version never hides or invents a version",
     "A patch version is written to the cache only after it has been retrieved successfully, never when it is unknown, and reading the cache back yields the version that was written. "
     "An existing cache is used instead of retrieving the version again, and for the PBE the version is always the PBE version whatever is cached.",
     ["inputs", "histories"],
     "every state of the cache file and every outcome of the retrieval, for both storage types",
     "no test retrieves a patch version",
     ["cdtb/patcher.py", "cdtb/rads.py"],
     [("patch_version() of release elements and solution versions", "cdtb/patcher.py, cdtb/rads.py")],
     technique="guarded event analysis and sibling agreement of the two cache implementations",
     level_note="Decides the guards and the written/read value flow of both siblings.")

prop("C15", "RADS files are cut from packages at their exact position",
     "When extracting RADS files from a streamed package, files are taken in increasing offset order, the stream is advanced to exactly the file's offset and exactly its size is consumed, so each file receives its own bytes and no others, decompressed if and only if it is stored compressed. "
     "The stream reader hands over exactly the requested number of bytes, in order, across download-block boundaries, and never requests another block when the buffered one suffices. "
     "Files already present in the storage are not extracted again.",
     ["inputs", "histories"],
     "every package manifest, every block boundary of the download stream, every set of already extracted files",
     "no test streams a package",
     ["cdtb/rads.py", "cdtb/storage.py"],
     [("RadsProjectVersion.extract", "cdtb/rads.py"), ("RequestStreamReader", "cdtb/storage.py"), ("BinPackageFile", "cdtb/rads.py")],
     technique="value-flow/loop-recurrence analysis of the reader, ordering-key and event-order analysis of the extraction loop",
     level_note="Decides the recurrence of the reader (what is handed over and what is kept per step) and the order/offset/size flow.")

prop("C16", "Unavailable RADS manifests mean 'no patch version', other errors surface",
     "If the file list of a project version is gone from the server (404), the solution version simply has no patch version and is left out of the listing. "
     "Any other HTTP error while retrieving a patch version is raised, never turned into 'no version'.",
     ["fault_sequences", "inputs"],
     "every HTTP error status while retrieving patch versions",
     "no test makes a request fail",
     ["cdtb/rads.py"],
     [("RadsSolutionVersion._retrieve_patch_version", "cdtb/rads.py"), ("RadsStorage.patch_elements", "cdtb/rads.py")],
     technique="exception-handler analysis: guards under which an HTTP error is absorbed versus re-raised",
     level_note="Decides the handler's guard and all its exits.")

# ---------------------------------------------------------------- WAD

prop("C17", "WAD tables of contents are decoded by their format version",
     "For each supported WAD version the entry table is located and each entry's fields (path hash, offset, compressed size, size, type, sub-chunk count and index, checksum) are decoded with the widths, order and byte order of that version. "
     "A file that is not a WAD or has an unsupported version is rejected with an error before any entry is read.",
     ["inputs"],
     "every WAD version number and every header content",
     "the tests contain no WAD file",
     ["cdtb/wad.py"],
     [("Wad.parse_headers, WadFileHeader.__init__", "cdtb/wad.py")],
     technique="binary-layout abstract interpretation: per version class, the sequence of field widths and the attribute each field flows to",
     level_note="Decides layout and field flow for each class of the (major, minor) partition against the format tables frozen from reading.")

prop("C18", "WAD entry data is what the archive stores, or an error",
     "Reading an entry reads exactly its compressed size at its offset and decodes it according to its type: raw, gzip, redirection (no data), zstd or sub-chunked; any other type is an error. "
     "For sub-chunked entries with a sub-chunk table, every returned sub-chunk is complete and matches its recorded checksum, sub-chunks are taken contiguously in table order for exactly the entry's index range, and one is returned undecompressed only if its two recorded sizes are equal.",
     ["inputs"],
     "every entry type nibble, every sub-chunk table and every truncation or corruption of entry data",
     "the tests contain no WAD file",
     ["cdtb/wad.py"],
     [("WadFileHeader.read_data", "cdtb/wad.py")],
     technique="value-flow and dominance analysis: decoder per type class, hash/length guard dominating every returned sub-chunk, offset recurrence",
     level_note="Decides dispatch, guards and recurrences; codecs and xxh3 are trusted.")

prop("C19", "WAD entries without readable data are skipped, never crash or fake data",
     "Wherever the toolbox reads the data of a WAD entry, an entry that has no data (a file redirection) or whose sub-chunked data cannot be read is skipped: nothing is written, parsed or guessed from it, and processing continues with the next entry.",
     ["inputs"],
     "every WAD content with redirections or unreadable entries, for every consumer (extraction, export, extension guessing, hash searching)",
     "the tests contain no WAD file",
     ["cdtb/wad.py", "cdtb/export.py", "cdtb/hashes.py"],
     [("None contract of read_data/read_file_data", "cdtb/wad.py"), ("callers' None checks", "cdtb/wad.py, cdtb/export.py, cdtb/hashes.py")],
     technique="nullness dataflow: every use of entry data is dominated by a not-None check; malformed sub-chunk errors are caught in every consumer",
     level_note="Decides all consumers found by callee resolution; a new consumer is analysed automatically.")

prop("C20", "Every WAD entry gets one usable path",
     "An entry's path is the one listed for its hash in the hash list, and only that; an entry whose hash is not listed is extracted as a file named by its 16-digit hexadecimal hash (plus its guessed extension) in the unknown-files directory. "
     "Before files are written, resolved names without an extension get a suffix (ending in the guessed extension, if any) so they cannot clash with directories, and names of 250 characters or more are shortened in a way that keeps the entry's hash and extension.",
     ["inputs"],
     "every hash list and every resolved path (missing extension, over-long names)",
     "the tests contain no WAD file",
     ["cdtb/wad.py", "cdtb/export.py"],
     [("resolve_paths/set_unknown_paths/sanitize_paths", "cdtb/wad.py"), ("Exporter.add_path", "cdtb/export.py")],
     technique="value-flow analysis of every write to an entry's path, with guards, and ordering of the sanitising steps before writes",
     level_note="Decides all writers of the path attribute and the order of steps; length arithmetic is checked as a linear bound.")

prop("C21", "Lazy mode never touches existing output, normal mode always refreshes it",
     "With overwriting disabled, extracting or exporting neither rewrites an output that already exists (for converted files: when all its converted outputs exist) nor reads its source data to produce it; everything missing is still produced. "
     "With overwriting enabled, the default, every selected file is produced whatever exists, and the command line's lazy option is exactly what disables overwriting.",
     ["inputs", "histories", "configurations"],
     "every previous content of the output directory and both modes, for WAD extraction and patch export",
     "tests mock the exporter and check only that overwrite=True is passed",
     ["cdtb/wad.py", "cdtb/export.py", "cdtb/__main__.py"],
     [("overwrite parameters", "Wad.extract, Exporter.export, CdragonRawPatchExporter.process, command_wad_extract, command_export")],
     technique="guard analysis: the condition under which each output is produced is compared as a Boolean function with the specification",
     level_note="Decides the production guards and the forwarding of the flag from the CLI to each writer.")

# ---------------------------------------------------------------- hashes

prop("C22", "Only real matches are added to the hash lists",
     "While guessing, a path is recorded as known only under the hash computed from that very path, and only if that hash was still unknown in the analysed archives; an existing entry of the hash list is never changed or removed. "
     "Every recorded hash leaves the set of unknown hashes.",
     ["inputs", "histories"],
     "every candidate path produced by any guessing method, in any order",
     "no test guesses hashes",
     ["cdtb/hashes.py"],
     [("HashGuesser.check/is_known/check_iter/_add_known", "cdtb/hashes.py")],
     technique="who-may-write ownership analysis of the known/unknown sets plus dominance of every write by the membership test on the same hash",
     level_note="Decides all writers of the two sets in the package; the hash function is trusted.")

prop("C23", "A dry run changes no hash list, and a real run saves what it found",
     "The hash guessing command writes a hash list only if new hashes were found for it and it is not a dry run, in which case it writes the list it searched. "
     "No other command writes to the hash lists, except the one that fetches them from the server.",
     ["inputs", "configurations"],
     "every command, option combination and number of matches",
     "no test runs the guessing command",
     ["cdtb/__main__.py", "cdtb/hashes.py"],
     [("command_hashes_guess", "cdtb/__main__.py"), ("HashFile.save", "cdtb/hashes.py")],
     technique="effect reachability per CLI command with guard analysis of the save call",
     level_note="Decides which commands can reach the hash-list write and under which conditions.")

prop("C24", "Hash lists survive a save and reload unchanged",
     "Saving a hash list and loading it again yields the same hashes and paths, including paths that contain spaces (paths never contain line breaks), whatever their order. "
     "Hashes are written as fixed-width hexadecimal of the list's own width, one entry per line.",
     ["inputs", "histories"],
     "every hash list content and both hash widths",
     "no test reads or writes a hash list",
     ["cdtb/hashes.py", "cdtb/binfile.py", "cdtb/rstfile.py"],
     [("HashFile.load/save", "cdtb/hashes.py")],
     technique="writer/reader format agreement: separator, split count, radix, stripped characters and record terminator compared as value-flow facts",
     level_note="Decides agreement of the two line formats; values are assumed to contain no line break.")

prop("C25", "Fetching hash lists covers every list in use, and only newer ones",
     "Every hash list that some command loads by default is among those that the fetch command downloads, into the directory they are loaded from. "
     "A list is downloaded when it is missing locally or when the server's copy is more recent than the local one, and not otherwise.",
     ["inputs", "configurations", "histories"],
     "every default hash list in the program, every local/remote modification time",
     "no test fetches hashes",
     ["cdtb/hashes.py", "cdtb/binfile.py", "cdtb/rstfile.py", "cdtb/__main__.py"],
     [("update_default_hashfile", "cdtb/hashes.py"), ("hash_files list of command_fetch_hashes", "cdtb/__main__.py"), ("HashFile instances", "cdtb/hashes.py, cdtb/binfile.py, cdtb/rstfile.py")],
     technique="cross-module set inclusion of constant-propagated file names, guard analysis of the freshness test",
     level_note="Decides the inclusion and the download condition as a Boolean function of (missing, local time, remote time).")

prop("C26", "The hash directory follows the documented precedence",
     "The hash directory is the first available of: the dedicated environment variable, the data-repository variable's hash subdirectory, then the platform data directory (absolute XDG directory, else the Windows one, else the home default) with the `cdragon/data/hashes/lol` subdirectory. "
     "An unset or empty variable is treated as absent.",
     ["configurations"],
     "every combination of set, empty and unset environment variables",
     "tests run with whatever environment they get and never look at the directory",
     ["cdtb/hashes.py"],
     [("_default_hash_dir", "cdtb/hashes.py")],
     technique="value-flow summary of the function compared with the specification over all 2^n cases of the guards",
     level_note="Complete over the finite partition of the environment (each variable absent/empty/set, XDG absolute or not).")

# ---------------------------------------------------------------- file formats

prop("C27", "Every BIN value type has a reader of the right width",
     "Every BIN value type the decoder can produce has a reader, and each reader consumes exactly the bytes of its type: the scalar's own width and signedness, the vector's component count, or for containers the header of that container followed by its elements or fields. "
     "An entry whose decoded length differs from its recorded length is rejected. Entries of a patch section are laid out in the same way.",
     ["inputs"],
     "every BIN type code and every nesting of container types",
     "the tests contain no BIN file",
     ["cdtb/binfile.py"],
     [("BinReader._vtype_to_bvalue_reader and read_* methods", "cdtb/binfile.py"), ("BinType", "cdtb/binfile.py")],
     technique="exhaustiveness of the dispatch table over the type enumeration, and binary-layout analysis of each reader",
     level_note="Decides totality and per-type layout against a frozen table of the format.")

prop("C28", "BIN type codes are interpreted by the patch they come from",
     "The mapping from raw type byte to type follows the patch version: current codes from patch 10.8 on, codes without the second list type between 9.23 and 10.8, and the old contiguous numbering before 9.23. "
     "An unknown code is an error, never silently another type.",
     ["inputs", "configurations"],
     "every raw type byte (0-255) and every patch version",
     "the tests contain no BIN file",
     ["cdtb/binfile.py"],
     [("BinReader.parse_bintype", "cdtb/binfile.py")],
     technique="interval abstract interpretation: the piecewise-affine map computed for each version interval and byte interval",
     level_note="Complete over the finite partition (3 version intervals x 256 codes).")

prop("C29", "Binary formats are decoded alike on every platform, without misalignment",
     "Every multi-byte binary field is read or written with an explicit byte order and standard sizes, so results do not depend on the host. "
     "The number of bytes requested always equals what the format describes, and each decoded record provides exactly as many values as its consumer takes.",
     ["configurations", "inputs"],
     "every binary read or write in the program, on hosts of any endianness and alignment",
     "tests run on one little-endian host and decode no binary data",
     ["cdtb/tools.py", "cdtb/wad.py", "cdtb/binfile.py", "cdtb/patcher.py", "cdtb/rstfile.py", "cdtb/sknfile.py", "cdtb/export.py", "cdtb/hashes.py"],
     [("struct formats", "all unpack/pack sites"), ("BinaryParser.unpack, BinReader.read_fmt", "cdtb/tools.py, cdtb/binfile.py")],
     technique="package-wide lint on constant-folded struct formats: byte order, size agreement, arity of targets",
     level_note="Decides every struct format site; formats that cannot be folded are reported as undecided in the evidence.")

prop("C30", "String tables are decoded and looked up with the key width of their version",
     "For each supported string-table version and game version the number of hash bits is the documented one, the same number of bits separates hash and offset in the file and masks every lookup, and the hash function used for lookups is the one of that game version, as is the key list used to name entries. "
     "The text of an entry is the bytes at its offset up to the next NUL as UTF-8, undecodable ones replaced, or, for an entry which starts with 0xFF in a table that announces encrypted strings, the base64 form of as many bytes as the 16-bit little-endian number after it says. Other versions and files that are not string tables are rejected.",
     ["inputs", "configurations"],
     "every string-table version, game version and key",
     "the tests contain no string table",
     ["cdtb/rstfile.py", "cdtb/export.py"],
     [("RstFile.parse_rst/__getitem__/__contains__", "cdtb/rstfile.py"), ("key_to_hash/get_hashfile", "cdtb/rstfile.py"), ("RstConverter", "cdtb/export.py")],
     technique="case analysis over the version partition with value-flow agreement of split, mask and lookup widths",
     level_note="Complete over the finite partition of (table version, game version) thresholds.")

prop("C31", "Every supported texture format converts, with or without mipmaps",
     "A texture format accepted when it has no mipmaps is also accepted when it has mipmaps, and is then cut at the largest mipmap using the block size and bytes per block of that format; anything else is a conversion error. "
     "The produced header announces the format's own layout and dimensions.",
     ["inputs"],
     "every texture format byte, mipmap flag and dimension",
     "the tests contain no texture",
     ["cdtb/export.py"],
     [("TexConverter.tex_to_dds", "cdtb/export.py")],
     technique="exhaustiveness agreement between the two format dispatches, constant tables compared per format class",
     level_note="Decides the format tables and the mipmap size expression; pixel decoding is Pillow's.")

prop("C32", "Extracted meshes are well-formed and self-consistent",
     "Every face line of an extracted mesh references its three vertices with position, texture and normal indices all equal and correctly delimited, and vertex data is written in the order position, texture, normal for each vertex. "
     "Each sub-mesh receives exactly its own range of vertices and indices.",
     ["inputs"],
     "every mesh file version, vertex layout and sub-mesh table",
     "the tests contain no mesh",
     ["cdtb/sknfile.py"],
     [("SknFile.to_obj, SknFile.__init__", "cdtb/sknfile.py")],
     technique="constant-template and binary-layout analysis, slice-bound agreement",
     level_note="Decides the emitted templates, the vertex layout per version and the slice bounds.")

# ---------------------------------------------------------------- export

prop("C33", "A converter writes exactly the outputs it announces",
     "For every input path it handles, each converter writes exactly the files or directories that it announces for that path: nothing else in the output, and none missing on success. "
     "Clean-up, lazy mode and symlinks rely on it.",
     ["inputs"],
     "every converter and every handled path",
     "no test runs a converter",
     ["cdtb/export.py"],
     [("FileConverter.converted_paths / convert pairs", "cdtb/export.py")],
     technique="sibling agreement: set of yielded path terms versus set of written path terms, per converter class",
     level_note="Decides every FileConverter subclass found in the class hierarchy.")

prop("C34", "An unconvertible file is reported and skipped, never fatal",
     "If a game file is rejected by its converter (wrong magic, unsupported version or format), the export logs it and goes on with the following files. "
     "Conversion rejections are the only errors treated that way: other errors still stop the export, apart from invalid or too long paths.",
     ["inputs", "fault_sequences"],
     "every rejected input file and every converter, in plain files and archives",
     "no test runs a converter",
     ["cdtb/export.py", "cdtb/binfile.py", "cdtb/rstfile.py", "cdtb/sknfile.py"],
     [("FileConversionError and its handlers in Exporter", "cdtb/export.py")],
     technique="interprocedural exception-escape analysis of explicit raises through every converter and its call sites",
     level_note="Decides explicitly raised exceptions; exceptions raised inside library calls (e.g. truncated data) are out of scope and listed.")

prop("C35", "Output clean-up removes only what is not exported",
     "Cleaning an output directory only ever deletes entries found inside it, only those that are neither exported files nor kept links, and never follows a symbolic link to delete or look for files outside it. "
     "A link that must be kept is kept only as a link, and a kept file only as a regular file: every other file or link, at any depth, is deleted.",
     ["inputs", "histories"],
     "every content of the output directory, including links to other patches",
     "no test cleans a directory",
     ["cdtb/export.py"],
     [("Exporter.walk_output_dir/clean_output_dir", "cdtb/export.py")],
     technique="effect and guard analysis of every deletion: origin of the deleted path and the Boolean condition of its deletion",
     level_note="Decides origin and condition of each deletion; concurrent modification of the directory is out of scope.")

prop("C36", "An incremental export omits only what the previous patch already has",
     "Relative to a previous patch, a plain file is left out only if the previous patch exports the same source file at the same path, and an archive entry only if the previous patch has the same entry with the same known checksum (or the very same archive). "
     "Links are created only for files that are exported by the new patch, left unchanged and present in the previous one; every other file of the patch is exported.",
     ["inputs", "histories"],
     "every pair of consecutive patches, including archives without checksums",
     "one test checks the path reduction helper on two small inputs",
     ["cdtb/export.py"],
     [("Exporter.filter_exporter", "cdtb/export.py"), ("CdragonRawPatchExporter.process", "cdtb/export.py"), ("reduce_common_paths", "cdtb/export.py")],
     technique="guard analysis of every removal from the export set and value-flow of the set expressions given to linking",
     level_note="Decides removal guards, set flow, the recursion step of the tree reduction, and the coverage of the export loops.")

prop("C37", "An export cleans, then writes, then links, and lists everything it contains",
     "Stale output is removed before any file is exported, and links are created after files are exported and only where nothing else exists. "
     "The exported-files list holds every output path of the patch (changed or linked), and the unknown list holds every archive entry whose hash was unresolved before naming or filtering; generated information files are never removed by clean-up. A link leads to the same path of the previous patch.",
     ["histories", "inputs"],
     "every previous output content and every patch",
     "tests mock the exporter",
     ["cdtb/export.py"],
     [("CdragonRawPatchExporter.process/_create_symlinks", "cdtb/export.py")],
     technique="event-order analysis of the inlined export pipeline and value-flow of the report contents",
     level_note="Decides order and content sources.")

prop("C38", "Files of a patch are decoded by that patch's rules",
     "Whenever files of a known patch are decoded (BIN types, string-table hashing, TFT and Arena data), the decoder receives that patch's own version; PBE counts as the latest. "
     "The version given by the user on the command line is used in the same way.",
     ["configurations", "inputs"],
     "every patch version and every version-dependent decoder reachable from it",
     "no test decodes a file of a patch",
     ["cdtb/export.py", "cdtb/tftdata.py", "cdtb/arenadata.py", "cdtb/__main__.py", "cdtb/storage.py"],
     [("game_version / btype_version arguments", "cdtb/export.py, cdtb/tftdata.py, cdtb/arenadata.py"), ("PatchVersion.as_int", "cdtb/storage.py")],
     technique="interprocedural value-flow: the version argument of every version-dependent decoder call originates from the patch's version",
     level_note="Decides the origin of the version at each decoder construction reachable from an export or CLI entry point.")

prop("C39", "The export filter keeps what is published and drops what is not",
     "Executables and libraries, archive entries without a path, and package descriptions outside archives are never exported; game archives keep only the published kinds of files, with every kept path placed under the game directory, and under its language subdirectory for language-specific archives of recent patches. "
     "The same rules are applied to the previous patch, so that the two are comparable.",
     ["inputs", "configurations"],
     "every file name in every archive, every patch version",
     "no test filters files",
     ["cdtb/export.py"],
     [("CdragonRawPatchExporter._transform_exported_files", "cdtb/export.py")],
     technique="predicate extraction: the filter conditions as Boolean functions of suffix tests, and symmetric application to both exporters",
     level_note="Decides predicates and order of the steps on value-flow summaries.")

prop("C40", "Exports of one language never leak into another",
     "TFT and Arena data files are produced per language from a fresh copy of the untranslated data, with only that language's string table, and each file is named after the language its translations come from. "
     "Translating one language never alters the data used for the next.",
     ["inputs", "histories"],
     "every set of languages and every order in which they are exported",
     "no test exports TFT or Arena data",
     ["cdtb/tftdata.py", "cdtb/arenadata.py", "cdtb/tools.py"],
     [("deepcopy of the template per language", "TftTransformer.export, ArenaTransformer.export")],
     technique="aliasing (escape) analysis of the shared template and value-flow of string table, data and file name to the same loop variable",
     level_note="Decides that every mutation in the language loop targets the per-language deep copy.")

prop("C41", "Exported text does not depend on the locale",
     "Every JSON document the toolbox exports is encoded the same way on every machine: text that may contain non-ASCII characters is written with an explicit UTF-8 encoding, whatever the system locale. "
     "The same holds for the lists of exported files and links, and for the lists of known hashes, which are read with the encoding they are written with.",
     ["configurations", "inputs"],
     "every locale/platform default encoding and every exported string",
     "tests run in one locale and export nothing",
     ["cdtb/tools.py", "cdtb/export.py", "cdtb/tftdata.py", "cdtb/arenadata.py", "cdtb/hashes.py"],
     [("encoding of text outputs", "cdtb/tools.py, cdtb/export.py, cdtb/tftdata.py, cdtb/arenadata.py"), ("HashFile.load/save", "cdtb/hashes.py")],
     technique="value-flow from each JSON serialisation to the file object it reaches and that object's encoding",
     level_note="Decides every json_dump/json_dumps sink reached by file output.")

# ---------------------------------------------------------------- library and CLI

prop("C42", "Every command is wired to a handler that only uses its own options",
     "Every declared sub-command can be dispatched, and its handler reads only options that the sub-command declares, with the declared meaning. "
     "Commands accepting a component work for every kind of component the component syntax describes.",
     ["inputs", "configurations"],
     "every sub-command and option combination",
     "tests run one sub-command",
     ["cdtb/__main__.py"],
     [("create_parser / command_* functions / main dispatch", "cdtb/__main__.py")],
     technique="cross-check of the parser declarations (constant-propagated) with handlers' attribute reads and attribute existence on component classes",
     level_note="Decides dispatch totality, option/attribute agreement and attribute existence on component values.")

prop("C43", "File parsers accept a path or an open file alike",
     "Every file-format class that can be constructed from either a path or an open binary file decodes the same content from both.",
     ["inputs"],
     "every parser class and both kinds of argument",
     "no test constructs a parser",
     ["cdtb/patcher.py", "cdtb/binfile.py", "cdtb/rstfile.py", "cdtb/sknfile.py"],
     [("constructors of PatcherManifest, BinFile, RstFile, SknFile", "cdtb/patcher.py, cdtb/binfile.py, cdtb/rstfile.py, cdtb/sknfile.py")],
     technique="sibling agreement and definite-assignment analysis: in both argument cases the parsing routine receives the file object",
     level_note="Decides which object each parser reads from in both cases.")

prop("C44", "Progress display neither loses items nor leaks its signal handler",
     "Iterating with progress display yields every element of the underlying sequence exactly once and in order, whatever interrupts are received, and the previous interrupt handler is always restored when the iteration ends, even by an error.",
     ["schedules", "inputs"],
     "every interrupt timing and iteration end (normal, error, early stop)",
     "no test sends an interrupt",
     ["cdtb/hashes.py"],
     [("sigint_callback/progress_iterate", "cdtb/hashes.py")],
     technique="typestate analysis: handler installation paired with restoration on all exits; yield domination in the loop",
     level_note="Decides pairing on all exits and the yield-per-iteration fact.")

prop("C45", "Hash guessing is never aborted by what it reads or finds",
     "A guessing method goes through everything it was given: a hash found while candidates are enumerated does not disturb the enumeration, a candidate that comes twice is harmless, and a file without content or known path, with undecodable text, text that is not JSON, JSON of another shape than expected, a path-like string at its very beginning, "
     "or a path with unusual characters (such as '%') is skipped or handled like any other instead of ending the guessing with an error.",
     ["inputs", "histories"],
     "every file content and every set of known and unknown hashes",
     "no test runs a guesser",
     ["cdtb/hashes.py"],
     [("HashGuesser, LcuHashGuesser, GameHashGuesser", "cdtb/hashes.py")],
     technique="interprocedural live-view (iterator invalidation) dataflow; exception-handler, guard-entailment and taint rules over the analysed events",
     level_note="Decides these causes of an abort; errors inside known structured formats (a known JSON file whose fields changed) are not covered.")

# ---------------------------------------------------------------- not applicable

prop("C46", "BIN elements are found and shown by name or hash alike",
     "A field, entry, type or path of a BIN file is found by its name in any casing, by its hash or by a hash object, with the same result whether or not the hash lists know the name (names are hashed lowercased, with FNV-1a, or XXH64 for WAD paths). Looking up an absent field gives the default (or KeyError), a present one gives its value, whatever that is. "
     "Equal hash values hash alike. A serialised file has every entry, field, element, linked file and patch, under its name as its own hash list gives it, or else its full hash in braces.",
     ["inputs", "configurations"],
     "every BIN object, key and content of the hash lists",
     "the tests contain no BIN file and no hash list",
     ["cdtb/binfile.py"],
     [("BinObjectWithFields, BinHashBase and its subclasses, to_serializable methods, compute_binhash", "cdtb/binfile.py")],
     technique="value-flow analysis of the lookup, comparison and serialisation methods of every class, with the resulting terms evaluated over the cases of their inputs",
     level_note="Complete over the classes and methods; keys, values and names are sampled by kind (position, absence, casing, known or not, empty or null).")

prop("C47", "The TFT and Arena data are complete and their references resolved",
     "The exported TFT data hold every complete set with the champions, traits, items and augments its lists name, in the format of every generation of game data; every non-template trait, champion with data and item appears with its references (traits, components, roles, spells) replaced by what they refer to. "
     "Sets without number, name, champions or traits are left out. A missing field is null, taken from the field older data have, or the default, never the text of a missing value. The Arena data hold every enabled augment, each with the values and calculations of its own spell.",
     ["inputs"],
     "every game data: fields present, missing or in their older form, shared and empty lists, unknown and repeated references, names in any casing",
     "the tests contain no game data",
     ["cdtb/tftdata.py", "cdtb/arenadata.py"],
     [("TftTransformer.build_template", "cdtb/tftdata.py"), ("ArenaTransformer.build_template", "cdtb/arenadata.py")],
     technique="value-flow analysis of the whole transformation, whose result term is evaluated over sample game data of each generation and compared with a reference reading; plus a null-to-text dataflow rule",
     level_note="The result term is that of every path; sample entries cover the kinds of presence, absence and reference of each field, not every combination.")

prop("C48", "TFT and Arena texts are translated with the string tables of the patch",
     "The string tables of the newest layout present in the game directory are found in every language, whatever characters the directory has, and having none is an error. A string table is read whole, compiled or text, whatever its line ends. "
     "In every exported document, each name, description, ability, trait and tooltip text with a translation is replaced by it in the language of the file, and every other text is kept as it was.",
     ["inputs"],
     "every directory layout, string table and language, and every text of the data",
     "the tests contain no string table and no game data",
     ["cdtb/tools.py", "cdtb/tftdata.py", "cdtb/arenadata.py"],
     [("stringtable_paths", "cdtb/tools.py"), ("load_translations", "cdtb/tftdata.py"), ("TftTransformer.export", "cdtb/tftdata.py"), ("ArenaTransformer.export", "cdtb/arenadata.py")],
     technique="value-flow analysis: the terms of the found paths, of the read texts and of the written documents are evaluated over sample directories, files and templates and compared with a reference",
     level_note="The terms are those of every path; samples cover each layout, kind of text and line end, not every combination.")

prop("C49", "No command fails on a name, attribute or argument that does not exist",
     "Every variable has a value on every path to its use, every global name is defined, every attribute read from an object of the toolbox and every method called on it exists, and every call fits the signature of what is called. "
     "Names taken from standard modules exist, constant binary formats, regular expressions and format strings are valid, and a result is unpacked in as many variables as it has values: no command fails for such a reason, however rarely the path is taken.",
     ["inputs"],
     "every path of every function, for every class it may be called on",
     "the tests execute a small part of the code",
     ["cdtb/*.py"],
     [("all functions", "cdtb/*.py")],
     technique="path-sensitive definite-assignment and attribute/signature analysis of each function for each final receiver class, plus lints of names, standard library uses and constant formats",
     level_note="Attributes of objects whose class is not known from the source (third-party or untyped values) are not judged; a variable set in a loop counts as set if the loop has elements.")

prop("C50", "A release manifest is decoded in full",
     "Reading a release manifest (RMAN) gives every file of the manifest under its full path (its directory and all parent directories, joined by '/'), with its size, its link target, the names of all its flags, and its chunks in order, "
     "wherever the manifest places its tables and entries and whichever columns are absent. Nothing else is listed. "
     "A manifest with another magic code, an unsupported version or kind of body, or that refers to a directory, chunk or flag it does not contain is refused with an error.",
     ["inputs"],
     "every manifest: placement of tables and entries, absent columns, directory depth, flag masks",
     "no test reads a manifest",
     ["cdtb/patcher.py", "cdtb/tools.py"],
     [("PatcherManifest.parse_rman/parse_body and its table readers", "cdtb/patcher.py"), ("BinaryParser", "cdtb/tools.py")],
     technique="the sequence of reads and seeks obtained by abstract interpretation is followed over sample layouts; the files obtained are compared with those of an independent encoder",
     level_note="The layouts are a finite set chosen to distinguish every column, offset base, mask bit and optional column; truncated manifests are left to N02.")

prop("C51", "RADS manifests are decoded in full",
     "Reading a RADS solution manifest gives, for each of its languages, exactly the project versions it lists, and for no language exactly the required ones; reading a package manifest gives every file with its path, package, offset, size and compression, "
     "and the extracted path is the path without the '.compressed' suffix; a release listing gives every version it has. "
     "A document with another magic line or format version, or a solution manifest of another solution or version, is refused with an error.",
     ["inputs"],
     "every manifest and listing: number and order of projects, languages and files",
     "no test reads a RADS manifest",
     ["cdtb/rads.py"],
     [("RadsSolutionVersion.dependencies", "cdtb/rads.py"), ("BinPackageFile / RadsProjectVersion._get_package_files", "cdtb/rads.py"), ("RadsSolution.versions / RadsProject.versions", "cdtb/rads.py")],
     technique="the reads and parsing steps obtained by abstract interpretation are followed over sample documents; the result is compared with the content of the document",
     level_note="The documents are a finite set that distinguishes every field, count and list position of the formats.")

prop("C52", "A storage is opened as its path and configuration say",
     "Opening a storage by path uses the configuration file at that path, or the one in that directory, with its type and options kept and its path taken relative to the directory of the file; a directory with a 'channels' directory is a patcher storage; "
     "'type:path' is split at the first ':', and a path that does not exist is a patcher storage. A configuration without a type, a directory that nothing tells about and an unknown type are refused. "
     "Every option of a configuration (patchline, use_extract_symlinks, clientconfig_data, url, cdn) reaches the storage that is made, with its documented default.",
     ["inputs"],
     "every path, kind of file at that path and content of its configuration",
     "no test opens a storage from a path",
     ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py"],
     [("Storage.from_path / storage_conf_from_path / load_storage_conf", "cdtb/storage.py"), ("StorageRegister / Storage.from_conf", "cdtb/storage.py"), ("PatcherStorage.from_conf_data", "cdtb/patcher.py"), ("RadsStorage.from_conf_data", "cdtb/rads.py")],
     technique="abstract interpretation of the path and configuration functions; the resulting guards, configuration terms and attribute values are evaluated over sample file trees and configurations",
     level_note="The sample trees hold every kind of path the code tells apart, alone and in combination.")

prop("C53", "The manifests of a release are those of its patchline and element",
     "The client manifest recorded for a new release is the one configured for the region of the storage's patchline (PBE for pbe, EUW otherwise), looked up in the file or URL given as clientconfig_data and else at the official address; "
     "the game manifest is that of the only release published for its platform. An answer without exactly such an entry is refused, and so is a manifest URL that does not name a manifest of the storage's server. "
     "A release has exactly the elements for which it records a manifest URL, and each element uses its own.",
     ["inputs", "histories"],
     "every answer of the servers, configuration file, patchline and recorded release",
     "no test looks up a release",
     ["cdtb/patcher.py"],
     [("PatcherStorage.get_latest_client_manifest", "cdtb/patcher.py"), ("PatcherStorage.get_latest_game_manifest", "cdtb/patcher.py"), ("PatcherStorage.download_manifest", "cdtb/patcher.py"), ("PatcherRelease.elements / PatcherReleaseElement", "cdtb/patcher.py")],
     technique="abstract interpretation of the look-up functions; guards, loops and result terms are evaluated against sample server answers and recorded data",
     level_note="The sample answers differ in every field the look-up reads (patchline, platform, region, number of releases).")

prop("C54", "The patch version of a build is the one its own files state",
     "The patch version of a release element is read from the file of its own manifest that states it (system.yaml for the client, content-metadata.json for the game), the one of a RADS solution from the file of its main project (system.yaml, League of Legends.exe); "
     "the file is downloaded and extracted before it is read, and read where it was extracted. A build that lacks the project or the file gets no version (early clients) or an error, never another one. "
     "The version of a system.yaml is that of its first branch line that states one, the version of a content-metadata.json the first two numbers.",
     ["inputs", "histories"],
     "every build, content of its files and state of the storage",
     "no test retrieves a patch version",
     ["cdtb/patcher.py", "cdtb/rads.py", "cdtb/storage.py"],
     [("PatcherReleaseElement._retrieve_patch_version", "cdtb/patcher.py"), ("RadsSolutionVersion._retrieve_patch_version", "cdtb/rads.py"), ("get_system_yaml_version / get_content_metadata_version / get_exe_version", "cdtb/storage.py")],
     technique="abstract interpretation of the retrieval with its file accesses as events; events, guards and results are followed for sample builds and sample files",
     level_note="What the executable reader of the hachoir library gives is trusted.")

prop("C55", "Converted tables hold everything the binary file holds",
     "The JSON document made of a string table, a texture atlas or the champion skins holds exactly what the file holds: every entry under its key (the known name of a hash, else the hash in hexadecimal between braces), texts complete and in UTF-8 with undecodable "
     "bytes replaced, encrypted strings in base64, images with the path they are exported under, coordinates in order, prestige skins those with flag 4. "
     "Files with another magic code or an unsupported version are refused with the error that conversions are reported by.",
     ["inputs"],
     "every supported version and content of the files, whatever the order and sharing of their texts",
     "no test converts such a file",
     ["cdtb/export.py", "cdtb/rstfile.py", "cdtb/tools.py"],
     [("RstConverter.convert", "cdtb/export.py"), ("AtlasInfoConverter.parse_atlasinfo", "cdtb/export.py"), ("ChampionSkinInfoConverter.parse_championskininfo", "cdtb/export.py"), ("RstFile.parse_rst", "cdtb/rstfile.py")],
     technique="abstract interpretation of the converters as one sequence of reads down to the document they dump, followed over sample files of each layout",
     level_note="Sample files stand for their layout; truncated files are N02.")

prop("C56", "Patches are exported each from the one before it",
     "`export --from P` exports, oldest first and each into the directory of its own name, exactly the patches from P on that have a directory in the output, the first one in full and each later one from the patch exported just before it, with symlinks only where a previous patch exists. "
     "`export PATCH` exports that one patch, from the one stored before it unless another previous patch or none is asked for. Patches that are unknown or not stored, missing or contradictory options and links to no previous patch are refused before anything is exported. "
     "Without --lazy existing files are overwritten.",
     ["inputs", "configurations"],
     "every set of stored patches, every content of the output directory and every combination of the options",
     "no test exports patches",
     ["cdtb/__main__.py", "cdtb/export.py"],
     [("command_export", "cdtb/__main__.py"), ("CdragonRawPatchExporter.from_directory", "cdtb/export.py"), ("CdragonRawPatchExporter.__init__", "cdtb/export.py")],
     technique="abstract interpretation of the export command down to the exports it starts, followed over sample storages, output directories and options",
     level_note="Sample storages and directories stand for all; what one export writes is C34-C40 and C48.")

prop("C57", "Every exported file gets the conversion of its kind",
     "For every file of a patch and of the patch it is compared with, the exporter uses the conversion of its kind: textures (.dds, .tga, .tex) become PNG images, .bin files of the game also become JSON, icon atlases JSON only, .skn files also a directory of models, string tables and font configurations of the game's data/menu also JSON, "
     "champion skins JSON; every other file is exported as it is. The outputs are named after the path of the file, and announced by the first converter that handles it.",
     ["inputs", "configurations"],
     "every path a file can be exported to and every order of the converters",
     "no test builds the exporter of a patch",
     ["cdtb/export.py"],
     [("CdragonRawPatchExporter._create_exporter", "cdtb/export.py"), ("Exporter.converted_exported_paths", "cdtb/export.py"), ("FileConverter", "cdtb/export.py")],
     technique="abstract interpretation of the export of a patch down to its converters, evaluated over a table of paths of every kind and near misses",
     level_note="Sample paths stand for their kind; what a conversion writes is C31, C32, C33, C46 and C55.")

prop("C58", "An export covers every file of its patch",
     "Exporting a patch downloads every element of its latest version with all languages and then covers every file these elements list, each under its own export path: archives (.wad, .wad.client) with all entries but redirections, unknown entries with a guessed extension and usable paths, any other file as it is. "
     "The previous patch an export is compared with is covered in the same way. After the files, TFT data are made for patches from 9.14 on and main, Arena data from 13.14 on and main, from the exported game files, for the version of the patch, in all languages.",
     ["inputs", "configurations"],
     "every set of elements and files a patch may have and every version",
     "no test exports a patch",
     ["cdtb/export.py"],
     [("Exporter.add_patch_files", "cdtb/export.py"), ("Exporter.add_path", "cdtb/export.py"), ("CdragonRawPatchExporter.export_tft_data", "cdtb/export.py"), ("CdragonRawPatchExporter.export_arena_data", "cdtb/export.py")],
     technique="abstract interpretation of the export, followed over sample patches and versions with the downloads, opened archives and collected files recorded in order",
     level_note="Sample patches stand for all; what a download fetches is C09-C16, what is left out of an incremental export C36.")

prop("C59", "A BIN file is decoded whole",
     "Decoding a BIN file gives exactly what its bytes state: the version and whether it is a patch file, the linked files in order (none for versions without such a list), every entry with its own path, the type at its place in the list of types, and all its fields in order with name, type and value, and for patch files "
     "the patches gathered by the entry they apply to, in the order they are stored. Types are read the way of the patch the file is from (before 9.23, before 10.8, since). A file with another magic code or patch header, or with an entry whose stated length is not what was read, is refused.",
     ["inputs", "configurations"],
     "every plain and patch file of any version, number of linked files, entries, fields and patches",
     "no test decodes a BIN file",
     ["cdtb/binfile.py"],
     [("BinFile.__init__", "cdtb/binfile.py"), ("BinReader.read_binfile_header", "cdtb/binfile.py"), ("BinReader.read_binfile_entry", "cdtb/binfile.py"), ("BinReader.read_patch_section", "cdtb/binfile.py"), ("BinReader.parse_bintype", "cdtb/binfile.py")],
     technique="abstract interpretation of the reader, followed over the bytes of sample files, with the attributes of every object made compared with what the bytes state",
     level_note="Sample files stand for all; how a single value is laid out is C29, how values are turned into JSON is C46.")

prop("C60", "Content without a file extension gets the extension of its format",
     "The extension guessed for content is that of the format whose signature it starts with (the more specific signature where one starts like another; JPEG data also by its JFIF or Exif mark), 'json' if it is valid JSON, and none otherwise; guessing never fails, whatever the content. "
     "In an archive, extensions that are known are left alone, one guessed before for the same hash is used again without reading anything, every other entry with readable data gets the guess made from its own data, which is remembered under its hash, and the archive is not opened when there is nothing to guess.",
     ["inputs", "histories"],
     "every content of any format, damaged or not, and every mixture of entries with and without an extension, already guessed or not, with and without readable data",
     "no test reads an archive or guesses the type of content",
     ["cdtb/wad.py"],
     [("WadFileHeader.guess_extension", "cdtb/wad.py"), ("WadFileHeader._magic_numbers_ext", "cdtb/wad.py"), ("Wad.guess_extensions", "cdtb/wad.py")],
     technique="abstract interpretation of the recogniser (its table unrolled), evaluated for sample contents of every format; handler coverage of the JSON parser's failures; the archive's loop followed over sample entries",
     level_note="Sample contents stand for all contents of a format; the JSON parser is trusted.")

prop("N01", "Image conversions preserve the picture",
     "A converted image shows the same pixels as its source texture.",
     ["inputs"], "every image", "no test converts an image",
     ["cdtb/export.py"], [("ImageConverter/TexConverter", "cdtb/export.py")],
     na="quantifies over pixel values computed inside Pillow's decoders; no static argument over this source bounds them (the format tables and cut size are claimed as C31)")
prop("N02", "Truncated or corrupt files are always detected",
     "Any truncated or corrupted game file is rejected rather than decoded into wrong data.",
     ["inputs"], "every corruption", "no test decodes a file",
     ["cdtb/binfile.py", "cdtb/rstfile.py", "cdtb/sknfile.py", "cdtb/patcher.py"], [("parsers", "cdtb/*.py")],
     na="most formats carry no checksum, so detection depends on runtime values; the checkable clauses (sub-chunk checksums, recorded entry lengths, magic/version rejection) are claimed in C17, C18, C27 and C30")
prop("N03", "Two processes can share a storage or output directory",
     "Concurrent runs on the same storage never corrupt each other's files.",
     ["schedules"], "every interleaving of two processes", "tests are single-process",
     ["cdtb/tools.py", "cdtb/storage.py"], [("none: the code takes no inter-process lock", "cdtb/tools.py")],
     na="the program has no locking or atomic-rename mechanism whose discipline a static rule could check, and the property is not promised by the project; thread-level work partitioning is claimed in C06")
prop("N04", "Guessing methods find every hash they could",
     "Each guessing method tries every candidate its description promises.",
     ["inputs"], "every hash list and archive", "no test guesses hashes",
     ["cdtb/hashes.py"], [("HashGuesser methods", "cdtb/hashes.py")],
     na="completeness of heuristic candidate generation over runtime data has no specification beyond the code itself; soundness of what gets recorded is claimed as C22")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "hook_needed": None,
                },
            }
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(d) + "\n")

    claimed = {p["id"] for p in P if p["na"] is None and os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))}
    manifest = {
        "version": 1,
        "setup_cmd": "python3 -m compileall -q vfa checks run.py >/dev/null 2>&1 || true",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"python3 run.py {p['id']}",
                "thorough_cmd": f"python3 run.py {p['id']} --thorough",
                "technique": p["technique"],
                "level": "other",
                "level_note": p["level_note"],
            } for p in P if p["id"] in claimed
        ],
        "not_applicable": [
            {"property": p["id"], "reason": p["na"] or "check not built yet"} for p in P if p["id"] not in claimed
        ],
        "notes": "All checks are static: they parse /repo/cdtb with the ast module on every run and never import or execute it.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(claimed), "claimed")

main()
