NOTES = ("Bounded exhaustive exploration of the real code against independent reference models; see DESIGN.md. "
         "properties.jsonl and this file are generated by tools/gen.py from tools/props.py.")
NOT_APPLICABLE = []
T = "explicit enumeration of a bounded input/operation space on the real code, checked against an independent reference model"
PROPS = [
 dict(id="A01", title="A written archive is well formed and contains exactly what was put in",
  statement="For every sequence of adding and replacing files and properties, the written archive is a well-formed PBO whose entries are sorted ignoring case, whose sizes, contents and properties are exactly the last ones given for each name, and whose trailing checksum covers everything before it. Reading it back gives the same names, sizes, bytes, properties and a matching checksum, and the bytes do not depend on the order of insertion. Input that the format cannot hold is refused.",
  over=["inputs","histories","programs"], for_all="all operation sequences up to the depth bound, all orders of insertion, file sizes across buffer and large-file thresholds, name, count and property lengths, and read/write chunkings",
  why="The unit tests write a handful of small archives in one order; none varies history, order, buffer boundaries or chunked I/O, and none compares with an independent parser of the format.",
  files=["libs/pbo/src/write.rs","libs/pbo/src/read.rs","libs/pbo/src/model/header.rs","libs/pbo/src/model/checksum.rs"],
  mech=[("header collection, sort and checksum while writing","libs/pbo/src/write.rs WritablePbo::write"),("streamed copy of large files","libs/pbo/src/write.rs"),("header parsing","libs/pbo/src/read.rs ReadablePbo::from")],
  state=[("files/properties","entries to be written, last write wins","libs/pbo/src/write.rs WritablePbo")],
  obs=["bytes written by WritablePbo::write","ReadablePbo::{files_sorted,file,properties,checksum,gen_checksum}"],
  technique=T, note="every operation sequence to depth 4 (quick) over 2 names/contents, every insertion order of up to 5-6 names, size and length sweeps around all buffer boundaries; oracle: map model plus an independent PBO parser; bounded"),
 dict(id="A02", title="Reading any archive finds each stored file and notices corruption",
  statement="Every file stored in a well-formed archive from any tool is listed once and is found under its stored name with either slash and in any letter case, and its bytes are exactly the stored ones. A file that is not stored is not found. An archive that was truncated, extended or altered anywhere is either refused or fails its checksum comparison.",
  over=["inputs"], for_all="all entry lists up to the bound over an alphabet of names incl. both slashes and letter cases, with and without the property section, and every byte position and mask of corruption",
  why="Tests read three fixture archives made by one tool and never corrupt them.",
  files=["libs/pbo/src/read.rs","libs/pbo/src/model/header.rs"],
  mech=[("offset computation over the headers in stored order","libs/pbo/src/read.rs ReadablePbo::file_offset"),("checksum recomputation","libs/pbo/src/read.rs ReadablePbo::gen_checksum")],
  obs=["ReadablePbo::{from,files,file,file_size,extension,checksum,gen_checksum}"],
  technique=T, note="every entry list up to 3 (quick) / 4 entries, every single-byte corruption with 9 (quick) / 255 masks, every truncation; reference parser as oracle. Archives holding two names that differ only in case are outside (the format leaves which one is meant open)"),
 dict(id="A03", title="A signature verifies exactly the archive and the key it was made for",
  statement="A signature made for an archive with a private key verifies with the matching public key, also after both went through their files, and the signature file is byte for byte what the game's algorithm prescribes. After any change to the archive's contents, names, entry set, order or prefix, to the signature's values or version, or with any other key, verification is refused.",
  over=["inputs","histories"], for_all="all archives over the alphabet of file sets (every hashed and unhashed extension), prefixes, versions and keys; every one-byte and every structural edit up to two steps; every pair of variant archives",
  why="Tests sign one fixture and compare one result; no test tampers with an archive, mixes signatures or crosses keys.",
  files=["libs/signing/src/lib.rs","libs/signing/src/private.rs","libs/signing/src/public.rs","libs/signing/src/signature.rs"],
  mech=[("name, file and header hashes","libs/signing/src/lib.rs generate_hashes"),("modular comparison of the three signature values","libs/signing/src/public.rs BIPublicKey::verify"),("padding and exponentiation","libs/signing/src/private.rs BIPrivateKey::sign")],
  obs=["BIPrivateKey::sign","BIPublicKey::verify","BISign::write"],
  technique=T, note="full product of archives x versions x keys, every byte x mask tampering, all edit sequences to length 2 (3 thorough); independent implementation of the signature algorithm as oracle"),
 dict(id="A04", title="Key and signature files survive a round trip and malformed ones are refused",
  statement="Writing a key or signature file that was read gives the same bytes, including leading zero bytes of every field, and the public key derived from a private key agrees with it. Truncated or malformed key and signature files are refused with an error, never a crash. A newly generated key signs and verifies and survives its file formats.",
  over=["inputs"], for_all="all combinations of fields with leading zero bytes, key lengths, exponents and authority names; every truncation; every byte of the fixed fields with every mask",
  why="Tests read and write one key file; leading zeros occur in 1 of 256 keys per field and no test feeds a malformed file.",
  files=["libs/signing/src/private.rs","libs/signing/src/public.rs","libs/signing/src/signature.rs","libs/signing/src/lib.rs"],
  mech=[("fixed-length big integer output","libs/signing/src/lib.rs write_biguint"),("field parsing","libs/signing/src/private.rs BIPrivateKey::read")],
  obs=["BIPrivateKey::{read,write_danger,to_public_key,generate}","BIPublicKey::{read,write}","BISign::{read,write}"],
  technique=T, note="full product of zero-prefix patterns x lengths; every truncation and every fixed-field corruption; generation itself is random, so each length is exercised with one fresh key per run"),

 dict(id="B01", title="LZO compression is lossless and stays inside its buffers",
  statement="Every byte sequence compresses to a stream that decompresses to exactly that sequence, both with this library's decoder and with an independent one. The result never exceeds the documented worst case size, and an output buffer that is too small gives an error. No memory outside the input and output buffers is touched.",
  over=["inputs"], for_all="all strings over small alphabets up to the bound, all sequences of literal, match and tail blocks, all match distances and lengths around every encoding boundary, all lengths around block boundaries and all output capacities",
  why="Tests compress a few fixed texts; the encoder has a dozen length and distance classes, a history window and unsafe pointer arithmetic whose borders no example visits.",
  files=["libs/lzo/src/compress.rs","libs/lzo/src/lib.rs"],
  mech=[("match search and instruction encoding","libs/lzo/src/compress.rs"),("worst case size","libs/lzo/src/lib.rs worst_compress")],
  obs=["hemtt_lzo::{compress,compress_to_slice,worst_compress,decompress_to_slice}"],
  technique=T, note="buffers end at guard pages, so an access outside is a crash the check reports; independent LZO1X decoder as oracle; bounded"),
 dict(id="B02", title="LZO decompression gives the right bytes or an error for any input",
  statement="For every byte string and every output capacity the decoder gives exactly what the LZO1X format prescribes, or an error where the format prescribes none: truncated input, overrun of either buffer, a match before the beginning, or bytes after the end marker. It never reads or writes outside its buffers.",
  over=["inputs"], for_all="all byte strings up to the length bound over all and over significant byte values, all instruction sequences up to the depth bound, all corruptions of samples, and all output capacities in the sweep",
  why="Tests decode valid streams only; the decoder is a hand-written unsafe state machine fed with untrusted files.",
  files=["libs/lzo/src/decompress.rs","libs/lzo/src/lib.rs"],
  mech=[("instruction decoder","libs/lzo/src/decompress.rs")],
  obs=["hemtt_lzo::decompress_to_slice"],
  technique=T, note="all strings of up to 3 bytes, structured ones to length 5-6, instruction sequences to depth 3-4 with a reference decoder and guard pages; bounded"),
 dict(id="B03", title="Images are stored as PAA files exactly as far as the format allows",
  statement="Every image the format can hold is written as a well-formed PAA with the right sizes and mipmap chain, and decodes to the same picture: exact alpha for two-valued blocks, colours within the rounding of the format, every pixel in its place. An image it can not hold is refused.",
  over=["inputs"], for_all="all image dimensions up to the bound and the extreme ones, a grid of colours, all pairs of alpha values in the alphabet, and every pixel position of small images",
  why="Tests convert a few square images and compare with stored outputs.",
  files=["libs/paa/src/paa.rs","libs/paa/src/mipmap.rs"],
  mech=[("padding and block compression","libs/paa/src/mipmap.rs MipMap::from_rgba_image"),("offset table","libs/paa/src/paa.rs Paa::write")],
  obs=["Paa::{from_dynamic,write,read}","MipMap::get_image"],
  technique=T, note="every size up to 13x13 (21x21 thorough), every pixel position up to 9x9, independent PAA parser and DXT decoder as oracle; bounded"),
 dict(id="B04", title="Every PAA file is read as stored or refused",
  statement="For every PAA file of a supported format, the taggs, mipmap sizes and pixels read are exactly those stored, whether mipmaps are compressed or not and however the bytes arrive. Truncated, unsupported or corrupted files give an error, never a crash, a hang or an allocation out of proportion.",
  over=["inputs"], for_all="all formats x mipmap sizes x storage kinds, all blocks over a colour alphabet, all tagg orders and offset tables up to the bound, all truncations, all single-byte corruptions and all type identifiers",
  why="Tests read a few files from the game; none is malformed, oddly sized or uses an unusual layout.",
  files=["libs/paa/src/paa.rs","libs/paa/src/mipmap.rs","libs/paa/src/pax.rs"],
  mech=[("tagg and offset parsing","libs/paa/src/paa.rs Paa::read"),("mipmap decoding","libs/paa/src/mipmap.rs MipMap::get_image")],
  obs=["Paa::read","MipMap::{width,height,get_image}","PaXType::{from_bytes,as_bytes}"],
  technique=T, note="independent encoder and DXT decoder as oracle; bounded"),
 dict(id="B05", title="P3D models keep everything through reading and writing",
  statement="Every model that is read is represented exactly as stored, and writing it gives a model that is read back the same, byte for byte for models in the writer's form. Truncated and malformed models are refused without crashes or outsized allocations.",
  over=["inputs"], for_all="all LODs up to the bound of points, normals, faces and taggs, all sequences of up to 3 LODs, all tagg orders, all truncations and single-byte and single-field corruptions, all chunkings",
  why="Tests read and compare single fixture models.",
  files=["libs/p3d/src/lod.rs","libs/p3d/src/face.rs","libs/p3d/src/point.rs","libs/p3d/src/vertex.rs","libs/p3d/src/lib.rs"],
  mech=[("LOD and tagg parsing and writing","libs/p3d/src/lod.rs")],
  obs=["P3D::{read,write}"],
  technique=T, note="independent MLOD encoder as oracle; one known finding: repeated taggs of one name keep only the last"),
 dict(id="B06", title="Missing textures and materials of a model are reported exactly",
  statement="For every model and every set of project files, exactly the referenced textures and materials that exist nowhere (taking into account the .tga/.png sources that become .paa, prefixes and procedural names) are reported missing. The answer does not depend on the order of models or on what earlier searches have cached.",
  over=["inputs","histories"], for_all="all sets of up to 4 of 14 project files x all references of the alphabet, alone and together, cold and warm cache; all sequences of up to 3 models with a shared cache",
  why="Tests check one model against one project.",
  files=["libs/p3d/src/functions/missing.rs"],
  mech=[("collection of missing references and search cache","libs/p3d/src/functions/missing.rs")],
  obs=["P3D::missing"],
  technique=T, note="reference resolver as oracle; bounded"),

 dict(id="C01", title="Exactly the lines of the active branches are processed",
  statement="For every nesting and order of #ifdef, #ifndef, #if, #else and #endif, exactly the lines whose branches all hold are output and only their directives take effect; conditions are decided by the definitions in force at that line. A second #else, one without an #if, and a conditional still open at the end of the file are errors at their line, as are operands and operators that #if does not support.",
  over=["inputs"], for_all="all sequences of up to 5-8 lines over the directives, all nestings of up to 7-9 lines, all operand x operator x line end combinations of #if",
  why="Tests hold a handful of files; #else in a nested inactive branch was wrong.",
  files=["libs/preprocessor/src/ifstate.rs","libs/preprocessor/src/processor/directives.rs"],
  mech=[("stack of conditionals","libs/preprocessor/src/ifstate.rs IfStates"),("evaluation of #if","libs/preprocessor/src/processor/directives.rs directive_if")],
  state=[("IfStates","which of the enclosing branches are active","libs/preprocessor/src/ifstate.rs")],
  obs=["Processor::run","Processed::as_str","Processed::warnings"], technique=T, note="reference stack machine as oracle; bounded length, stray #endif is ignored by design"),
 dict(id="C02", title="Macros expand to what their definitions give",
  statement="Every use of a macro expands to its definition in force with its arguments substituted, quoted by # and joined by ##, nested to any depth; names in strings and names of other words are untouched, and a macro is not expanded within itself. Wrong argument counts, missing arguments and unclosed calls are errors; redefinition warns. Every character of the expansion maps to the line of the call.",
  over=["inputs","histories"], for_all="all definitions of two object and two function macros with bodies over the token alphabet x 14 uses, all object macro bodies, all argument pairs, all sequences of up to 5-6 define/undef/use lines",
  why="Tests hold some dozen macros; recursion, empty last arguments and unclosed calls were wrong or crashed.",
  files=["libs/preprocessor/src/processor/defines.rs","libs/preprocessor/src/defines.rs"],
  mech=[("expansion","libs/preprocessor/src/processor/defines.rs define_use, call_read_args, walk_definition"),("table with scopes","libs/preprocessor/src/defines.rs Defines")],
  state=[("Defines","definitions in force: global and per expansion","libs/preprocessor/src/defines.rs")],
  obs=["Processor::run","Processed::as_str","Processed::mapping"], technique=T, note="recursive expander over items as oracle; token alphabet bounded; body lengths 1-3"),
 dict(id="C03", title="Includes, built-in macros and pragmas act where they stand",
  statement="Every #include is replaced by the processed content of exactly the file its relative or absolute path names, with definitions carried through in order, however files include one another; missing files and includes without end are errors. Built-in macros give the file, line and running counter of their place, directives are recognised with any white space and comments around them, and suppress and flag pragmas silence exactly the warnings of their line, file or configuration.",
  over=["inputs","histories"], for_all="all triples of files with up to 3, 2 and 2-3 lines over include, define, guard and use lines; all sequences of built-ins; include chains of every length up to 70-140; all directives x white space and comments; all pragma sequences up to 5-6 lines",
  why="Tests hold a few include trees; circular includes crashed, pragma flags leaked to later lines.",
  files=["libs/preprocessor/src/processor/mod.rs","libs/preprocessor/src/processor/directives.rs","libs/preprocessor/src/processor/pragma.rs","libs/preprocessor/src/defines.rs"],
  mech=[("file stack","libs/preprocessor/src/processor/mod.rs Processor"),("pragma scopes","libs/preprocessor/src/processor/pragma.rs Pragma"),("built-ins","libs/preprocessor/src/defines.rs get_with_gen")],
  state=[("Pragma","what is suppressed and flagged per scope","libs/preprocessor/src/processor/pragma.rs"),("counter","__COUNTER__","libs/preprocessor/src/defines.rs")],
  obs=["Processor::run","Processed::{as_str,warnings,mapping}"], technique=T, note="reference includer as oracle; in-memory projects; bounded"),
 dict(id="C04", title="Text passes through the preprocessor unchanged and traceable",
  statement="Text outside of directives and macros comes out unchanged: only comments disappear and escaped line ends are joined, strings keep everything, in any language. Every output character is mapped to the file, line, column and byte range in the source that holds the token it came from.",
  over=["inputs"], for_all="all texts of up to 6-7 characters over nine significant ones, of up to 7-8 delimiters, of up to 4-5 other tokens, and all sequences of 4-5 multi-line pieces with macros",
  why="Tests compare few files; comment starts in strings and line comments swallowed text.",
  files=["libs/preprocessor/src/parse/mod.rs","libs/workspace/src/reporting/processed.rs","libs/workspace/src/reporting/output.rs"],
  mech=[("tokenizer","libs/preprocessor/src/parse/mod.rs"),("source mapping","libs/workspace/src/reporting/processed.rs Processed::new")],
  obs=["Processor::run","Processed::{as_str,mapping,source}"], technique=T, note="character machine as oracle; bounded"),
 dict(id="C05", title="The preprocessor terminates with a result or a presentable error",
  statement="On every input the preprocessor ends without a crash, gives the same output and the same findings when run again, and every error and warning it reports can be rendered. Every character of a successful output has a mapping.",
  over=["inputs"], for_all="all sequences of up to 4-6 tokens, of up to 4-5 directive parts, all macro bodies of up to 3-4 tokens in two roles x five uses, every prefix and single edit of a file using every construct",
  why="Tests hold one input per error code; unclosed calls and directives at the end of a file crashed.",
  files=["libs/preprocessor/src/processor/mod.rs","libs/preprocessor/src/processor/defines.rs","libs/preprocessor/src/processor/directives.rs","libs/preprocessor/src/processor/whitespace.rs"],
  mech=[("entry","libs/preprocessor/src/processor/mod.rs Processor::run"),("codes","libs/preprocessor/src/error.rs")],
  obs=["Processor::run","Code::diagnostic","Diagnostic::{to_string,to_annotations}"], technique=T, note="no oracle beyond termination, determinism and rendering; bounded"),

 dict(id="E01", title="Versions are parsed, ordered, written and determined consistently",
  statement="Every version has one textual form that is parsed back to the same version, everything outside the grammar is refused, and versions are totally ordered by major, minor, patch and build. The version of a project is exactly the one its configuration or its macro file gives, with the requested number of digits of the commit hash, and contradictory or incomplete settings are refused.",
  over=["inputs"], for_all="all component, build and hash combinations of the grid, all strings over the token alphabet up to the bound, all pairs of versions, all macro file layouts and all combinations of version settings and hash lengths",
  why="Tests parse a dozen strings and compare a few pairs.",
  files=["libs/common/src/version.rs","libs/common/src/config/project/version.rs"],
  mech=[("parser and ordering","libs/common/src/version.rs"),("choice of the source of the version","libs/common/src/config/project/version.rs VersionConfig::get")],
  obs=["Version::{try_from,try_from_script_version,partial_cmp,from}","VersionConfig::get"],
  technique=T, note="string length 6-7 over 9 tokens, full products elsewhere; bounded"),
 dict(id="E02", title="Prefix files give the prefix they state or are refused",
  statement="Every prefix file in either form gives exactly the prefix it states, independent of spacing, line endings and other properties. Prefixes that are empty, absolute or use forward slashes are refused. Writing the prefix out gives a file that is read as the same prefix.",
  over=["inputs"], for_all="all strings over the token alphabet up to the bound and all sequences of up to 4-5 lines of nine kinds",
  why="Tests read six files.", files=["libs/common/src/prefix.rs"], mech=[("parser","libs/common/src/prefix.rs Prefix::new")],
  obs=["Prefix::{new,main_prefix,mod_prefix,as_pathbuf,into_inner}"], technique=T, note="independent parser as oracle; bounded"),
 dict(id="E03", title="Project and addon configuration is read as written with documented defaults",
  statement="For every combination of settings, each setting that is given takes effect, each one left out has its documented default, and deprecated spellings add to the current ones. Invalid values and truncated files give an error, never a crash.",
  over=["inputs"], for_all="the full product of the settings of release, build, check, dev, signing, files, properties and addon sections, and every prefix of a full file",
  why="Each setting is tested alone, fully given or fully absent.",
  files=["libs/common/src/config/project/mod.rs","libs/common/src/config/project/files.rs","libs/common/src/config/project/signing.rs","libs/common/src/config/project/hemtt/release.rs","libs/common/src/config/addon/mod.rs","libs/common/src/config/pdrive.rs"],
  mech=[("conversion of the file into the configuration","libs/common/src/config/project/mod.rs"),("merge of deprecated settings","libs/common/src/config/addon/mod.rs")],
  obs=["ProjectConfig::from_file","AddonConfig::from_file"], technique=T, note="through real files in a scratch directory; bounded"),
 dict(id="E04", title="Launch presets inherit and combine as configured",
  statement="A preset that extends others has its own settings over those of its parent, its parent's over the grandparent's and so on, with lists joined without duplicates; presets laid over one another combine the same way. A circle or a missing parent is reported as an error. Settings may be in project.toml or in their own file with the same meaning, not in both.",
  over=["inputs","histories"], for_all="all inheritance graphs over up to 4-5 presets x contents x both places, all overlay sequences up to the bound, all combinations of places",
  why="Tests have one chain of length two; a longer circle hung the program.",
  files=["libs/common/src/config/project/hemtt/mod.rs","libs/common/src/config/project/hemtt/launch.rs","libs/common/src/config/project/mod.rs"],
  mech=[("extends loop","libs/common/src/config/project/hemtt/mod.rs HemttSectionFile::into_config"),("overlay","libs/common/src/config/project/hemtt/launch.rs LaunchOptions::overlay")],
  obs=["ProjectConfig::from_file","LaunchOptions::overlay"], technique=T, note="reference resolver as oracle; bounded"),
 dict(id="E05", title="Lint settings change exactly what they mention",
  statement="However a lint setting is written and wherever it is placed, applying it to a lint's defaults changes exactly the enabled flag, severity and options it gives and nothing else, and it lands in the group it was given for. Values of the wrong type are refused.",
  over=["inputs"], for_all="all forms of a setting x group x place x defaults",
  why="Tests cover four forms without defaults.",
  files=["libs/common/src/config/project/lint.rs","libs/common/src/config/project/mod.rs"],
  mech=[("override","libs/common/src/config/project/lint.rs LintConfigOverride::apply")],
  obs=["ProjectConfig::lints","LintConfigOverride::apply"], technique=T, note="full product; bounded option names"),
 dict(id="E06", title="Primitive encodings of the binary formats are exact",
  statement="Every compressed integer is written as the format prescribes with the predicted length and read back, and truncated or oversized ones are refused. Every string is written with its terminator and read back without touching what follows it.",
  over=["inputs"], for_all="all values up to 2^21 (2^26 thorough) and around every power of two, all byte strings over the significant values up to 5-6 bytes",
  why="Tests cover values below 2^20 and no malformed encoding.",
  files=["libs/common/src/io.rs"], mech=[("encoding","libs/common/src/io.rs WriteExt")],
  obs=["ReadExt::{read_compressed_int,read_cstring}","WriteExt::{write_compressed_int,write_cstring}","compressed_int_len"], technique=T, note="reference encoding as oracle"),
 dict(id="E07", title="Expressions and text helpers compute what they promise",
  statement="Every arithmetic expression has the value its operators' precedence and associativity give, and anything else is refused. Case-insensitive stripping, closest-name suggestions, DLC names, the file types covered by each signature version and the control messages between the game and the tool are exact for every input.",
  over=["inputs"], for_all="all token sequences up to 5-6 tokens, all operator chains up to 4-5 operators with one parenthesised range and signs, all strings over the alphabets up to the bound",
  why="Tests evaluate some thirty expressions; malformed and signed ones are hardly covered.",
  files=["libs/common/src/math.rs","libs/common/src/strip.rs","libs/common/src/lib.rs","libs/common/src/arma/dlc.rs","libs/common/src/arma/control.rs","libs/common/src/sign_version.rs"],
  mech=[("shunting yard","libs/common/src/math.rs")], obs=["math::eval","StripInsensitive","similar_values","DLC","BISignVersion::should_hash_file","control messages"],
  technique=T, note="recursive descent evaluator as oracle; a sign before a parenthesis is left open"),

 dict(id="F01", title="References are resolved to exactly the file they name",
  statement="A reference in a project, relative, absolute or through a prefix, in either slash and any letter case where the disk allows, is resolved to exactly the file the innermost matching prefix and the layers of the workspace give, or to none. A case that differs from the disk is reported with the name on disk. The virtual name of a file leads back to it.",
  over=["inputs"], for_all="all sets of project files x layouts of prefixes (separate, nested, wrong case, absent) x 25 references from three places; all name shapes of up to four parts; all distributions over layers; all spellings",
  why="Tests resolve a few relative includes; prefixes within one another were resolved depending on the order of a hash map.",
  files=["libs/workspace/src/path.rs","libs/workspace/src/lib.rs"],
  mech=[("resolution","libs/workspace/src/path.rs WorkspacePath::locate, locate_with_pdrive"),("prefix table","libs/workspace/src/lib.rs Workspace::discover")],
  state=[("pointers","prefix to directory","libs/workspace/src/lib.rs Workspace")],
  obs=["WorkspacePath::{locate,join,exists,as_virtual_str,with_extension,read_to_string}"], technique=T, note="reference resolver over path strings as oracle; in-memory and real case-sensitive file systems; the P drive (a Windows installation) is outside"),
 dict(id="F02", title="Exactly the addons and prefixes of a project are discovered",
  statement="For every layout of files in the project, exactly its addons, configurations, missions and prefixes are discovered, each with its settings, and an addon that is incomplete, duplicated in another letter case or location, or has an invalid prefix or configuration is refused with an error that names it.",
  over=["inputs"], for_all="all subsets of 12 project files (quick: up to 7), and all one to three addon directories over two locations, four names and eight kinds of content on disk",
  why="Tests scan a fixture project.",
  files=["libs/workspace/src/lib.rs","libs/workspace/src/addons.rs"],
  mech=[("discovery","libs/workspace/src/lib.rs Workspace::discover"),("addon scan","libs/workspace/src/addons.rs Addon::scan")],
  obs=["Workspace::{addons,missions}","Addon::scan"], technique=T, note="set model of the layout as oracle; bounded"),
 dict(id="F03", title="Diagnostics point at the place they are about",
  statement="For every span of a source file or of its processed output, the rendered diagnostic and its annotation name the file, line and column that hold the first character of the span, for empty files, ends of files, spans across files and text in any language. Rendering never crashes.",
  over=["inputs"], for_all="all contents of up to 6-7 characters x all spans; all sources of up to 5-6 pieces with macros, comments and includes x all spans of the output",
  why="Tests snapshot a few diagnostics; the end of a file, an empty file, and spans that cross files crashed or pointed elsewhere.",
  files=["libs/workspace/src/reporting/files.rs","libs/workspace/src/reporting/diagnostic/mod.rs","libs/workspace/src/reporting/processed.rs"],
  mech=[("line table","libs/workspace/src/reporting/files.rs WorkspaceFiles"),("mapping of processed spans","libs/workspace/src/reporting/diagnostic/mod.rs Diagnostic::from_code_processed")],
  obs=["Diagnostic::{to_string,to_annotations,from_code_processed}"], technique=T, note="line and column counted independently as oracle; bounded"),
 dict(id="F04", title="Lints run exactly as configured",
  statement="A lint runs on a target exactly if it is enabled by its default or its settings and has a runner for that kind of target, with the severity its settings give, alone and in groups. A setting below the minimum severity of a lint, or for a lint that does not allow it, is refused.",
  over=["inputs"], for_all="all pairs of lints over default severity x minimum x enabled x override, one alone and both in a group",
  why="Tests run lints with default settings.",
  files=["libs/workspace/src/lint/mod.rs"],
  mech=[("selection","libs/workspace/src/lint/mod.rs LintManager::run"),("validation","libs/workspace/src/lint/mod.rs LintManager::push")],
  obs=["LintManager::{push,push_group,run}"], technique=T, note="table oracle; full product"),

 dict(id="D01", title="A config is binarized to exactly the classes and entries it holds",
  statement="The binary form of every valid config, read by an independent reader of the format, holds the same tree of classes, parents, external and deleted classes, entries, arrays and texts in the same order, with every count, length and offset right. White space, line ends and comments between tokens make no difference.",
  over=["inputs"], for_all="all trees of entries and classes up to the bound, every count and length around the borders of its encoding at every place, every gap between tokens x kind of white space",
  why="Tests binarize a few configs and compare with the library's own reader or stored bytes; offsets and compressed counts change at borders no example visits.",
  files=["libs/config/src/rapify/class.rs","libs/config/src/rapify/mod.rs","libs/config/src/rapify/config.rs","libs/config/src/rapify/property.rs","libs/config/src/rapify/array.rs","libs/config/src/parse/property.rs"],
  mech=[("body offsets and sizes","libs/config/src/rapify/class.rs"),("compressed counts","libs/config/src/rapify/mod.rs"),("class and entry syntax","libs/config/src/parse/property.rs")],
  obs=["hemtt_config::parse","Rapify::rapify"], technique=T, note="independent reader of the binary format and independent renderer of the tree; every tree of up to 6 (thorough 7) tokens; sizes 0..3, 126..130, 254..258, 16383..16386 and others"),
 dict(id="D02", title="Values in a config keep their meaning",
  statement="Every number, expression, text and __EVAL in a config is stored as exactly what it says: numbers with all their digits and as integer or float as written, expressions with the usual precedence, texts with every character, doubled quote and joined line. What is no number, expression or text is reported, never a crash or another value.",
  over=["inputs"], for_all="all significant numbers x surroundings x places, all sequences of expression tokens up to the bound, all pairs of significant operands and operators, all texts over the significant characters, all sequences of brackets after __EVAL",
  why="Tests parse a few values; digits lost in a float, a result outside of 64 bits or a quote at the end of a joined segment are not among them.",
  files=["libs/config/src/parse/value.rs","libs/config/src/parse/number.rs","libs/config/src/parse/str.rs","libs/config/src/model/number.rs","libs/config/src/rapify/number.rs"],
  mech=[("numbers and expressions","libs/config/src/parse/value.rs math"),("evaluation","libs/config/src/model/number.rs Number::try_evaulation"),("texts","libs/config/src/parse/str.rs")],
  obs=["hemtt_config::parse","Rapify::rapify"], technique=T, note="independent evaluator; 2.2 million values (quick)"),
 dict(id="D03", title="Exactly the valid configs are accepted, the others are reported and shown",
  statement="For every text the parser gives a config, if it is one, that means what the text says, and otherwise errors that can be shown. It never crashes and ends in reasonable time, also on deeply nested and broken input.",
  over=["inputs"], for_all="all sequences of config tokens up to the bound at the top and inside of classes, every replacement and insertion of every token in a config with every construct, all nestings up to the bound, complete and broken",
  why="Tests parse valid configs and one example per mistake.",
  files=["libs/config/src/parse/mod.rs","libs/config/src/parse/property.rs","libs/config/src/parse/array.rs","libs/config/src/parse/value.rs","libs/config/src/lib.rs","libs/config/src/analyze/chumsky.rs"],
  mech=[("error recovery","libs/config/src/parse/property.rs"),("parse errors as diagnostics","libs/config/src/analyze/chumsky.rs")],
  obs=["hemtt_config::parse","Code::diagnostic"], technique=T, note="hand-written reference parser; where recovery decides between two mistakes only that one is reported is required"),
 dict(id="D04", title="Mistakes in a config are each reported once, at their place, the same every time",
  statement="Every duplicate class or property, unknown or differently spelled parent, missing semicolon or brace, wrong or invalid value and missing magazine in a config is reported exactly once with its code, at its own place in the file it stands in and with the other places involved; nothing else is reported. The result does not change from run to run, also when names and values come from macros and included files.",
  over=["inputs"], for_all="all trees of classes, entries and mistakes up to the bound over names that differ in case x what stands before them x layout, all tuples of mistakes out of macros and includes, all sets of magazines x lists of wells",
  why="Tests show one example per lint in one file without anything before it; the order came out of hash maps and places mixed processed and original offsets.",
  files=["libs/config/src/analyze/mod.rs","libs/config/src/analyze/lints/c02_duplicate_property.rs","libs/config/src/analyze/lints/c03_duplicate_classes.rs","libs/config/src/analyze/lints/c04_external_missing.rs","libs/config/src/analyze/lints/c05_external_parent_case.rs","libs/config/src/analyze/lints/c08_missing_semicolon.rs","libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs"],
  mech=[("duplicates","libs/config/src/analyze/lints/c02_duplicate_property.rs"),("parents in scope","libs/config/src/analyze/lints/c04_external_missing.rs"),("magazines of the project","libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs")],
  obs=["hemtt_config::parse","ConfigReport::codes","Code::diagnostic"], technique=T, note="independent model of the lints over the tree; the severity of L-C05 is a known finding"),
 dict(id="D05", title="The patches of a config and the highest required version are found",
  statement="For every config, exactly the classes directly inside CfgPatches, in any letter case, are reported as patches, each with its required version as written, and the highest one is given with its patch.",
  over=["inputs"], for_all="all lists of patches up to the bound over the ways to write a required version x the class they stand in",
  why="One test reads one patch.",
  files=["libs/config/src/model/config.rs","libs/config/src/analyze/cfgpatch.rs","libs/config/src/lib.rs"],
  mech=[("patches","libs/config/src/model/config.rs Config::get_patches"),("highest version","libs/config/src/lib.rs ConfigReport::required_version")],
  obs=["ConfigReport::{patches,required_version}"], technique=T, note="every list of up to 3 (thorough 4) of fifteen patches x five outer classes"),

 dict(id="G01", title="Sorting a stringtable keeps every text and every name",
  statement="After a stringtable is sorted and written, every text of every language and every name and ID is exactly what it was: white space, line ends, entities, quotes and CDATA included. What is written is well-formed, and sorting it again changes nothing.",
  over=["inputs"], for_all="all sequences of significant pieces up to the bound as a text, alone and within another, and as the name of a project, package, container and key in both kinds of quotes",
  why="Tests compare three files with stored output; an entity in an ID or a space at the end of a text is in none of them.",
  files=["libs/stringtable/src/lib.rs","libs/stringtable/src/key.rs","libs/stringtable/src/package.rs","libs/stringtable/src/comments.rs"],
  mech=[("reading","libs/stringtable/src/lib.rs Project::from_reader"),("writing","libs/stringtable/src/lib.rs Project::to_writer"),("escaping","libs/stringtable/src/key.rs min_escape")],
  obs=["Project::{from_reader,sort,to_writer}"], technique=T, note="independent XML reader as oracle; every sequence of up to 4 (thorough 5) of 19 pieces"),
 dict(id="G02", title="A sorted stringtable is in order at every level and complete",
  statement="After sorting, packages, containers and keys are ordered by name at every depth and the languages of each key follow the table of the format, in any spelling they are read in; nothing is lost, repeated or moved into another element. Without names only the languages are ordered.",
  over=["inputs"], for_all="all trees of keys and containers up to the bound in one to three packages x white space, all ordered choices of up to four languages in three spellings and three forms, all languages in every rotation",
  why="Tests sort three files.",
  files=["libs/stringtable/src/lib.rs","libs/stringtable/src/package.rs","libs/stringtable/src/key.rs"],
  mech=[("order of packages","libs/stringtable/src/lib.rs Project::sort"),("order within","libs/stringtable/src/package.rs Package::sort"),("languages","libs/stringtable/src/key.rs Key")],
  obs=["Project::{from_reader,sort,to_writer}"], technique=T, note="independent XML reader and sort as oracle"),
 dict(id="G03", title="Every comment of a stringtable stays with what it was written for",
  statement="Sorting keeps every comment exactly once, unchanged, before the element it stood before, behind on the line of, or within, or at the end of the element it stood at the end of, wherever that is moved to and however the file is laid out.",
  over=["inputs"], for_all="every comment of six kinds at every place, every two comments at every two places, the same comment at every two or three places x layouts, in a stringtable with repeated IDs, containers and empty elements",
  why="Tests have comments on lines of their own before unique elements.",
  files=["libs/stringtable/src/lib.rs","libs/stringtable/src/comments.rs"],
  mech=[("where a comment belongs","libs/stringtable/src/comments.rs separate"),("putting it back","libs/stringtable/src/comments.rs restore")],
  obs=["Project::{from_reader,sort,to_writer}"], technique=T, note="independent XML reader as oracle"),
 dict(id="G04", title="Coverage counts every string, the lint reports exactly unsorted stringtables",
  statement="For every stringtable the totals count each key and each language of it once, through all containers and packages. The lint reports exactly the files that sorting with the same options would change, with the severity that is set, and none when it is disabled.",
  over=["inputs"], for_all="all trees of packages, containers and keys up to the bound with no, some and all languages, all pairs of languages in three spellings, all lists of up to five files x six settings",
  why="No test covers totals or the lint.",
  files=["libs/stringtable/src/totals.rs","libs/stringtable/src/package.rs","libs/stringtable/src/analyze/lints/01_sorted.rs","libs/stringtable/src/analyze/mod.rs"],
  mech=[("totals","libs/stringtable/src/package.rs Package::totals"),("merging","libs/stringtable/src/totals.rs Totals::merge"),("lint","libs/stringtable/src/analyze/lints/01_sorted.rs Runner::run")],
  obs=["Package::{totals,keys,containers}","Totals::merge","lint_all","lint_one"], technique=T, note="independent XML reader as oracle"),
 dict(id="G05", title="A stringtable that can not be read is refused, not damaged",
  statement="For every text, reading a stringtable gives either an error or a stringtable that says everything the text says, so that sorting never writes less than there was. It never crashes.",
  over=["inputs"], for_all="every sequence of tokens up to the bound in four surroundings, every cut of a stringtable with every construct, every replacement and insertion of a significant piece at every place",
  why="Tests read valid files only.",
  files=["libs/stringtable/src/lib.rs","libs/stringtable/src/comments.rs","libs/stringtable/src/key.rs"],
  mech=[("reading","libs/stringtable/src/lib.rs Project::from_reader")],
  obs=["Project::{from_reader,to_writer}"], technique=T, note="strict independent XML reader as oracle; elements and attributes outside of the format are a known finding"),

 dict(id="A05", title="Failing input and output never ends in a wrong result",
  statement="Whatever operation of reading or writing an archive, key, signature, texture, model, config, stringtable or project fails, and however, the result is an error or the complete right outcome: never a crash and never silently less. What a failed write leaves is a beginning of the right file, and short and interrupted operations change nothing.",
  over=["fault_sequences","inputs"], for_all="every operation of every scenario x every way to fail (once, for good, interrupted, full, half done), every pair of early operations, every file system operation of a project, every change of an input's size",
  why="No test makes an operation fail; which one fails, and how, is open.",
  files=["libs/pbo/src/write.rs","libs/pbo/src/read.rs","libs/p3d/src/lib.rs","libs/p3d/src/lod.rs","libs/paa/src/lib.rs","libs/common/src/io.rs","libs/signing/src/lib.rs","libs/workspace/src/path.rs"],
  mech=[("streaming files into an archive","libs/pbo/src/write.rs WritablePbo::write"),("hashing an archive","libs/pbo/src/read.rs ReadablePbo"),("reading a model","libs/p3d/src/lod.rs LOD::read"),("primitives","libs/common/src/io.rs")],
  obs=["results and output of every reader and writer over failing streams and file systems"], level="fault_enumeration",
  technique="exhaustive fault injection on the real code: every operation of a scenario x every kind of failure, the outcome compared with the run without faults", note="the first 400 (thorough 4000) operations of each scenario; leaving out files of a project that can not be read is what the code means to do and not part of this"),

 dict(id="X01", title="An SQF script is read as the language says",
  statement="For every text, the parser gives the tree that the precedence and associativity of SQF's operators, commands, assignments, arrays and code prescribe, every part at its place, if it is a script; and otherwise an error that can be shown. Numbers and texts have the value they are written with.",
  over=["inputs"], for_all="all sequences of tokens of every kind up to the bound, all sequences of brackets and separators, all sequences of three operators with unary operators and parentheses at every place, all texts of significant characters, all forms of numbers",
  why="Tests parse a dozen scripts.",
  files=["libs/sqf/src/parser/mod.rs","libs/sqf/src/parser/lexer.rs","libs/sqf/src/parser/database/mod.rs"],
  mech=[("tokens","libs/sqf/src/parser/lexer.rs"),("grammar","libs/sqf/src/parser/mod.rs statements")],
  obs=["hemtt_sqf::parser::run","Code::diagnostic"], technique=T, note="hand-written tokenizer and parser as oracle; a name that is a nular and a unary command at once is not covered; the command list is a stand-in (no network)"),
 dict(id="X02", title="A compiled SQF script is the script",
  statement="The compiled form of every script is well formed and, read back, has exactly the script's statements; every instruction carries the byte, file and line it stands at, and every block of code the text it was written with. What does not fit the format is refused with an error.",
  over=["inputs"], for_all="all expressions up to the bound as statements and assignments, over lines, macros, included files and text beyond ASCII, all scripts of up to the bound of tokens, sizes around every limit of the format",
  why="Tests print the instructions of a dozen scripts; none reads the bytes back.",
  files=["libs/sqf/src/compiler/mod.rs","libs/sqf/src/compiler/serializer/mod.rs"],
  mech=[("instructions and constants","libs/sqf/src/compiler/mod.rs"),("bytes","libs/sqf/src/compiler/serializer/mod.rs Compiled::serialize")],
  obs=["Statements::compile_to_writer"], technique=T, note="independent decoder and decompiler of SQFC as oracle"),
 dict(id="X03", title="Optimizing a script does not change what it does",
  statement="For every script the optimized, compiled form has the same effects as the script as it is written, in every run: the same values in the same variables, the same order of effects, and nothing shared between runs or places that the script makes anew.",
  over=["inputs","histories"], for_all="all sequences of statements that make, hand on, keep and change arrays up to the bound, run twice, as functions and in branches; every operator and unary command on values of every kind, nested",
  why="Tests compare the optimized tree of four scripts with stored output and run none.",
  files=["libs/sqf/src/compiler/optimizer/mod.rs","libs/sqf/src/compiler/mod.rs"],
  mech=[("folding and shared arrays","libs/sqf/src/compiler/optimizer/mod.rs Expression::optimize"),("constants","libs/sqf/src/compiler/mod.rs Context::add_constant")],
  obs=["Statements::optimize","Statements::compile_to_writer"], technique="explicit exploration of all statement sequences up to the bound, each executed twice by an interpreter of the source and by an interpreter of the compiled bytes whose states are compared after every run", note="the interpreter models the commands that the optimizer knows and those that change arrays; values are compared bit by bit"),

 dict(id="X04", title="A build leaves exactly the files that the project describes",
  statement="For every project and command, the output folder and the release archives hold exactly one PBO per addon that the command covers, named and prefixed as configured, whose files are those of the addon less the excluded and hidden ones with configs and scripts replaced by their compiled forms, plus the project's included files. Version, properties, signatures and keys are the configured ones, and nothing else appears. The author's files are left untouched.",
  over=["inputs","configurations","programs"], for_all="all combinations up to the bound of addon contents (13 shapes), names, places, project settings (8 variants), and 13 commands",
  why="Tests run two sample projects and look at none of the outputs.",
  files=["bin/src/commands/build.rs","bin/src/commands/dev.rs","bin/src/commands/release.rs","bin/src/modules/pbo.rs","bin/src/modules/files.rs","bin/src/modules/archive.rs","bin/src/modules/sign.rs","bin/src/modules/rapifier.rs","bin/src/context.rs","libs/workspace/src/addons.rs","libs/common/src/config/project/mod.rs"],
  mech=[("packing","bin/src/modules/pbo.rs build"),("included files","bin/src/modules/files.rs"),("archives","bin/src/modules/archive.rs"),("names and prefixes","libs/workspace/src/addons.rs Addon::scan")],
  state=[("output folder and releases","what a command leaves","bin/src/context.rs Context::build_folder")],
  obs=["hemtt build, dev, release, check: the output folder, the archives, the exit code"], technique="explicit enumeration of projects, settings and commands up to the bound; every state of the file system that the real command line leaves is compared with a model of the documentation, archives being read by an independent parser", note="compiled files are compared with what the compilers, which other properties check, give for the same source; run as an unprivileged user"),
 dict(id="X05", title="A command fails exactly if the project has a defect it looks at, and says so",
  statement="A command fails if and only if a part of the project that it looks at has a defect, and what it prints names the defect and its place. What fails before packing leaves no archives, signatures or releases behind, and releases made earlier stay as they were. No defect makes it crash or hang, and the author's files are never changed.",
  over=["inputs","configurations","fault_sequences"], for_all="all of 61 kinds of defects alone with each of 13 commands, and all pairs of them",
  why="Tests of the command line cover projects that build; failing ones are only tested per library.",
  files=["bin/src/executor.rs","bin/src/report.rs","bin/src/lib.rs","bin/src/modules/sqf.rs","bin/src/modules/rapifier.rs","bin/src/modules/hook/mod.rs","libs/workspace/src/addons.rs","libs/sqf/src/analyze/lints/s01_command_required_version.rs"],
  mech=[("stages and stopping at the first failing one","bin/src/executor.rs Executor::run"),("exit code","bin/src/lib.rs execute")],
  obs=["exit code, output, output folder and releases of every command"], technique="explicit enumeration of defects, pairs of defects and commands; each execution of the real command line is compared with a model of which commands look at which part", note="which of several defects is told when there are more is left open, only that one of them is"),
 dict(id="X07", title="Hook and script file functions act like a file system",
  statement="Every sequence of file operations of a hook or script, on the project's virtual file system or on the real one, has the effect that a plain model of files and folders has: the same listings, contents, existence answers and failures. Operations on the virtual file system change what is built but never the author's files.",
  over=["histories","inputs"], for_all="all sequences of operations up to the bound from a start with files, folders and nested folders, with every operation also refused where the model refuses it",
  why="No test runs a file operation of a script.",
  files=["bin/src/modules/hook/libraries/vfs/path.rs","bin/src/modules/hook/libraries/rfs/path.rs","bin/src/modules/hook/libraries/hemtt.rs"],
  mech=[("virtual operations","bin/src/modules/hook/libraries/vfs"),("real operations","bin/src/modules/hook/libraries/rfs")],
  obs=["what scripts print after every operation, the project afterwards"], technique="explicit exploration of all operation sequences up to the bound through the real command line, comparing the complete state after every operation with a model", note="removing a virtual folder that is not empty is left open, as the documentation does not say"),
 dict(id="X06", title="What a command builds depends on the project only, not on earlier commands",
  statement="Whatever sequence of edits and commands came before, a command leaves the same outputs, archives and exit code as in a fresh copy of the project as it is now: nothing left over from an earlier command, a removed file or an older setting appears, and nothing is missing. Outputs of other modes, old releases and the author's files stay.",
  over=["histories","configurations"], for_all="all sequences up to the bound of an edit of sources, settings, folders or left-over output followed by a command, for every command that builds",
  why="Tests run every command once in a fresh copy.",
  files=["bin/src/context.rs","bin/src/modules/pbo.rs","bin/src/modules/binarize/mod.rs","bin/src/modules/archive.rs","bin/src/modules/sign.rs","bin/src/modules/files.rs"],
  mech=[("cleaning of output and temporary folders","bin/src/context.rs Context::new"),("order of everything that is written","bin/src/modules/pbo.rs")],
  obs=["the output folder, the release archives and the exit code after every command"], technique="explicit exploration of all histories of edits and commands up to the bound through the real command line, comparing every state with that of a fresh project", note="two edit-command steps over 30 x 10 (quick, selected pairs), three steps on a smaller alphabet; keys are random, so signatures are verified instead of compared"),
 dict(id="X08", title="Hooks run in order, see the project as it is, and change what they say",
  statement="The scripts of a phase run once each in the order of their names, at the phase's place in each command, and see the mode, version, name, folders and outputs of the project as they are then. A version they set and the files they change before the build are what is built; what they write to the real folders stays; a script that fails or can not be read fails the command and nothing later runs.",
  over=["configurations","histories","programs"], for_all="all combinations up to the bound of script sets per phase and command, version changes, file edits and ways to end, and scripts run alone",
  why="No test runs a hook that does something.",
  files=["bin/src/modules/hook/mod.rs","bin/src/modules/hook/libraries/hemtt.rs","bin/src/modules/hook/libraries/project.rs","bin/src/executor.rs"],
  mech=[("running the scripts of a phase","bin/src/modules/hook/mod.rs Hooks::run_folder"),("order of phases and modules","bin/src/executor.rs Executor::run")],
  obs=["what every script records, the outputs, the sources afterwards and the exit code"], technique="explicit exploration of all combinations of scripts, phases and commands up to the bound through the real command line, against a reference model of the phases", note="bounded; scripts record what they see in a file of the real file system"),
 dict(id="X09", title="Localization reports count every key, and sorting keeps every text",
  statement="The coverage report has exactly the languages that some key has, with the exact share of keys and the exact set of addons with gaps. Sorting puts packages, containers and keys in order of their names and languages in their fixed order, loses and changes no text, attribute or key, touches no other file, and sorting again changes nothing.",
  over=["inputs","configurations"], for_all="all tables up to the bound of keys, packages and containers with all sets of texts from the alphabet, every pair of languages, and all combinations of tables over addons, nested folders and broken tables",
  why="Tests sort one table and look at no report.",
  files=["bin/src/commands/localization/coverage.rs","bin/src/commands/localization/sort.rs","libs/stringtable/src/lib.rs","libs/stringtable/src/totals.rs"],
  mech=[("counting of languages","libs/stringtable/src/totals.rs"),("sorting and writing","libs/stringtable/src/lib.rs Project::sort")],
  obs=["the JSON report and all files of the project before and after"], technique="explicit enumeration of tables and projects through the real command line, against a reference model of the report and the sorted table", note="bounded; the order of addons in a list of gaps is left open"),
 dict(id="X10", title="The archive and value tools show what is there and stay in their folder",
  statement="Unpacking and extracting give exactly the stored files, never write outside the folder or file that was asked for and never overwrite an existing one, whatever names an archive has. Inspecting lists exactly the stored files, sizes, properties and checksum, verifying accepts every archive of a release with its key and none that was changed, and every project value is printed as the project says.",
  over=["inputs","configurations"], for_all="all entry names up to three components of normal, parent, current, empty and absolute parts with both separators, pairs of them, all release outputs up to the bound, and all combinations of project values in the alphabet",
  why="Tests of these tools inspect a few fixture files, none unpacks.",
  files=["bin/src/utils/pbo/unpack.rs","bin/src/utils/pbo/extract.rs","bin/src/utils/pbo/inspect.rs","bin/src/utils/verify.rs","bin/src/commands/value.rs"],
  mech=[("path of an unpacked file","bin/src/utils/pbo/unpack.rs execute"),("values","bin/src/commands/value.rs execute")],
  obs=["exit code, printed text and every file within and around the scratch folder"], technique="explicit enumeration of archives and projects through the real command line, against an independent reader", note="bounded; each run is an unprivileged user's, in a scratch folder whose surroundings are compared as well"),
 dict(id="X11", title="Fixing the letter case of commands touches nothing but commands in code",
  statement="For every script text the tool writes each command in code as the command reference does and leaves everything else byte for byte: strings in both kinds of quotes, comments, other words, other files. Running it again changes nothing but what it was free to leave.",
  over=["inputs"], for_all="all sequences up to the bound of commands, quotes, comment signs, brackets, line ends and other text, as folders and as single files",
  why="No test covers the tool.",
  files=["bin/src/utils/sqf/case.rs"],
  mech=[("scanner for strings, comments and macro arguments","bin/src/utils/sqf/case.rs file")],
  obs=["all files before and after"], technique="explicit enumeration of texts through the real command line, against a reference scanner", note="sequences of up to 4 (thorough 5) of 16 pieces, and up to 8 of 6; whether arguments of upper-case words in parentheses are changed is left open"),
 dict(id="X12", title="A launch starts the game exactly as the launch configurations say",
  statement="Launching merges the chosen configurations and what they extend, builds the project as they say and starts the game as often as asked with exactly their mods, DLC, presets, parameters and mission, the project itself, and file patching if and only if it is on. The project is linked into the game's folder. Anything that is missing is reported by its own code, the command fails and no game is started.",
  over=["configurations","inputs","histories"], for_all="all combinations up to the bound of configurations that extend and follow each other, mods, DLC, presets, missions, options, arguments, and states of Steam, flatpak, the game's folder and an earlier build",
  why="No test launches anything: it needs Steam, so the command has only been run by hand, on Windows.",
  files=["bin/src/commands/launch/mod.rs","bin/src/commands/launch/launcher.rs","bin/src/commands/launch/platforms.rs","bin/src/commands/launch/preset.rs","bin/src/link.rs","libs/common/src/steam.rs"],
  mech=[("arguments of the game","bin/src/commands/launch/launcher.rs Launcher::launch"),("merged configuration","bin/src/commands/launch/mod.rs read_config")],
  obs=["the calls that stand-ins for steam and flatpak record, the link, what was built, reported codes and exit code"], technique="explicit enumeration of all configurations and machine states up to the bound through the real command line, against a reference model of the merged configuration and the arguments", note="Linux only; the game is a stand-in that records its arguments"),
 dict(id="X13", title="A new project has exactly the answers that were given, and can be used",
  statement="Whatever is answered at the prompts, the new project's settings are exactly those answers, its license is the chosen one with the author and the year, and the project can be checked at once. A place that is taken or a missing terminal is reported and nothing is changed.",
  over=["inputs"], for_all="all combinations in the alphabet of names, authors, prefixes, main prefixes and licenses, with quotes, backslashes, braces and letters of other scripts, typed with and without hesitation, and all occupied places",
  why="The one test creates one project with fixed answers and looks at nothing.",
  files=["bin/src/commands/new/mod.rs","bin/src/modules/new/license.rs"],
  mech=[("writing of project.toml","bin/src/commands/new/mod.rs execute"),("placeholders of licenses","bin/src/modules/new/license.rs Licenses::select")],
  obs=["all files afterwards, the values that other commands print in the new project"], technique="explicit enumeration of all answers up to the bound, typed into the real command at a pseudo terminal, against the answers", note="bounded; the text of a license is identified by a phrase of it"),
 dict(id="X14", title="The editor shows what is wrong with the files as they are now",
  statement="Whatever was saved, opened or removed in whatever order, the diagnostics shown for every file of the open folders become exactly those of the current contents, also in files that other files include, and none stay for what is gone. On a command of a script its documentation is shown, elsewhere none. No event ends the server.",
  over=["histories","inputs","schedules"], for_all="all sequences up to the bound of saves of configs and an included file with contents of every kind, waited for or not, of folders added and removed, of checks that are held in the middle and go on in every order, and all scripts of up to the bound of lines x every place in them",
  why="The server has no tests of its behaviour; what is shown depends on the order of events, of the tasks they start and on which file includes which.",
  files=["hls/src/main.rs","hls/src/config/mod.rs","hls/src/diag_manager.rs","hls/src/workspace.rs","hls/src/sqf/mod.rs","hls/src/sqf/locate.rs"],
  mech=[("diagnostics of a saved file","hls/src/config/mod.rs ConfigAnalyzer"),("what is published","hls/src/diag_manager.rs DiagManager"),("place to command","hls/src/sqf/locate.rs")],
  obs=["the messages of the server after each event, until none come for a while"], technique="explicit enumeration of all event sequences up to the bound through the real server over its socket, against a reference model of the open folders and their files", note="bounded; overlapping checks are ordered by named pipes they read, the rest of the schedule within the server is the operating system's, checked for its final state"),
 dict(id="X15", title="A file operation that fails is never taken for success",
  statement="If any one file operation of a command fails, be it reading, listing, creating or writing, the command fails and says so, or all it leaves is the same as otherwise. A project with a defect still fails, and the author's files are as before.",
  over=["fault_sequences","configurations"], for_all="every file operation of every command of the bound in a project with files of every kind, each failing alone, also in projects with each of ten defects and in the other tools",
  why="No test makes an operation fail; each one of over a thousand places would need its own.",
  files=["bin/src/modules/archive.rs","bin/src/modules/pbo.rs","bin/src/modules/files.rs","bin/src/modules/bom.rs","bin/src/commands/localization/sort.rs","libs/workspace/src/path.rs","libs/workspace/src/lib.rs"],
  mech=[("listing of folders","libs/workspace/src/path.rs WorkspacePath::walk_dir"),("release archives","bin/src/modules/archive.rs release")],
  obs=["exit code, output and all files afterwards"], technique="fault injection at every point: the C library's file functions are replaced, every operation of a run is numbered and made to fail in a run of its own", note="one fault at a time, given as an I/O error; one thread"),
 dict(id="X16", title="What a killed command leaves does not show in the next one",
  statement="Wherever a command is killed, before any file operation or within a write, the author's files and the outputs of other commands are as before, and the next command leaves exactly what it leaves in a fresh project.",
  over=["crash_points","histories"], for_all="every file operation of every command of the bound as the point of the kill, every write torn, after earlier commands and before each next one",
  why="No test kills a command; the state that is left is a different one at each of some hundred points.",
  files=["bin/src/context.rs","bin/src/modules/pbo.rs","bin/src/modules/archive.rs","bin/src/modules/sign.rs"],
  mech=[("removal of earlier output","bin/src/context.rs Context::new")],
  obs=["all files after the next command, compared with a fresh project"], technique="exhaustive crash points: the process is ended at every file operation and within every write, then the next command runs on what is left", note="the process is killed, not the machine: what was written is on disk"),
 dict(id="X17", title="Commands of different kinds at the same time do not disturb each other",
  statement="If a command runs while another of a different kind is in progress in the same project, both leave exactly what each leaves alone.",
  over=["schedules"], for_all="every pair of commands of the bound, the second run entirely before each file operation of the first",
  why="No test runs two commands at once; only particular points of the first one would show a shared file.",
  files=["bin/src/context.rs","bin/src/modules/binarize/mod.rs","bin/src/modules/pbo.rs","bin/src/modules/archive.rs"],
  mech=[("output folders","bin/src/context.rs Context::new")],
  obs=["exit codes and all outputs of both"], technique="exhaustive schedules with one preemption: the first command is held before each of its file operations while the second runs", note="one preemption at file operations, two commands"),
 dict(id="X18", title="File tools tell what a file contains and never crash on a damaged one",
  statement="Inspecting a key, signature, texture, archive or config tells exactly what it contains, in every output format and with or without its extension; a config with an error is not called valid. Converting a texture gives the pixels of its first mipmap and never replaces a file. A damaged, cut or missing file is refused or told, without a crash and without changing any file; a damaged key, signature or archive never verifies without a word.",
  over=["inputs","configurations","fault_sequences"], for_all="all files of every kind up to the bound x extension x place x format; every truncation and four changes of every byte of small files of every kind; every such damage of a signed release",
  why="No test runs these tools; which of the bytes of a file crashes them or is shown wrong needs every one to be tried.",
  files=["bin/src/utils/inspect.rs","bin/src/utils/paa/convert.rs","bin/src/utils/paa/inspect.rs","bin/src/utils/pbo/inspect.rs","bin/src/utils/config/inspect.rs","bin/src/utils/verify.rs","libs/paa/src/mipmap.rs","libs/signing/src/public.rs","libs/signing/src/signature.rs"],
  mech=[("what kind of file","bin/src/utils/inspect.rs execute"),("texture to picture","libs/paa/src/mipmap.rs MipMap::get_image")],
  obs=["exit code and output of the command","the picture made","all files afterwards"], technique="explicit enumeration of all files and all single damages up to the bound through the real command line, against reference readers and an S3TC reference decoder", note="one damage at a time"),
]
