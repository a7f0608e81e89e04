import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    if state: d['anchors']['state']=state
    P.append(d)
GI='src/vpx/gameitem/'
p('P01','Opening a table and saving it again reproduces every stream byte for byte',
 'For any well-formed table file, reading it and writing the result yields a file with the same set of streams, each with identical bytes (game data of every version, every kind of game item, images, sounds, fonts, collections, table info, custom info tags). This holds whichever optional records are present or absent, whatever values the fields hold, and however many parts, control points, materials, mesh frames or resources the table has.',
 ['inputs'],'all well-formed table files as Visual Pinball writes them, versions 1000-1081',
 'Unit tests round-trip a few hand-made structures and the table corpus is not available; losing or altering one optional field, value range or version branch is visible only over the whole space of field presence x value x version.',
 ['src/vpx/mod.rs','src/vpx/biff.rs','src/vpx/gamedata.rs','src/vpx/gameitem.rs','src/vpx/gameitem/','src/vpx/image.rs','src/vpx/sound.rs','src/vpx/font.rs','src/vpx/collection.rs','src/vpx/tableinfo.rs','src/vpx/custominfotags.rs','src/vpx/material.rs','src/vpx/renderprobe.rs'],
 [('whole file read / write','src/vpx/mod.rs: read_vpx, write_vpx'),('record framing','src/vpx/biff.rs: BiffReader, BiffWriter'),('per item readers and writers','src/vpx/gameitem/*.rs: BiffRead/BiffWrite')],
 ['vpx::from_bytes','vpx::to_bytes','the compound-file streams'])
p('P02','Every stored value appears under its own name in the expanded form and back',
 'Each value stored in a table file (per game item, drag point, game setting, material, render probe, image, sound, collection, table info entry) is shown in the expanded JSON under the key documented for that record with exactly that value, and in no other key. Editing that key in the JSON and assembling the table changes exactly that record of the file to the new value.',
 ['inputs'],'all record kinds x all representable values (finite numbers) of each',
 'A pair of fields swapped consistently in reader and writer survives every round-trip test; only an independent map from record to name, exercised for each field with distinguishing values, exposes it.',
 ['src/vpx/gameitem/','src/vpx/gamedata.rs','src/vpx/material.rs','src/vpx/renderprobe.rs','src/vpx/image.rs','src/vpx/sound.rs','src/vpx/jsonmodel.rs','src/vpx/expanded/'],
 [('record to field','src/vpx/gameitem/*.rs: BiffRead'),('field to JSON','src/vpx/gameitem/*.rs: Serialize/Deserialize, src/vpx/gamedata.rs: GameDataJson')],
 ['gameitems/*.json, gamedata.json and the other JSON files of an expanded table','the streams of the assembled table'])
p('P03','Unknown records and record order do not disturb the values that are read',
 'A game item, collection, image or game data stream that contains additional records with tags this library does not know still opens, and every known value is the same as without them. Game item records may come in any order without changing the values that are read, and a record missing from the stream leaves every other value as it was and its own at the documented default.',
 ['inputs'],'all well-formed streams x insertion points and sizes of unknown records x permutations of records x subsets of optional records',
 'Forward compatibility depends on the skip logic in each of some thirty readers and on their nested sub-readers; tests contain no unknown records.',
 ['src/vpx/biff.rs','src/vpx/gameitem/','src/vpx/gamedata.rs','src/vpx/image.rs','src/vpx/collection.rs'],
 [('skipping','src/vpx/biff.rs: BiffReader::next, skip_tag'),('fall-through arms','src/vpx/gameitem/*.rs: BiffRead')],
 ['vpx::from_bytes'])
p('P04','Every saved table carries a valid integrity signature, and tampering is detected',
 'A table written by this library verifies as valid with the integrity code that Visual Pinball itself computes (MD2 over the version, the table information, the custom information, the game data with its script and the collections, in the fixed order). Changing any byte of a covered value makes verification fail, while changing uncovered streams (game items, images, sounds, save date and revision) does not.',
 ['inputs','histories'],'all tables, all sequences of supported writes, all single-value modifications of covered and uncovered streams',
 'Tests compare one or two stored signatures; each covered stream and each record framing special case (script, absent streams, custom tags) needs its own differential against an independent computation.',
 ['src/vpx/mod.rs'],[('signature','src/vpx/mod.rs: generate_mac, write_mac, verify'),('covered list','src/vpx/mod.rs: FileStructureItem list')],
 ['vpx::verify','GameStg/MAC stream'])
p('P05','Locking state follows the lock and unlock history',
 'After any sequence of lock, unlock and query operations on a table file, the table reports locked exactly if the last effective operation was a lock, each operation reports whether it changed anything, a repeated operation leaves the file as it was, and reopening the file gives the same answer. Nothing but the lock counter and the integrity signature changes, and the file still verifies.',
 ['histories'],'all operation sequences interleaved with reopening, from any initial lock counter (absent, even, odd)',
 'Tests call lock and unlock once or twice from one starting state.',
 ['src/vpx/mod.rs','src/vpx/gamedata.rs'],[('lock counter','src/vpx/mod.rs: VpxFile::lock/unlock/is_locked; src/vpx/gamedata.rs: locked')],
 ['VpxFile::lock, unlock, is_locked','streams of the file'])
p('P06','In-place edits and compaction leave everything else in the file untouched',
 'Operations on an existing table file (replacing the game data, importing a script, locking, converting images to WebP, compacting) change only the stream they are about plus, where the content is signed, the signature; every other stream, including ones this library does not know, stays byte-identical. Compaction changes no stream at all and never yields a larger file; after any sequence of such operations the file still opens, verifies and equals the model obtained by applying the same edits in memory.',
 ['histories','inputs'],'all sequences of edit operations on all tables, including growing and shrinking streams across sector and mini-stream boundaries',
 'A single edit on one small table does not cross sector boundaries nor interleave operations; loss of an unrelated stream only shows when the whole file is compared after each step.',
 ['src/vpx/mod.rs'],[('in place edits','src/vpx/mod.rs: VpxFile::write_gamedata, images_to_webp, importvbs'),('compaction','src/vpx/mod.rs: compact_cfb')],
 ['all streams of the file before and after'])
p('P07','Table scripts survive extraction and import unchanged',
 'Extracting the script of a table to a file and importing that file into the same or another table, or expanding and assembling the table, yields exactly the same script, for any line ending, an empty script and a trailing or missing newline: the same bytes for UTF-8 scripts and for expanding, the same text (stored as UTF-8 once imported) for legacy single-byte scripts. An existing script file is only overwritten when asked to, and the import is visible to every reader of the table.',
 ['inputs','histories'],'all scripts (valid UTF-8 or Latin-1, no NUL) x sequences of extract / edit / import / expand',
 'Encodings and line ends form a large space; tests use short ASCII scripts.',
 ['src/vpx/mod.rs','src/vpx/model.rs','src/vpx/gamedata.rs','src/vpx/expanded/'],
 [('extract and import','src/vpx/mod.rs: extractvbs, importvbs, extract_script'),('string encoding','src/vpx/model.rs: StringWithEncoding')],
 ['the script file','the CODE record of the game data'])
p('P08','Expanding a table and assembling it again gives back the same table',
 'For any well-formed table (with finite numbers), writing the expanded directory and reading it back gives an equal table whose saved file has exactly the same streams as the original, signature included. This holds for each mesh format (OBJ, GLB, glTF), with or without generated meshes, for duplicate, empty, accented, reserved and case-colliding names of parts and resources, and for any mix of image, sound and font kinds.',
 ['inputs','configurations'],'all well-formed tables x expand options',
 'The expanded form splits a table over hundreds of files with derived names and redundant data; collisions and lossy conversions depend on combinations of names, kinds and values that no fixed example covers.',
 ['src/vpx/expanded/','src/vpx/gamedata.rs','src/vpx/gameitem/','src/vpx/image.rs','src/vpx/sound.rs','src/vpx/jsonmodel.rs'],
 [('expand','src/vpx/expanded/mod.rs: write_fs'),('assemble','src/vpx/expanded/mod.rs: read_fs')],
 ['expanded::write_fs / read_fs','vpx::to_bytes'])
p('P09','Expanded files are distinct, contained and complete',
 'Expanding a table writes each part, image, sound and font to a file of its own, no two of them sharing a path even on a case-insensitive file system, all inside the given directory, whatever names the table uses (path separators, dots, drive letters, reserved characters, very similar names). Each index file lists exactly the files that exist for it, in table order, and the list of files that can be had without expanding a table names exactly the files that expanding writes.',
 ['inputs'],'all multisets of part and resource names',
 'Collisions arise from interactions of sanitising, case folding and suffix generation between several names.',
 ['src/vpx/expanded/gameitems.rs','src/vpx/expanded/images.rs','src/vpx/expanded/sounds.rs','src/vpx/expanded/fonts.rs','src/vpx/expanded/util.rs'],
 [('file names','src/vpx/expanded/gameitems.rs: FileNameGen; src/vpx/expanded/util.rs: sanitize_filename'),('duplicates','src/vpx/expanded/{images,sounds,fonts}.rs')],
 ['the list of paths written, through a recording file system'])
p('P10','Expanding is deterministic and independent of storage and parallelism',
 'Expanding the same table always produces the same files with the same bytes, and assembling them the same table, on the in-memory and on the real file system, whatever number of worker threads is used and whether or not the library is built with parallelism; generated preview meshes add files but change no other file and never influence the table read back. Saving the same table always produces the same streams.',
 ['inputs','configurations','schedules'],'all tables x back ends x thread counts x expand options',
 'Order and race effects need large tables and repeated runs under different pools; tests expand once.',
 ['src/filesystem.rs','src/vpx/compat.rs','src/vpx/expanded/','src/vpx/mod.rs'],
 [('parallel writes','src/vpx/expanded/gameitems.rs, images.rs, sounds.rs'),('back ends','src/filesystem.rs')],
 ['file trees produced'])
p('P11','Primitive meshes survive each mesh file format bit for bit',
 'For any primitive with a custom mesh, the vertex data (including not-a-number normals, signed zeros, extreme values and unused bytes), the triangle list and every animation frame read back from the OBJ, GLB or glTF files equal the stored ones bit for bit, and re-reading a saved table gives the same decoded mesh. Meshes on both sides of the 16-bit index limit, unused vertices and degenerate triangles are included.',
 ['inputs','configurations'],'all vertex buffers, index buffers and animation frames x mesh formats',
 'Text formatting of floats, coordinate flips and index width switches each fail only for particular bit patterns or sizes.',
 ['src/vpx/obj.rs','src/vpx/gltf.rs','src/vpx/expanded/primitives.rs','src/vpx/gameitem/primitive.rs'],
 [('OBJ','src/vpx/obj.rs: write_obj_to_writer, read_obj_from_reader'),('GLB / glTF','src/vpx/gltf.rs'),('compression','src/vpx/gameitem/primitive.rs')],
 ['decoded meshes before and after','mesh files'])
p('P12','Mesh files mean the same geometry to other tools, both ways',
 'The OBJ, GLB and glTF files written for a primitive are valid for independent parsers and describe exactly the stored positions, normals, texture coordinates and triangles under the documented axis convention. A mesh file saved by another tool without the library\'s private annotations (polygons with more than three corners, separately indexed positions, texture coordinates and normals, extra attributes, other index widths and buffer layouts) is read as the same set of triangles, corner for corner, or refused with an error where it uses something the library does not support; it is never misread.',
 ['inputs'],'all meshes x equivalent encodings of the same geometry',
 'Round-trip tests use the library on both sides, so a convention error cancels out; foreign encodings are a large space.',
 ['src/vpx/obj.rs','src/vpx/gltf.rs','src/vpx/expanded/primitives.rs'],
 [('OBJ import','src/vpx/obj.rs: triangulate_and_dedup, resolve_index'),('GLB import','src/vpx/gltf.rs: parse_gltf_payload')],
 ['mesh files','decoded mesh of the assembled table'])
p('P13','Image pixels and bytes are preserved in every representation',
 'Bitmap pixels stored compressed in a table decode to the same pixels in the exported BMP file, in whole-table exports and after conversion to lossless WebP (eight bits per channel, deeper PNG files rounded), with transparency kept and reported as the pixels have it, and compressing any byte sequence and decompressing it gives it back. Other images are exported as exactly their stored bytes, and converting images to WebP touches only the formats it is for and reports exactly the conversions made.',
 ['inputs'],'all pixel buffers and sizes (including padding widths, opaque and transparent), all byte sequences, all image kinds',
 'Bit-packed dictionary coding and row padding fail at particular lengths, code-width boundaries and widths.',
 ['src/vpx/lzw.rs','src/vpx/image.rs','src/vpx/expanded/images.rs','src/vpx/mod.rs'],
 [('LZW','src/vpx/lzw.rs'),('BMP','src/vpx/expanded/images.rs: write_image_bmp, read_image_bmp'),('WebP','src/vpx/mod.rs: images_to_webp')],
 ['expanded image files','converted image streams'])
p('P14','Sounds export as valid audio files and damaged ones are rejected cleanly',
 'A PCM sound is exported as a standard WAV file that an independent parser reads with the stored format and samples, and importing any standard WAV encoding of it (extended format chunk, extra chunks before or after, odd chunk sizes) gives the same format and samples; compressed sounds are exported as their stored bytes. Any damaged or truncated WAV file yields an error or a sound, never a crash.',
 ['inputs'],'all wave formats and sample data, all chunk layouts, all byte sequences',
 'The chunk layout space and the set of damaged inputs cannot be enumerated by hand.',
 ['src/vpx/sound.rs','src/vpx/wav.rs','src/vpx/expanded/sounds.rs'],
 [('WAV','src/vpx/wav.rs: read_wav_header, write_wav_header'),('sound','src/vpx/sound.rs: read_sound, write_sound')],
 ['sound::read_sound / write_sound','expanded sound files'])
p('P15','Edits made through the table API persist exactly',
 'After any sequence of adding game items, adding or replacing images, setting the script and saving or reopening, the table holds exactly the parts, images and script that a simple list model predicts, in order; replacement reports whether it replaced, matches names as Visual Pinball does, and leaves other images alone. All ways of reading a saved table (from memory, from a path, opened read-only or read-write, part by part) give the same content.',
 ['histories'],'all sequences of API operations over arbitrary tables, with saves and reopens in between',
 'Only long mixed sequences reveal stale counts or order errors.',
 ['src/vpx/mod.rs','src/vpx/gamedata.rs'],[('edits','src/vpx/mod.rs: VPX::add_game_item, add_or_replace_image, set_script'),('counts','src/vpx/mod.rs: write_vpx; src/vpx/gamedata.rs')],
 ['VPX values','VpxFile readers'])
p('P16','Generated part meshes are well-formed and follow their control points',
 'For every wall, ramp, rubber, flasher and built-in primitive with ordinary geometry, the generated mesh has only finite coordinates, every triangle refers to existing vertices, normals are unit length, and the surface lies on or between the part\'s control points, heights, widths and thickness. Translating or rotating the control points moves the mesh rigidly with them, and a wall\'s top covers the area enclosed by its outline. The mesh files written next to an expanded table and the public mesh functions give the same shapes, also for flippers, plungers, bumpers, triggers, lights, gates, spinners and hit targets, and there are none for parts that are hidden.',
 ['inputs','configurations'],'all table-sized control point loops (smooth or straight, clockwise or not, convex or concave) and item settings',
 'Triangulation and spline code fails only on particular shapes; tests use a few squares.',
 ['src/vpx/mesh/walls.rs','src/vpx/mesh/ramps.rs','src/vpx/mesh/rubbers.rs','src/vpx/mesh/flashers.rs','src/vpx/mesh/builtin_primitive.rs','src/vpx/mesh/mod.rs'],
 [('generators','src/vpx/mesh/*.rs: build_*_mesh'),('triangulation','src/vpx/mesh/mod.rs')],
 ['generated mesh files and whole-table exports'])
p('P17','Curves pass through their control points',
 'Smoothing a list of drag points gives a finite outline that visits every control point in order and joins straight corners by straight lines; smooth joints follow the Catmull-Rom curve through the neighbours, halved until every piece is as flat as the requested accuracy asks, with finer accuracy never giving fewer points. Closing a curve, reversing, translating or scaling the points changes the outline accordingly.',
 ['inputs'],'all finite table-sized control point lists x smooth flags x accuracy x open or closed',
 'Spline subdivision has case splits per point kind and per neighbour; tests cover a handful.',
 ['src/vpx/mesh/mod.rs'],[('subdivision','src/vpx/mesh/mod.rs: smooth_drag_points_2d')],['mesh::smooth_drag_points_2d'])
p('P18','Whole-table glTF exports are valid and place parts where the table does',
 'For any table with ordinary geometry, exporting to GLB or glTF in any unit succeeds with a document that satisfies the glTF 2.0 rules (indices in range, buffer bounds and alignment, accessor minima and maxima, finite values, node tree), the same scene in both containers and every time, and sizes that scale with the chosen unit. Each part with a mesh appears once under its name, below its layer and group, at the table\'s position under the documented axis mapping (on its surface where it names one), with its vertices turned, scaled and moved as its numbers say; parts marked invisible are left out, or kept and marked invisible if the options ask for it. A part shows the colour, opacity, metalness and image the table gives it and never those of another, and an image is embedded with its own bytes and matching type.',
 ['inputs','configurations'],'all tables x export options',
 'Validity is a property of hundreds of cross references in the document; tests look at a few nodes.',
 ['src/vpx/export/gltf_export.rs','src/vpx/export/camera.rs','src/vpx/mesh/','src/vpx/units.rs'],
 [('export','src/vpx/export/gltf_export.rs: export_gltf, collect_meshes, build_combined_gltf_payload')],['the exported files'])
p('P19','Whole-table OBJ exports are valid and complete',
 'For any table with ordinary geometry, exporting to OBJ succeeds with an OBJ and a material file that an independent parser accepts: every face index refers to an existing vertex, texture coordinate and normal, all numbers are finite, every material used is defined once and every texture file mentioned is written beside it. Each exported part appears as its own named object with its vertices at the table\'s positions under the documented conventions and unit.',
 ['inputs','configurations'],'all tables x export options',
 'Running vertex offsets and name sanitising interact across all parts of a table.',
 ['src/vpx/export/obj_export.rs','src/vpx/mesh/'],[('export','src/vpx/export/obj_export.rs: export_obj, write_block')],['the exported files'])
p('P20','Numeric conversions are consistent and lossless where promised',
 'Unit conversions invert each other within rounding, are linear and keep the documented ratio; quantised values of the widths in use (up to eight bits, and percentages) decode and encode back to the same code and stay within one step and within range for every input that is not negative; colours convert between their stored, textual and component forms without loss, and other text is refused. Rotations and transformation matrices compose as the mathematics says.',
 ['inputs'],'all codes and all finite numbers, all colours',
 'Rounding errors hit single values out of millions.',
 ['src/vpx/math/quantize.rs','src/vpx/units.rs','src/vpx/color.rs','src/vpx/math/matrix.rs','src/vpx/math/vec.rs'],
 [('quantisation','src/vpx/math/quantize.rs'),('units','src/vpx/units.rs'),('colour','src/vpx/color.rs')],['public conversion functions'])
p('P21','Legacy material tables are kept or derived exactly',
 'A table that carries only the legacy material tables keeps them byte for byte through every format, and when a table with modern materials is assembled from its expanded form the legacy tables are derived from the modern materials: same order and names, the same colours and physics values, and shading values within one quantisation step. The table read from the expanded form equals the original whenever the original\'s legacy tables were derived that way.',
 ['inputs'],'all material lists of either kind',
 'Quantised shading values and fixed-width names have boundary cases over the whole value range.',
 ['src/vpx/material.rs','src/vpx/expanded/materials.rs','src/vpx/expanded/mod.rs'],
 [('derivation','src/vpx/material.rs: From<&Material>'),('expanded','src/vpx/expanded/materials.rs')],['MATE, PHMA and MATR records'])
p('P22','The in-memory file system behaves like a real one',
 'For any sequence of writes, streamed writes, reads, existence checks, directory creation and deletion of files in existing directories, with at most one writer of a file at a time, the in-memory file system returns the same data and the same kind of failure as the real one, a file written is readable in full as soon as its writer is closed, and writing one file never affects another.',
 ['histories'],'all operation sequences over small path sets',
 'Stateful behaviour over operation histories.',
 ['src/filesystem.rs'],[('back end','src/filesystem.rs: MemoryFileSystem, RealFileSystem')],['FileSystem trait'])
p('P23','Storage failures and damaged files are reported, never ignored or fatal',
 'If any single storage operation fails (an error, or a disk that runs full) while a table file is saved, compacted or edited in place, or while a table is expanded, assembled or exported, the call returns an error instead of success and does not crash; a failed compaction leaves the table as it was. Transfers that happen in parts or are interrupted make no difference. If a file of an expanded table that is listed is missing, or any of its files is truncated or damaged, assembling either returns an error or a complete table (every listed part and resource, an absent optional listing or mesh counting as an empty one), and never crashes.',
 ['fault_sequences','inputs'],'every single failing operation of every run, and every single-file damage',
 'Each of the thousands of I/O calls is an error path that tests do not take.',
 ['src/vpx/expanded/','src/vpx/obj.rs','src/vpx/gltf.rs','src/vpx/wav.rs','src/vpx/export/','src/filesystem.rs','src/vpx/mod.rs','src/vpx/tableinfo.rs'],
 [('error propagation','src/vpx/expanded/*.rs'),('parsers','src/vpx/obj.rs, src/vpx/gltf.rs, src/vpx/wav.rs')],['results of expanded::write_fs, read_fs, export_gltf, export_obj through a fault-injecting FileSystem'])
p('P24','The cameras of glTF exports show the table from its three views',
 "Each whole-table glTF export of a table whose playfield starts at the origin holds three cameras, one for each of Visual Pinball's views, with the field of view that the table gives (at least one degree) and turned down from the horizon by the angle its look-at value stands for. Without offsets each camera looks at the middle of the playfield from a distance that scales with the table and the unit of the export and does not grow with the field of view; the table's offsets move it along the documented axes, and the mean of its x and y scale multiplies the distance in the legacy layout only. The settings of one view affect no other camera, and settings that are absent count as the documented defaults.",
 ['inputs','configurations'],'all tables, view settings and units',
 'Position and direction combine seven settings, three layouts and the table size; tests look at a handful of default tables.',
 ['src/vpx/export/camera.rs','src/vpx/export/gltf_export.rs'],
 [('placement','src/vpx/export/camera.rs: GltfCamera::from_view_settings, fit_camera_to_vertices')],['the exported cameras'])
p('P25','Compaction survives crashes, and operations keep to their own files',
 "Whenever the process stops at, or a failure hits, any system call while a table is compacted, the table's path holds a complete table with exactly the streams it had, success is only reported for a compacted table, and compacting again succeeds, whatever was left behind and whatever the file is called. Operations that only read a table (opening, verifying, listing, extracting the script, exporting, expanding) never open it for writing, and each operation creates, changes or removes only the files it is documented to write.",
 ['crash_points','fault_sequences','inputs'],'every system call of every compaction; all operations on table files',
 'The window between two system calls is never hit by a test, and files beside the one under test are rarely looked at.',
 ['src/vpx/mod.rs','src/vpx/expanded/mod.rs','src/vpx/export/','src/filesystem.rs'],
 [('compaction','src/vpx/mod.rs: compact, compact_cfb'),('opening','src/vpx/mod.rs: open, open_rw, verify, extractvbs, importvbs'),('exports','src/vpx/export/gltf_export.rs, obj_export.rs')],['the directory around a table file and the system calls on it'])
p('P26','Questions about parts and settings are answered by what the table stores',
 "For every part of any table, its type, name, lock, editor layer, layer name and visibility, group, visibility on the table, and the images, materials and physics material it refers to are reported exactly as its records hold them, for each type of part, and empty references are left out. Parts that name a group which is not defined before them are each reported, in order, and no others. The detail level, the ball trail strength and version numbers are reported and set as documented.",
 ['inputs'],'all parts of every type with every combination of records, all orders of groups and parts',
 'Twenty-one types answer a dozen questions each from records of their own; tests ask a few of them about a single part.',
 ['src/vpx/gameitem.rs','src/vpx/gameitem/','src/vpx/gamedata.rs','src/vpx/version.rs'],
 [('accessors','src/vpx/gameitem.rs: GameItemEnum'),('groups','src/vpx/gameitem.rs: validate_part_group_order'),('settings','src/vpx/gamedata.rs: effective_detail_level, set_ball_trail_strength')],['GameItemEnum accessors, validate_part_group_order, GameData and Version methods'])
p('P27','Expanded tables may be rearranged, respelled and have files replaced',
 'An expanded table whose JSON is spelled differently but means the same (enumerated values by number, older names of keys and values that are still supported, absent optional values as null or left out, other order, layout, escapes or unknown keys), whose part and resource files are renamed together with their index entries, whose primitive meshes are in another or several formats (OBJ before GLB before glTF), or that has unrelated files in it assembles to the same table. Rearranging, removing, repeating or adding entries of the lists does exactly that to the parts, resources and settings listed, and the counts follow; replacing an image, sound, font, script or screenshot file replaces exactly that content (a PNG may be replaced by a WebP of the same name, which changes the extension of its path). Values that are not defined (unknown name or number of an enumerated value, malformed colour or number, value of the wrong type) are refused with an error.',
 ['inputs','histories'],'all tables x respellings and rearrangements of their expanded directory, and all undefined values of every key',
 'Tests assemble what an expansion wrote; people and scripts edit the directory, and each key has readers of its own for the forms it accepts.',
 ['src/vpx/expanded/','src/vpx/json.rs','src/vpx/gameitem/','src/vpx/gamedata.rs','src/vpx/image.rs','src/vpx/sound.rs','src/vpx/color.rs'],
 [('assembly','src/vpx/expanded/mod.rs: read_fs'),('values','src/vpx/gameitem/*.rs: Deserialize'),('floats','src/vpx/json.rs')],['vpx::expanded::read'])
p('P28','Record streams are built and taken apart as documented',
 'Any sequence of values written through the public record writer gives exactly the documented encoding: for each record the size of what follows, the tag padded to four bytes, and little-endian numbers, booleans of four bytes, Latin-1 or UTF-16 text and data with the length in front, a size of four where the size is left out, and the end mark. The public record reader hands back every tag and value of any such stream in order, whatever a caller takes, skips or leaves unread of a record, with the right position and remaining count, through nested streams and data that ends at a tag, and stops at the end mark.',
 ['inputs','histories'],'all sequences of typed values, records and ways of reading them',
 'Many of the readers and writers of single values are public but used for few records, and how they interact with what is left of a record shows only in sequences; the tests write an empty record.',
 ['src/vpx/biff.rs','src/vpx/utf16.rs','src/vpx/model.rs'],
 [('writer','src/vpx/biff.rs: BiffWriter'),('reader','src/vpx/biff.rs: BiffReader'),('wide text','src/vpx/utf16.rs'),('script text','src/vpx/model.rs: StringWithEncoding')],['vpx::biff::BiffWriter::get_data, vpx::biff::BiffReader'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,s); assert len(d['title'])<=80,(d['id'],len(d['title']))
    assert d['statement'].count('. ')<=2, d['id']
print(len(P))
