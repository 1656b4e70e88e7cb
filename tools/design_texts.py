# (what is enumerated and monitored, oracle, what the bounds leave out)
D={
'C01':("Documents are generated section by section (scene, materials, object flags and trees, names, faces with UVs and mixed normals), all documents within B deviations from a default; each is written as MQO text and as MQOZ by the real writer and read by the real parser.","Field-by-field comparison with the generated document (format precision only), then byte equality of a second write.","Names with quotes, backslashes and line breaks are excluded by the statement. Documents differing in more than B features at once."),
'C02':("Companion data (bones, weights, morphs, physics) x identifier schemes (explicit, implicit, mixed vertex and object ids), and every save/load history up to length 5 (6 in the thorough tier) over save, save elsewhere, load, save as MQOZ and edits.","The data given in, per object and vertex; after each step of a history the state of a reference machine that only knows the documents.","Hand-edited MQX with other XML layouts (see C27)."),
'C03':("PMX models within B deviations in each section, all 2x3^6 header width assignments, models of n elements around every limit of every index width, models from PMD.","Equality of the re-read model, decoded by the real parser (itself decided by C04).","Soft bodies and PMX 2.1 flip/impulse morph contents, which the model does not represent."),
'C04':("The same spaces as C03 encoded by an encoder of our own from the format documentation (PMX 2.0/2.1, both text encodings; PMD with and without its optional tail; VMD with every section count).","The model that was encoded.","As C03."),
'C05':("All pairs of attribute values of a 60 element alphabet in four positions, all array kinds x sizes x patterns at depths up to 12, all ordered trees up to six nodes, sections of n elements with n around every power of two.","The tree that was written; byte equality of the second write.","Trees of more than six nodes other than the size series."),
'C06':("An independent binary encoder (5 versions x raw/compressed/mixed arrays x 3 footers) and ASCII encoder (layouts, CRLF, comments, wrapping, number forms), seekable and plain sources; scenes in ASCII and two binary forms; version 6.1 files by name.","The tree and the scene that were encoded, through every public accessor.","Unquoted identifiers as values in ASCII files are ignored by the parser; not claimed."),
'C07':("Every format's corpus file read through readers that return 1, 2, 3 or 7 bytes, all two-piece splits at every byte position, zero-byte reads and data together with EOF.","The result of reading the same bytes at once.","Only two-piece splits are complete; more pieces in fixed sizes."),
'C08':("Every truncation point of every corpus file (files within B deviations), 16 extreme values over every position of the binary files, every number and bracket of the text files damaged, every prefix of saved files and their companions.","Own knowledge of the bytes a file needs; process survival under an 8 GB address limit and a per-case deadline. ASCII FBX arrays whose count is wrong are errors.","Two simultaneous damages."),
'C09':("For each writer and document: the destination fails at the k-th write call and at every byte budget; Save calls on paths that are a directory, inside a missing directory, /dev/full-like sinks and read-only files.","An error is returned, or every byte arrived.","Failing Close of the operating system file."),
'C10':("Documents built from independent groups of choices (objects/hierarchy, geometry, materials, skeleton/weights, morphs, shared geometry and lights, options); every document within B deviations; sizes around every power of two up to 66000.","An independent glTF validator over the decoded bytes (indices, accessor bounds, min/max, attribute counts, forest, skins, targets), and GLB encode/decode.","-"),
'C11':("As C10 with the geometry and material groups, extended shaders, textures of every file kind and transparency pattern, physics export.","Faces are decoded from the buffers and compared as sets of oriented triangles with an independent conversion (float64) of the document; materials, textures and alpha modes against the documented rules; alpha is decided within the bounding rectangle of the UVs a material uses (finer is unspecified).","hidemat together with alpha/unlit on the same material is unspecified."),
'C12':("Skeleton x weight pattern x morph list groups.","Linear blend skinning in float64 from the decoded skin; bound bones per vertex; target deltas per corner.","Vertices without any weight in skinned objects and instances of shared geometry with a skin are unspecified."),
'C13':("MMD models within B deviations: geometry, materials, bones, IK, weights, morphs, bodies and joints; sizes.","An independent conversion.","Group, bone and multi-material morphs are not representable in MQO."),
'C14':("The C10 document space, and C13's models there and back.","Independent conversion with averaged normals; equivalence after the trip.","-"),
'C15':("FBX scenes: model trees x transforms x mapping and reference modes x clusters x blend shapes x axis and unit settings, built byte by byte, ASCII and binary; options.","Independent scene evaluation in float64.","Rotation/scaling pivots and rotation orders other than those the library documents."),
'C16':("glTF documents of up to six nodes built byte by byte: primitive modes, component types, layouts, trees, TRS/matrix, materials, skins; sizes.","Independent reading of the document.","Primitives without a material get a default: unspecified which. Numbers keep glTF's unit (no conversion to Metasequoia's)."),
'C17':("Documents as C16 with animations x scale factors; joint chains up to 15 x node order x rotations; external files x directory; extension uses.","Rendered vertices (float64 skinning) before and after.","ApplyTransform with translation is unspecified."),
'C18':("Configurations x documents x presets (including the four shipped ones) x existing VRM data; sizes.","A reference implementation of the merge and mapping rules working on sets.","DetectSpringBones on root nodes is unspecified."),
'C19':("Scenes as data written by an own Unity YAML writer: all forests of three and four objects, prefab nesting up to five levels, all ordered pairs of overrides, built-in meshes, FBX models, damage to every document and line.","Reference scene graph in float64; closed-surface and orientation tests for the primitives; survival for damaged files.","Physics components are not part of the statement."),
'C20':("Archives over an alphabet of members, orders, hostile paths and links, cut at every byte; all open/close histories; run in a scratch directory of an unprivileged user, with the library's TMPDIR inside it.","The archive's content; the list of files under the scratch root before and after.","-"),
'C21':("All triples of angles from 12 values (fine: 24) x all orders; all pairs of matrices from an alphabet with rotations, mirrored, sheared and scaled ones.","float64 algebra.","Singular matrices."),
'C22':("Every simple polygon on the 3x3 grid up to 9 corners and on the 4x4 grid up to 6, from every start, both directions, six planes; all closed chains of six points.","Exact integer areas and coverage.","-"),
'C23':("Sequences up to three operations of 30 from documents within B deviations.","A reference machine in float64 for each operation, compared after each step.","Operations that would need a shear in an object's local transform; vertices whose normals cancel out."),
'C24':("The built tool run in a scratch directory: option combinations within B deviations on each output format, all format pairs, every flag, failures of inputs and outputs.","Reference implementation of each option; the library's own converters for format pairs (decided by C10-C20).","-alpha entries without ':', a bad -vrmconfig (logged, continues), no arguments (usage, exit 0), -scale on FBX to FBX are unspecified."),
'C25':("Skeletons x bone and morph samples x changes of the rest pose.","Independent evaluation of the motion at every key.","Bezier interpolation curves are not carried over; not claimed."),
'C26':("Every sequence of API calls up to length 2 (3, 4 in the thorough tier) from documents read from files and built from nothing.","A reference object graph; then write, reparse, compare again.","-"),
'C27':("MQO and MQX files as Metasequoia writes them, produced by an encoder of our own: Shift_JIS and UTF-8, CRLF and LF, chunks and attributes the library does not know, attribute orders, number forms.","The document that was encoded.","-"),
'C28':("VRM files written from JSON trees that follow the VRM 0.0 specification: every field with its usual, default, unusual and missing value, up to B deviations; every list with n elements; humanoids that lack up to B required bones; read with vrm.Parse and gltfutil.Load, written with vrm.Write and with the converter, read again.","The JSON tree that was encoded, compared field by field with what the getters return and with the JSON of the file written.","Extension data the specification does not define."),
'C29':("Documents of seven formats from the generators of C01, C02, C13, C15, C16 and C25, usual and with every choice at an unusual value (4 variants); every number of the text formats replaced by 16 values (-1, 0 to 6, itself plus one, 99, 2^31-1, 2^32-1, 1e30, a fraction, nan, nothing), every position of the binary formats overwritten by 17 byte patterns of 1, 2 and 4 bytes; whatever still loads is converted and written under 3 option sets (glTF, MMD, MQO+MQX and VRM outputs).","The run ends, without a panic and within 40 s; the references of glTF documents made from it resolve and their nodes form a forest (the independent validator of C06).","Damage of several places at once; meaning of the converted result; memory use beyond what the sandbox has; the places where the library stops with log.Fatal on accessors it cannot scale (sparse or packed positions)."),
'C30':("A controlled scheduler for map iterations: the checker is built with an overlay of the Go runtime (internal/runtime/maps, generated by run.sh from the installed toolchain) in which an iteration over a map starts at the element the checker chooses instead of at a random one. For every document of the generators of C01/C02, C13, C15, C16, C19 and C25 (4 variants of each, up to B further deviations) and every conversion, the run with all iterations starting at element 0 is compared with: the same again; all iterations starting at element k, for k = 1..7; and, for each of the first 400 iterations, every other start of that iteration alone (the analogue of one preemption).","The bytes of every output, equal to those of the first run. For maps of up to 8 elements these are all the orders the runtime can choose for an iteration; larger maps are placed by a random hash seed, of which one run sees one.","Pairs of iterations that deviate differently; orders that the language allows and the runtime never uses; the map iterations in package main (the tool's T-pose)."),
}
