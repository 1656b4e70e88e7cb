S={
'C01':("Writing a Metasequoia document as MQO text or as an MQOZ archive and reading it back yields an equal document, up to the format's fixed decimal precision: the same scene, the same materials with every attribute, texture and extended shader setting, and the same objects with their flags, hierarchy depth, transforms, vertices and vertex identifiers, faces of any arity, material references, UVs and per-corner normals. Writing the re-read document again produces the same text. Names may contain any characters except double quotes, backslashes and line breaks.",
 "The mqo package has no tests; equality of a written and re-read document is a statement about every document."),
'C02':("Saving a document that carries bones with weights, morph target lists or physics bodies and constraints, and loading it back, yields the same bones (identity, hierarchy, positions, IK settings, per-vertex weights), the same morph lists and the same physics data, attached to the same objects. Saving is repeatable: saving the same document several times, or saving a loaded document again, does not add, drop or duplicate anything. A vertex's bone weights stay attached to that vertex whatever combination of explicit and implicit object and vertex identifiers is used.",
 "The mqo package has no tests; the guarantee quantifies over documents and over save/load histories."),
'C03':("Writing an MMD model as PMX and reading the result gives an equal model in everything the library's model represents: header names and comments, vertices with normals, UVs, additional UVs and all skinning kinds, faces, textures, materials, bones with their flags and optional blocks, vertex, UV, material and group morphs, rigid bodies and joints. This holds for every combination of index widths declared in the header that can represent the model, and when the model outgrows the declared widths the writer still produces a file that reads back correctly. A model read from PMD can be written as PMX in the same way.",
 "The mmd package has no tests; width combinations and optional blocks form a product space no sample reaches."),
'C04':("A well-formed PMX 2.0/2.1, PMD or VMD byte stream, in either PMX text encoding and any legal index widths, is decoded into exactly the model or bone and morph animation it encodes, as far as the library represents it: no element is shifted, dropped, truncated or reinterpreted, and text is decoded to the right characters. Absent references decode as absent rather than as large positive indices, and vertex indices use the unsigned range of their width.",
 "The mmd package has no tests; deciding this needs an independent encoder and all combinations of optional blocks."),
'C05':("Any FBX node tree written in ASCII form and parsed again has the same node names, attribute values and child order: integers and finite floating-point numbers of any magnitude, strings with any characters (a literal &quot; excepted), raw data as base64 text, empty and non-empty arrays of every numeric element type. Nothing is lost or invented for nodes without attributes or without children.",
 "The one FBX test writes an almost empty document and only checks that it can be reopened."),
'C06':("A binary FBX stream in either the 32-bit or 64-bit header layout, with raw or compressed arrays, read from seekable or non-seekable sources, decodes to exactly the node tree it encodes, with properties of every type. ASCII FBX decodes to the same tree whatever its number formatting, white space, comments and line breaks. The same scene given in ASCII and in binary, in current or older layouts, yields the same objects: same kinds, names, connections, properties, matrices and geometry.",
 "The FBX test reads one ASCII file without comparing its contents; no binary FBX sample exists."),
'C07':("For every MQO, MQX, PMX, PMD, VMD and FBX file, parsing from a stream gives the same document no matter how the underlying reader splits the data across read calls, including one byte at a time, data returned together with end-of-file, empty reads, and readers that cannot seek.",
 "Tests only read local files, which never return short reads."),
'C08':("Given an MQO, MQX, PMX, PMD, VMD, FBX or binary glTF file that was cut off at any byte, the parsers return an error to the caller (unless what remains is itself a complete file) and never terminate the process, panic, hang or exhaust memory. Overwriting any single length, count, index or type field of a binary file with an extreme value, or deleting, duplicating or replacing any token of a text file, also never terminates the process, panics, hangs or exhausts memory.",
 "Fault positions are as many as there are bytes; tests only read intact files."),
'C09':("If the destination fails at any point while a document is being written (MQO, MQOZ, MQX, PMX, FBX, VRM, or a save to a path that cannot be created or filled), the writing call returns an error rather than reporting success for an incomplete file. When the call reports success, every byte of the file was accepted by the destination.",
 "No test injects an I/O failure."),
'C10':("Every glTF document converted from an MQO document is well formed: every index refers to an existing element, every accessor fits its buffer view and has the declared type and correct min/max bounds, vertex indices are in range, all attributes of a primitive have the same count, the node graph is a forest in which every node has at most one parent, skins list one inverse bind matrix per joint, and all morph targets of a mesh agree in number and have names. It survives encoding to GLB and decoding unchanged. The conversion never crashes on documents with valid face vertex indices and acyclic bones, whatever materials, weights, morph lists or textures are missing or dangling.",
 "The converter package has no tests."),
'C11':("Each visible object becomes a node whose mesh triangles cover exactly the object's faces that have an existing, not excluded material: corner positions scaled to metres, the face's own UVs (UVs of one vertex closer than 0.01 may merge) and given normals, missing normals pointing out of the surface, the orientation glTF expects, and the face's own material with its colour, texture, emission, alpha, double-sided and extended shader settings. Physics bodies are exported on the nodes of their bones or objects when asked for. Hidden objects, $IGNORE and $MORPH materials and whatever options exclude do not appear, and no other face is lost or duplicated. The scene hierarchy reproduces the object hierarchy unless told to ignore it.",
 "The converter package has no tests."),
'C12':("Every bone becomes a node at the bone's position with its parent relation preserved, the rest pose computed from the skin equals the unskinned geometry, and every vertex is bound to the bones that weighted it: all of them if at most four, else the four heaviest, with normalised weights. Every morph target listed for an object becomes a named glTF target whose deltas, expanded to triangle corners, move the base to the target shape. This holds with shared geometry data and every other option.",
 "The converter package has no tests."),
'C13':("Converting a PMX/PMD model to MQO keeps every face exactly once with its material, corner positions mirrored into the target coordinate system and its UVs, every material's colours, opacity, sidedness and texture, every bone's position, parent and IK relation, every vertex's weights, every vertex, UV and single-material morph shape, and every rigid body and joint. Unset references, unweighted vertices and morphs without effect are accepted.",
 "The converter package has no tests."),
'C14':("Converting an MQO document to MMD keeps every visible face with a material (triangulated) exactly once under that material, with positions, UVs, orientation, normals averaged at shared vertices, up to four bone weights per vertex, bone positions and hierarchy, vertex morph displacements and rigid bodies in MMD's units and handedness. Converting an MMD model to MQO and back at the matching scale returns an equivalent model in those respects.",
 "The converter package has no tests."),
'C15':("Converting an FBX scene with distinct model names to MQO keeps the models that carry meshes with their ancestors as a hierarchy, every polygon once with its world-space corner positions, UVs, normals and material under every mapping and reference mode, the materials' colours, opacity and textures, the skin weights of every cluster, the bones' world positions and parents, and every blend shape channel. Pre-rotation, nested scaling, axis settings and units are respected, and selecting or excluding objects by option converts exactly the selected ones.",
 "The converter package has no tests; the FBX test does not look at the scene."),
'C16':("Converting a glTF scene to MQO gives one object per mesh node, named after the mesh, with every triangle of every primitive once at its world-space corner positions with its UVs and its material, and every material's colour, texture file, alpha mode, cutoff, metallic and roughness values. Joints become bones at their world positions with the nearest ancestor joint as parent. Several primitives per mesh, shared meshes, strips and fans, every accessor component type and layout, matrix or TRS transforms and missing optional fields are all handled.",
 "The converter package has no tests."),
'C17':("Uniformly scaling a glTF document scales every rendered vertex, including skinned vertices and morph targets, and every node position by exactly that factor and changes nothing else. Resetting joint rotations and scales, and packing external buffers and images (relative or percent-encoded names, several buffers) into a single file leave every rendered vertex, skin binding and image unchanged, whatever the joint ordering, depth, accessor layout or current directory. Removing an extension removes it from every element and list and nothing else.",
 "The gltfutil package has no tests."),
'C18':("Applying a VRM configuration maps each humanoid bone to an existing node at most once, the first configured name that exists winning, builds blend-shape groups that bind exactly the named existing targets of every mesh with their weights, builds spring bone and collider groups that refer to existing nodes, and sets the configured metadata and material settings. Presets are merged so that explicit settings override preset ones and nothing configured or already in the document is lost. Mappings naming nodes, targets, materials or groups that do not exist are skipped, never crash and never yield an out-of-range reference.",
 "The VRM test only loads a file that is not part of the repository."),
'C19':("Loading a Unity YAML scene yields every game object with its components, its parent and the listed order of children, and world transforms equal to the product of the local transforms; prefab instances (nested and variants) contribute their objects with the instance's overrides applied. Converting the scene to MQO places every mesh, built-in primitives and imported FBX meshes, at its world position with its visibility, materials and UVs scaled by the material's texture scale. Damaged or circular scenes never crash or hang.",
 "The tests load one package's scene and only check that there is no error."),
'C20':("Opening a Unity package, extracted package or project directory makes every asset readable under its declared path with its exact bytes and findable by identifier and by path, for any order or omission of the archive's directory entries; a damaged package gives either an error or everything. No package content can create or modify a file outside the temporary extraction directory, and that directory is gone after closing the package or after a failed open.",
 "Tests open one benign package."),
'C21':("Composing and decomposing translation, rotation and non-zero scale, inverting matrices, converting between Euler angles (every rotation order), quaternions and matrices, multiplying and transforming vectors all agree with exact reference mathematics up to rounding, including axis-aligned, half-turn and gimbal-lock rotations and negative scales. No operation changes its operands unless it is documented to work in place.",
 "Tests check a handful of values."),
'C24':("For every supported input and output format pair, way of naming the output and combination of the documented options, the tool either writes an output file that loads as the requested format with the scale, rotation, hiding, unlit, alpha, morph, bone parent, VRM settings and motion options applied to exactly the named elements, or exits non-zero with a message. It never crashes, never exits zero without having produced the output, and never modifies its input files. Missing or damaged inputs, unsupported formats, malformed option values and outputs that cannot be written are failures.",
 "No test runs the tool."),

'C22':(None,"Tests use a few polygons; the statement is about every simple polygon."),
'C23':(None,"The mqo package has no tests; nothing runs sequences of operations."),
'C25':("Adding a motion to a glTF document creates, for every bone and morph named in both, channels whose keyframe times are the frame numbers at 30 per second in strictly increasing order (one keyframe per frame, whatever the order in the file) and whose values are the motion's translations, rotations and weights in glTF units and handedness, relative to the node's rest position. The weights of a mesh's targets are sampled over the union of their frames with linear interpolation. Names without a counterpart are ignored, the result is the same on every run, and the resulting document stays structurally valid.",
 "The converter package has no tests."),
'C26':("After any sequence of edits through the document API (creating models, geometry, materials, properties and layers, connecting objects already in the document without cycles, changing transforms), the object graph observed in memory - parents, children, properties, matrices, geometry - equals the one observed after writing the document and parsing it back.",
 "The one existing test builds an almost empty document."),
'C27':("A well-formed Metasequoia document decodes to exactly what it describes, whoever wrote it: text in Shift_JIS or, when the header declares CodePage utf8, in UTF-8 (with or without a byte order mark); CRLF or LF line ends; any indentation and spacing, including spaces at the end of a line; numbers in decimal or exponent form, with or without a fraction; attributes in any order; backslashes in texture paths read as path separators. Chunks and attributes the library does not know are skipped without disturbing what follows, and attributes left out take their defaults. The same holds for companion MQX data next to the file or inside an MQOZ archive: bones, weights, morph lists and physics are attached to the same objects and vertices whatever the XML's quoting, attribute order, indentation or unknown elements.",
 "The repository tests parse one sample file; its layout is one point of the space of files that other programs write."),
'C28':("The VRM 0.0 data of a VRM file - metadata, humanoid bones with their limits and settings, first person and look-at settings, blend shapes with their binds and material values, spring bones, colliders and material properties - is read with exactly the values in the file, present or left to their defaults, for any number of entries in each list. Writing the document and reading it again, or converting VRM to VRM with settings that change nothing, gives the same data and keeps the file a valid glTF with the VRM extension listed. The check for required humanoid bones reports exactly the ones that are missing.",
 "The repository tests decode one extension with a handful of fields."),
'C29':("A model or motion file (MQO, MQX, PMX, PMD, FBX, glTF, VMD) in which any single number or byte has been replaced is either refused with an error when it is read or, if it loads, every conversion of it and the writing of every result ends in reasonable time with a document or an error: no crash, no hang, no exhausted memory. A document written from it loads again, and glTF documents made from it have no reference out of range and no circular nodes.",
 "The repository tests read two undamaged files and convert nothing; a damaged index crashes in whichever converter uses it, far from the parser."),
'C30':("Reading, converting and writing the same input with the same options gives the same bytes every time, for every supported input (MQO with MQX, PMX, PMD, FBX, glTF, VMD motions, Unity scenes and prefabs) and every output (MQO, MQX, glTF with and without animation, VRM with a configuration, PMX, FBX): the order in which Go happens to iterate a map never shows in the result.",
 "A test runs under one random map order at a time and compares nothing; a dependence on the order shows in one run of many."),
}
