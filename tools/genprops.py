import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","MQO/MQOZ files written by the library read back as the same document",
 "Writing a Metasequoia document as MQO text or as an MQOZ archive and reading it back yields an equal document: the same scene, the same materials with every attribute, texture and extended shader setting, and the same objects with their flags, hierarchy depth, transforms, vertices, faces, material references, UVs and per-corner normals. Writing the re-read document again produces the same text. Names may contain any characters, including non-ASCII text, spaces, brackets and quotes.",
 ["inputs","configurations"],"every document buildable from the enumerated edits (materials x attributes, objects x attributes, face arities 2-4, UV/normal presence, UIDs, name alphabets), both containers, up to the deviation bound",
 "The repository tests load one sample file and check that it parses; they never compare a written file with the document it came from.",
 ["mqo/mqo.go","mqo/mqo_writer.go","mqo/mqo_parser.go"],
 [("WriteMQO","mqo/mqo_writer.go"),("Parser","mqo/mqo_parser.go")],
 ["mqo.WriteMQO / mqo.Parse / mqo.Save / mqo.Load"])

p("C02","MQX companion data (bones, weights, morphs, physics) survives save and load",
 "Saving a document that carries bones with weights, morph target lists or physics bodies and constraints, and loading it back, yields the same bones (identity, hierarchy, positions, IK settings, per-vertex weights), the same morph lists and the same physics data, attached to the same objects. Saving is repeatable: saving the same document several times, or saving a loaded document again, does not add, drop or duplicate anything. A vertex's bone weights stay attached to that vertex whatever combination of explicit and implicit vertex identifiers the object uses.",
 ["inputs","histories","configurations"],"every enumerated document with companion data, every sequence of save/load/save/load steps up to the depth bound",
 "Existing tests do not save a document with companion data at all; the guarantee quantifies over documents and over save/load histories.",
 ["mqo/mqo.go","mqo/mqx_writer.go","mqo/mqx_parser.go","mqo/bone_plugin.go","mqo/morph_plugin.go","mqo/physics_plugin.go"],
 [("WriteMQX / ReadMQX","mqo/mqx_writer.go, mqo/mqx_parser.go"),("PreSerialize/PostDeserialize","mqo/bone_plugin.go")],
 ["mqo.Save / mqo.Load and the plugins of the loaded document"])

p("C03","PMX files written by the library read back as the same MMD model",
 "Writing an MMD model as PMX and reading the result gives an equal model: header names and comments, vertices with normals, UVs and all skinning kinds, faces, textures, materials, bones with their flags and optional blocks, morphs of every supported kind, rigid bodies and joints. This holds for every combination of index widths declared in the header that can represent the model, and when the model outgrows the declared widths the writer still produces a file that reads back correctly.",
 ["inputs","configurations"],"every enumerated model x every assignment of the index-width attributes that can hold it",
 "Tests read one sample file; width combinations and optional blocks form a product space no sample reaches.",
 ["mmd/pmx_writer.go","mmd/pmx_parser.go","mmd/mmd.go"],
 [("PMXWriter","mmd/pmx_writer.go"),("PMXParser","mmd/pmx_parser.go")],
 ["mmd.WritePMX / mmd.Parse"])

p("C04","PMX, PMD and VMD byte streams decode to exactly what they encode",
 "A well-formed PMX 2.0, PMD or VMD byte stream, in either PMX text encoding and any legal index widths, is decoded into exactly the model or animation it encodes: no element is shifted, dropped, truncated or reinterpreted, and text is decoded to the right characters. Absent references decode as absent rather than as large positive indices.",
 ["inputs","configurations"],"every enumerated model/animation encoded by an independent encoder, x text encoding x index widths x optional sections",
 "Needs an independent encoder and all combinations of optional blocks; the repository has one PMX sample.",
 ["mmd/base_parser.go","mmd/pmx_parser.go","mmd/pmd_parser.go","mmd/vmd_parser.go"],
 [("PMXParser.Parse","mmd/pmx_parser.go"),("PMDParser.Parse","mmd/pmd_parser.go"),("VMDParser.Parse","mmd/vmd_parser.go")],
 ["mmd.Parse, mmd.NewVMDParser(r).Parse"])

p("C05","FBX ASCII output reparses to the same node tree",
 "Any FBX node tree written in ASCII form and parsed again has the same node names, attribute values and child order: integers and floating-point numbers of any magnitude, booleans, strings with any characters, empty and non-empty arrays of every numeric element type.",
 ["inputs"],"every enumerated tree (node shapes x attribute kinds x value alphabet including exponent forms, negative, extreme and empty values)",
 "The one round-trip test writes an almost empty document and only checks that the file can be reopened.",
 ["fbx/fbx_node.go","fbx/text_parser.go","fbx/fbx.go","fbx/fbx_document.go"],
 [("Node.Dump","fbx/fbx_node.go"),("textParser","fbx/text_parser.go")],
 ["fbx.Write / fbx.Parse, Node.Dump"])

p("C06","Binary FBX decodes correctly in every layout and agrees with ASCII",
 "A binary FBX stream in either the 32-bit or 64-bit header layout, with raw or compressed arrays, read from seekable or non-seekable sources, decodes to exactly the node tree it encodes, with properties of every type. The same scene given in ASCII and in binary yields the same objects: same kinds, names, connections, properties, matrices and geometry.",
 ["inputs","configurations"],"every enumerated tree x version x array compression x source kind",
 "No binary FBX sample exists in the tests.",
 ["fbx/binary_parser.go","fbx/text_parser.go","fbx/fbx_document.go","fbx/fbx_object.go","fbx/fbx_model.go","fbx/fbx_geometry.go"],
 [("binaryParser","fbx/binary_parser.go"),("BuildDocument","fbx/fbx_document.go")],
 ["fbx.Parse result"])

p("C07","Parsing does not depend on how the input stream is chunked",
 "For every supported model file, parsing from a stream gives the same document no matter how the underlying reader splits the data across read calls, including one byte at a time, data returned together with end-of-file, and readers that cannot seek.",
 ["inputs","schedules"],"every chunking of the stream with up to the bounded number of split points, plus uniform chunk sizes, for every file of the corpus covering all formats",
 "Tests always read from local files, which never return short reads.",
 ["mmd/mmd.go","mmd/base_parser.go","fbx/binary_parser.go","fbx/text_parser.go","mqo/mqo_parser.go","mqo/utils.go","unity/unity_yaml.go"],
 [("Parse entry points","mmd/mmd.go, fbx/fbx.go, mqo/mqo_parser.go")],
 ["parsed documents"])

p("C08","Truncated or damaged model files are reported as errors, never crash",
 "Given a model or motion file that was cut off at any byte, the parsers return an error to the caller (unless what remains is itself a complete file) and never terminate the process, panic or loop. For binary formats, overwriting any single length, count, index or type field with an extreme value also never terminates the process or panics.",
 ["inputs","fault_sequences"],"every truncation point and every single-field corruption of every corpus file",
 "Fault positions are as many as there are bytes; tests only read intact files.",
 ["mmd/base_parser.go","mmd/pmx_parser.go","mmd/pmd_parser.go","mmd/vmd_parser.go","fbx/binary_parser.go","fbx/text_parser.go","mqo/mqo_parser.go"],
 [("error propagation in the parsers","mmd/base_parser.go, fbx/binary_parser.go")],
 ["error result of the parse calls, process survival"])

p("C09","A failed write is reported to the caller",
 "If the destination fails at any point while a document is being written (MQO, MQOZ, MQX, PMX, FBX, or a save to a path that cannot be created or filled), the writing call returns an error rather than reporting success for an incomplete file. When the call reports success, every byte of the file was accepted by the destination.",
 ["fault_sequences","inputs"],"every write call of every writer failing, and every byte budget at which the destination becomes full",
 "No test injects an I/O failure.",
 ["mqo/mqo_writer.go","mqo/mqx_writer.go","mqo/mqo.go","mmd/pmx_writer.go","mmd/mmd.go","fbx/fbx.go","fbx/fbx_node.go"],
 [("writers' error results","mqo/mqo_writer.go, mmd/pmx_writer.go, fbx/fbx_node.go")],
 ["error result of the write/save calls"])

p("C10","glTF produced from a Metasequoia document is structurally valid",
 "Every glTF document converted from an MQO document is well formed: every index refers to an existing element, every accessor fits its buffer view and has the declared type and correct min/max bounds, vertex indices are in range, all attributes of a primitive have the same count, the node graph is a forest in which every node has at most one parent, skins list one inverse bind matrix per joint, and all morph targets of a mesh agree in number. It survives encoding to GLB and decoding unchanged, and the conversion never crashes on a document the readers can produce.",
 ["inputs","configurations"],"every enumerated MQO document (materials, objects, hierarchy, bones, weights, morphs, dangling references) x conversion options",
 "The tests convert two documents and only check that no error is returned.",
 ["converter/mqo2gltf.go"],[("mqoToGltf converter","converter/mqo2gltf.go")],["converted gltf.Document and its encoded bytes"])

p("C11","MQO to glTF conversion preserves the visible geometry and materials",
 "Each visible object becomes a node whose mesh triangles cover exactly the object's faces: corner positions scaled to metres, the face's own UVs and normals, the orientation glTF expects, and the face's own material with its colour, texture and alpha settings. Hidden objects and objects, materials or faces excluded by options do not appear, no face is lost or duplicated, and the scene hierarchy reproduces the object hierarchy.",
 ["inputs","configurations"],"every enumerated MQO document x options",
 "Tests do not look at the resulting geometry.",
 ["converter/mqo2gltf.go","mqo/mqo.go","geom/utils.go"],[("ConvertObject, convertMaterial","converter/mqo2gltf.go")],["positions/indices/attributes decoded from the glTF buffers"])

p("C12","MQO to glTF conversion preserves skinning and morph targets",
 "Every bone becomes a node at the bone's position with its parent relation preserved, the rest pose computed from the skin equals the unskinned geometry, and every vertex is bound to the bones that weighted it: all of them if at most four, else the four heaviest, with normalised weights. Every morph target listed for an object becomes a named glTF target whose deltas, expanded to triangle corners, move the base to the target shape.",
 ["inputs","configurations"],"every enumerated skeleton x weight assignment x morph list x options",
 "Tests do not decode joints, weights or targets.",
 ["converter/mqo2gltf.go","mqo/bone_plugin.go","mqo/morph_plugin.go"],[("getWeights, addBoneNodes, convertMorphs","converter/mqo2gltf.go")],["decoded JOINTS_0/WEIGHTS_0, inverse bind matrices, targets"])

p("C13","MMD to MQO conversion preserves the model",
 "Converting a PMX/PMD model to MQO keeps every face exactly once with its material, corner positions mirrored into the target coordinate system and its UVs, keeps every material's colours and texture, every bone's position, parent and IK relation, every vertex's weights, every vertex and group morph shape, and every rigid body and joint. Unset references and unweighted vertices are accepted.",
 ["inputs","configurations"],"every enumerated MMD model x conversion options",
 "The test converts one sample and checks only for the absence of an error.",
 ["converter/mmd2mqo.go"],[("mmdToMqo converter","converter/mmd2mqo.go")],["converted mqo.Document"])

p("C14","MQO to MMD conversion preserves the model",
 "Converting an MQO document to MMD keeps every visible face (triangulated) exactly once under its material, with positions, normals, UVs, bone weights, bone positions and hierarchy, morph displacements and physics in MMD's units and handedness. Converting an MMD model to MQO and back at the matching scale returns an equivalent model.",
 ["inputs","configurations"],"every enumerated MQO document, and every enumerated MMD model for the there-and-back trip",
 "The tests never decode the converted model.",
 ["converter/mqo2mmd.go","converter/mmd2mqo.go"],[("mqoToMMD converter","converter/mqo2mmd.go")],["converted mmd.Document"])

p("C15","FBX to MQO conversion preserves the scene",
 "Converting an FBX scene to MQO keeps the model hierarchy, every polygon once with its world-space corner positions, UVs and material under every mapping and reference mode, the materials' colours, opacity and textures, the skin weights of every cluster, the bones' world positions and parents, and every blend shape channel.",
 ["inputs","configurations"],"every enumerated FBX scene (mapping x reference modes, nested transforms, rotation orders, clusters, blend shapes) x options",
 "The tests convert one ASCII sample without inspecting the result.",
 ["converter/fbx2mqo.go","fbx/fbx_geometry.go","fbx/fbx_model.go"],[("fbxToMqo converter","converter/fbx2mqo.go")],["converted mqo.Document"])

p("C16","glTF to MQO conversion preserves the scene",
 "Converting a glTF scene to MQO keeps every node with its parent, every triangle of every primitive once with its world-space corner positions, its UVs and its material, and every material's colour, texture and alpha mode; documents with several primitives per mesh, shared meshes, matrix or TRS transforms and missing optional fields are all handled.",
 ["inputs","configurations"],"every enumerated glTF document x accessor component types",
 "The tests never inspect the converted geometry.",
 ["converter/gltf2mqo.go"],[("gltfToMqo converter","converter/gltf2mqo.go")],["converted mqo.Document"])

p("C17","glTF post-processing preserves what is rendered",
 "Uniformly scaling or transforming a glTF document moves every rendered vertex, including skinned vertices and morph targets, by exactly that transform. Baking joint rotations, converting joint component types and packing external resources into a single file leave every rendered vertex, skin binding and image unchanged, whatever the joint ordering, depth, accessor layout or current directory.",
 ["inputs","configurations"],"every enumerated skinned/morphed document x transform, every joint order and chain depth within the bounds",
 "No test exists for these utilities.",
 ["gltfutil/gltf_utils.go","gltfutil/gltf_joint.go"],[("ApplyTransform, ResetJointMatrix, ToSingleFile","gltfutil/")],["linear-blend-skinned vertex positions computed from the document"])

p("C18","VRM settings produce a consistent VRM document",
 "Applying a VRM configuration maps each humanoid bone to an existing node at most once and according to the configured priority, builds blend-shape groups that bind exactly the named existing targets with their weights, builds spring bone and collider groups that refer to existing nodes, and merges presets so that explicit settings override preset ones and nothing configured is lost. Mappings naming nodes, targets or materials that do not exist are skipped, never crash and never yield an out-of-range reference.",
 ["inputs","configurations"],"every enumerated configuration x document x preset within the bounds",
 "Tests apply one preset file to one sample.",
 ["converter/vrmconfig.go","vrm/vrm.go","vrm/vrm_extension.go","converter/mqo2gltf.go"],[("ApplyVRMConfig, MergePreset","converter/vrmconfig.go")],["VRM extension of the converted document"])

p("C19","Unity scenes and prefabs load with the right hierarchy and geometry",
 "Loading a Unity YAML scene yields every game object with its components, parent/child relations and order, and world transforms equal to the product of the local transforms; prefab instances contribute their objects with the instance's overrides applied. Converting the scene to MQO places every mesh, including built-in primitives, at its world position with its material and UVs.",
 ["inputs","configurations"],"every enumerated scene (document orders, hierarchy shapes, prefab nesting, override sets, missing references) within the bounds",
 "Tests load one sample scene.",
 ["unity/unity_scene.go","unity/unity_yaml.go","unity/unity_components.go","unity/unity_builtin.go","converter/unity2mqo.go"],[("LoadScene","unity/unity_scene.go"),("unityToMqo converter","converter/unity2mqo.go")],["unity.Scene, converted mqo.Document"])

p("C20","Unity packages extract completely, only inside their own directory",
 "Opening a Unity package makes every asset readable under its declared path with its exact bytes and findable by identifier and by path, for any order or omission of the archive's directory entries. No package content can create or modify a file outside the temporary extraction directory, and that directory is gone after closing the package or after a failed open.",
 ["inputs","histories","fault_sequences"],"every archive of up to the bounded number of entries over an alphabet including traversal paths, entry orders and missing members",
 "Tests open one benign package.",
 ["unity/unity_assets.go","unity/unity.go"],[("OpenPackage / extractPackage","unity/unity_assets.go")],["assets returned, file system under a private scratch root"])

p("C21","Vector, matrix, quaternion and Euler operations obey their algebra",
 "Composing and decomposing translation, rotation and scale, inverting matrices, converting between Euler angles (every rotation order), quaternions and matrices, multiplying and transforming vectors all agree with exact reference mathematics up to rounding, including axis-aligned, half-turn and gimbal-lock rotations and negative scales.",
 ["inputs"],"the full product of a finite grid of angles, orders, scales, translations and vectors",
 "Tests check a handful of values.",
 ["geom/matrix4.go","geom/quaternion.go","geom/euler.go","geom/vector2.go","geom/vector3.go"],[("geom package","geom/")],["returned values"])

p("C22","Triangulation covers each simple polygon exactly once",
 "Triangulating a simple polygon with n corners, convex or concave, in any plane and either winding, yields n-2 triangles over the polygon's own corners that keep its orientation, do not overlap and cover exactly its area.",
 ["inputs"],"all simple polygons with up to the bounded number of corners on a bounded grid, in several planes",
 "Tests use two polygons.",
 ["geom/utils.go"],[("Triangulate","geom/utils.go")],["returned triangles"])

p("C23","Editing operations on a Metasequoia document keep it consistent",
 "After any sequence of document operations (transforming, applying transforms, applying morphs, fixing names and identifiers, flipping faces, cloning, binding bone weights), world positions of untouched geometry are unchanged, transformed geometry moves by exactly the given transform together with bones and physics, identifiers and names are unique with references still resolving to the same things, and a clone shares no state with its original.",
 ["histories","inputs"],"every sequence of operations up to the depth bound from every initial document of the enumerated set",
 "Tests never run sequences of operations.",
 ["mqo/mqo.go","mqo/utils.go","mqo/bone_plugin.go","mqo/morph_plugin.go","mqo/physics_plugin.go"],[("Document/Object methods","mqo/mqo.go, mqo/utils.go")],["document state against a reference model"])

p("C24","The command line tool applies its options and reports failure",
 "For every supported input and output format pair and every combination of options, the tool either writes an output file that loads as the requested format with the requested hiding, unlit, alpha, morph, reparenting and scale options applied to exactly the named elements, or exits non-zero with a message. It never crashes, and never exits zero without having produced the output.",
 ["configurations","inputs"],"every option combination up to the deviation bound x format pairs x (existing / missing / damaged input, unwritable output)",
 "No test runs the tool.",
 ["cmd/modelconv/main.go","cmd/modelconv/utils.go"],[("main, saveDocument","cmd/modelconv/main.go")],["exit status and output file"])

p("C25","VMD motions become equivalent glTF animations",
 "Adding a motion to a glTF document creates, for every bone and morph named in both, channels whose keyframe times are the frame numbers at 30 per second in strictly increasing order and whose values are the motion's translations, rotations and weights in glTF units and handedness. Names without a counterpart are ignored, and the resulting document stays structurally valid.",
 ["inputs"],"every enumerated motion (frame orders, duplicates, unknown names) x target skeleton",
 "No test covers animation conversion.",
 ["converter/glbanim.go","mmd/vmd_parser.go"],[("AddAnimationTpGlb and friends","converter/glbanim.go")],["animation samplers and channels of the document"])

p("C26","FBX documents built or edited through the API survive write and reparse",
 "After any sequence of edits through the document API (creating models, geometry, materials, properties and layers, connecting objects, changing transforms), the object graph observed in memory - parents, children, properties, matrices, geometry - equals the one observed after writing the document and parsing it back.",
 ["histories"],"every sequence of API calls up to the depth bound",
 "The one existing test builds an almost empty document.",
 ["fbx/fbx_document.go","fbx/fbx_object.go","fbx/fbx_model.go","fbx/fbx_geometry.go","fbx/fbx_material.go"],[("Document.AddObject / AddConnection, setters","fbx/fbx_document.go, fbx/fbx_object.go")],["getters before writing and after reparsing"])

p("C27","MQO and MQX files written by Metasequoia decode to what they describe",
 "x",["inputs","configurations"],"every enumerated document x every enumerated layout of the file (code page, line ends, indentation, spacing, number forms, attribute orders, unknown chunks and attributes, omitted defaults), read from a stream, from a file or from an archive, with and without companion data",
 "x",
 ["mqo/mqo_parser.go","mqo/mqx_parser.go","mqo/mqo.go","mqo/bone_plugin.go","mqo/morph_plugin.go","mqo/physics_plugin.go"],
 [("Parser.Parse","mqo/mqo_parser.go"),("ReadMQX","mqo/mqx_parser.go"),("Load","mqo/mqo.go")],["mqo.NewParser(...).Parse / mqo.Load and the document returned"])
p("C28","VRM data in VRM files survives reading and writing",
 "x",["inputs","configurations"],"every field of the VRM 0.0 data x (usual, default, unusual value, missing) up to the deviation bound, every list with 0 to n elements, every set of up to B missing required bones",
 "x",
 ["vrm/vrm.go","vrm/vrm_parser.go","vrm/vrm_writer.go","converter/vrmconfig.go"],
 [("VRM","vrm/vrm.go"),("Parse","vrm/vrm_parser.go"),("Write","vrm/vrm_writer.go"),("ApplyVRMConfig","converter/vrmconfig.go")],["vrm.Parse / gltfutil.Load and the VRM extension returned, before and after writing"])
p("C29","Damaged model files that still load are converted or refused",
 "x",["inputs"],"every document of the enumerated set x every number (text formats) or byte (binary formats) of its file x every replacement value x conversion options",
 "x",
 ["mqo/mqo_parser.go","mmd/pmx_parser.go","mmd/pmd_parser.go","fbx/fbx_document.go","gltfutil/gltf_utils.go","converter/"],
 [("loaders","mqo, mmd, fbx, gltfutil"),("Convert","converter/*.go"),("writers","mqo/mqo_writer.go, mmd/*_writer.go, fbx/binary_writer.go")],["Load / Parse, every Convert of the format, Write: returned values and errors, time"])
p("C30","Conversions are reproducible",
 "x",["schedules","inputs"],"every document of the enumerated set x conversion x every starting element of each map iteration (all alike, and each one by itself)",
 "x",
 ["converter/","mqo/mqo_writer.go","mqo/mqx_writer.go","fbx/","mmd/","gltfutil/gltf_utils.go","unity/"],
 [("Convert","converter/*.go"),("writers","mqo, mmd, fbx"),("loaders","mqo, mmd, fbx, unity, gltfutil")],["the bytes of every output"])
# the statements as they now stand
exec(open("/verif/tools/texts.py").read())
for x in P:
    st,why=S[x["id"]]
    if st: x["statement"]=st
    if why: x["why_tests_cant"]=why
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
