# ---------------------------------------------------------------- numeric
p("C01", "Vertex and vector operations are component-wise algebra",
  "Every arithmetic, comparison, product, norm and construction operation of a fixed-size point or vector gives the component-wise textbook result for every dimension, coordinate type and scalar type, and compound operations change only their left operand. Orthogonalisation gives mutually orthogonal vectors spanning the same space.",
  ["inputs", "programs"], "all operand values; dimensions 1-4; float and double coordinates; floating, int and unsigned long scalars",
  "tests evaluate a few concrete triples with double scalars only; the operators recurse over templates, so one wrong index or one integer division shows only for some dimension/scalar type",
  ["NumericStaticArray/Vertex.h", "NumericStaticArray/Vector.h", "NumericStaticArray/InlineArrayOperations.h", "NumericStaticArray/GramSchmidt.h"],
  [("recursive inline array operations", S + "NumericStaticArray/InlineArrayOperations.h"), ("Vertex operators", S + "NumericStaticArray/Vertex.h"), ("orthogonalisation", S + "NumericStaticArray/GramSchmidt.h")],
  VF, "proof for the enumerated instantiations modulo real-number algebra; " + NF)
# ---------------------------------------------------------------- serializer
p("C02", "Serialized values read back equal, kind by kind",
  "Writing a value of any supported kind (scalar, enum, string, contiguous or node container, map, set, tuple, pair, reflected class, custom serializer, and nestings) and reading it back yields an equal value, and reading consumes exactly the bytes that writing produced, so any sequence of values is read back in order.",
  ["inputs", "programs"], "all values and container lengths of the enumerated type shapes",
  "tests round-trip a handful of literals and lengths; a layout disagreement between a writer and a reader shows only for particular lengths or nestings",
  ["BinarySerializer/BinarySerializer.h", "BinarySerializer/Serializers/SerializeSimple.h", "BinarySerializer/Serializers/SerializeIterable.h", "BinarySerializer/Serializers/SerializeIndexable.h", "BinarySerializer/Serializers/SerializeCompactContainer.h", "BinarySerializer/Serializers/SerializeTuple.h", "BinarySerializer/Serializers/SerializeTraitedClass.h", "BinarySerializer/Serializers/SerializeCustom.h"],
  [("serializer selection by type", S + "BinarySerializer/BinarySerializer.h"), ("length prefix and element order", S + "BinarySerializer/Serializers")],
  "static value-flow comparison of each writer and reader against a byte-layout reference; symbolic composition of reader after writer", NF)
p("C03", "The serializer's read position survives every interleaving of operations",
  "After any sequence of writes, loads, clears, copies and moves, reading continues at the byte that follows the last one read (or at the first byte after a load, clear or reset) of the serializer's own current data, never at storage it has released.",
  ["histories"], "all interleavings of write, read, load from file, clear, reset, copy, move and assignment",
  "tests write everything, then read everything; a dangling position after growth of the buffer usually still reads the old bytes",
  ["BinarySerializer/BinarySerializer.h"], [("read position", S + "BinarySerializer/BinarySerializer.h")],
  "static transfer-function analysis of every public operation on the abstract state (bytes, position)", NF)
p("C04", "Reading a stored sequence never writes past a fixed-size destination",
  "Reading a stored sequence into a destination whose length cannot change never writes outside it: the read is refused when the stored length differs from the destination's length.",
  ["inputs"], "every stored length and every fixed-size destination kind",
  "tests only read back what the same type wrote, where the lengths always agree", 
  ["BinarySerializer/Serializers/SerializeCompactContainer.h", "BinarySerializer/Serializers/SerializeIndexable.h"],
  [("length check before the copy", S + "BinarySerializer/Serializers/SerializeCompactContainer.h")],
  "static bounds obligation: path conditions of every write into a fixed-size destination", NF)
p("C05", "Saving to and loading from a file reports failure and transfers every byte",
  "Saving writes exactly the serializer's bytes and loading replaces its contents by exactly the file's bytes; a file that cannot be opened is reported to the caller by an exception in both directions.",
  ["fault_sequences", "inputs"], "every file name, every content length and every open failure",
  "the one file test uses a writable path and a file that exists",
  ["BinarySerializer/BinarySerializer.h"], [("saveToFile / loadFromFile", S + "BinarySerializer/BinarySerializer.h")],
  "static effect-trace equivalence of the file operations against a reference, with the path condition of each effect", NF)
# ---------------------------------------------------------------- traits
p("C06", "A reflected member access reads and writes exactly that member",
  "For every way of declaring a reflected member (data pointer, reference-returning method, value getter with setter, free functions and functors) reading returns the member's current value, writing changes that member and nothing else, and an access that the declaration does not allow is rejected at compile time.",
  ["programs", "inputs"], "all access kinds, const and non-const objects, by reference and by pointer; all member values",
  "tests touch a few members of two classes; a mixed-up index or accessor overload for another access kind compiles and passes",
  ["Traits/Traits.h", "Traits/MemberAccess/MemberAccess.h", "Traits/MemberAccess/GetSetAccess.h", "Traits/MemberAccess/AccessType.h", "Traits/FunctionTraits.h"],
  [("member access kinds", S + "Traits/MemberAccess"), ("indexed member references", S + "Traits/Traits.h")],
  VF + ", plus compile and compile-fail witnesses", NF)
p("C07", "Applying a functor over a reflection visits each member once, in order, by name",
  "Applying a functor over a class's reflection calls it exactly once for every member, in declaration order, passing that member's own index, access and name.",
  ["programs"], "all member counts and all forms of application (all members, with and without type argument, run-time and compile-time indices)",
  "tests use classes with two or three members and one form of application",
  ["Traits/Traits.h", "Traits/CustomTypeTraits.h"], [("recursive application", S + "Traits/Traits.h")],
  "static call-trace analysis: ordered opaque-call trace and arguments of every application form", NF)
p("C08", "Reflection macros register every listed member under its own name",
  "The macros that reflect a class by a list of members register exactly the listed members, in order, each under its own identifier (or the explicitly given name), for every list length the macros accept.",
  ["programs"], "every member count from 1 to the macros' documented maximum, every macro variant",
  "the macro tables are hand-enumerated up to large argument counts; tests use two or three",
  ["Macros/MacroForEach.h", "Traits/Traits.h"], [("FOR_EACH tables", S + "Macros/MacroForEach.h"), ("MAKE_*_TRAIT macros", S + "Traits/Traits.h")],
  "exhaustive preprocessor expansion over all admitted arities compared token-wise with a reference; static value-flow on the expanded traits", "complete over the macro arities; " + NF)
p("C09", "A type's reflection is selected by the documented priority",
  "The reflection used for a type in arithmetic, input/output or default context is the context-specific one if the class provides it, otherwise the default one; an explicitly bound reflection takes precedence over both and applies to the type it is bound to only.",
  ["programs"], "all combinations of provided reflections and of bound lists",
  "tests cover one class with all reflections and one binding",
  ["Traits/CustomTypeTraits.h", "Traits/TraitsBind/TraitsBind.h", "Utils/ClassSelector.h"], [("selection by specialisation", S + "Traits/CustomTypeTraits.h"), ("bound selection", S + "Traits/TraitsBind/TraitsBind.h")],
  "type-level witnesses (static_assert over the full combination table, compiled against the current headers)", "complete over the enumerated combinations; trusts the clang front end")
p("C10", "Arithmetic on reflected classes acts member by member",
  "Every arithmetic operator, comparison aggregate and elementary function over a reflected or indexable type acts on each reflected member separately (recursively) and on nothing else, and aggregates (min, max, sum) combine all members.",
  ["inputs", "programs"], "all operand values, l-value and r-value operand forms, nested reflected and indexable members",
  "tests evaluate some operators on one or two values; each operator has up to four hand-written overloads",
  ["Traits/TraitsAlgorithm/TraitsAlgorithm.h"], [("operator overloads", S + "Traits/TraitsAlgorithm/TraitsAlgorithm.h")],
  VF, NF)
p("C11", "Container interfaces address the right element and size",
  "The uniform view over containers reads and writes the element with the given index, reports the container's true length and, where resizing is offered, makes the length the requested one.",
  ["inputs", "programs"], "all indices below the length; all supported container families",
  "tests use the views only through printing and serialization of short vectors",
  ["Traits/Interfaces/InterfaceIndexable.h", "Traits/Interfaces/InterfaceCompactContainer.h", "Traits/Interfaces/InterfaceCompact.h"],
  [("Interface specialisations", S + "Traits/Interfaces")], VF, NF)
# ---------------------------------------------------------------- debug
p("C12", "The two debug back ends print the same structure",
  "Exporting a value prints every element of every nested level exactly once in order with balanced delimiters, and the stream and the C-stdio back end produce the same structure for the same value.",
  ["inputs", "programs"], "all supported value kinds and nestings, all lengths including empty",
  "tests compare a few short literals, none of them empty nested containers in both back ends",
  ["Debug/VariableExport.h", "Debug/Printers/PrintIterable.h", "Debug/Printers/PrintIndexable.h", "Debug/Printers/PrintTuple.h", "Debug/Printers/PrintTraitedClass.h", "Debug/Printers/PrintText.h", "Debug/Printers/PrintExportable.h", "Debug/Printers/PrintCustom.h", "Debug/Printers/PrintAny.h"],
  [("printer per kind", S + "Debug/Printers")],
  "static emission-grammar analysis: the ordered output trace of each printer in both back ends against one reference", NF)
p("C13", "Formatted output conversions match their arguments",
  "Every formatted-output call in the library passes, for each conversion, an argument of exactly the type the conversion names, and prints nothing beyond the value.",
  ["programs"], "every call site and every instantiated argument type",
  "a wrong conversion prints plausible text for small positive values",
  ["Debug/Printers/PrintExportable.h", "Debug/Printers/PrintText.h", "Debug/ConsoleLogger.h", "Debug/VariableExport.h"],
  [("print overloads", S + "Debug/Printers")],
  "custom static rule over every printf-family call in the IR: format string parsed and matched with the argument types", "proof over all instantiated call sites; trusts the clang front end")
p("C14", "The JSON log is well formed whatever is logged",
  "Once a JSON log is closed, its file is one complete document: the opening once, every record written since, in order, separated by commas, each with its group, file, line, expression and value, and the closing bracket once; file names and expressions are escaped whatever they contain, and so is logged text.",
  ["inputs", "histories"], "every logged text and value, every number of records, groups, closings and re-openings",
  "the test writes one fixed record and never parses the file",
  ["Debug/JSONLogger.h", "Debug/VariableExport.h"], [("record writing and closing bracket", S + "Debug/JSONLogger.h")],
  "static emission analysis: the ordered output trace of every history of the logger against a reference document, with the provenance of every quoted text (escape obligations)", NF)
p("C15", "Disabled debug macros do nothing and every macro exists in both modes",
  "Every public debug macro is usable in both the enabled and the disabled build mode; when disabled it evaluates none of its arguments and has no effect, when enabled it evaluates each argument expression exactly once.",
  ["configurations", "programs"], "all public macros, both modes, 1 to several arguments",
  "tests are only built in the enabled mode and pass side-effect-free expressions",
  ["Debug/Debug.h"], [("macro definitions", S + "Debug/Debug.h")],
  "preprocessor-table comparison of both modes plus static effect counting in the IR of macro witnesses", "trusts the clang front end")
p("C16", "A log file is closed exactly once",
  "Opening, re-opening, closing and destroying a logger in any order releases each opened log file exactly once and never uses a released one.",
  ["histories"], "all sequences of create, write, destroy and object destruction",
  "tests use each logger once and let the process end",
  ["Debug/JSONLogger.h", "Debug/HTMLLogger.h"], [("owned log stream", S + "Debug")],
  "ownership/typestate analysis over the IR of each logger operation", NF)
p("C17", "Every debug record names its place and carries each value once, in order",
  "A call of the console, C-stdio or HTML logger writes, for each name and value passed, one record with the call's place (file, line and, where it is printed, function), the name and the value, in the order passed and to the back end's own output; the settings of the console logger act as they say and reset restores the defaults.",
  ["inputs", "configurations"], "every setting of the console logger, every text, name and value, one to several values per call",
  "tests print with the default settings and look at nothing but that it does not crash",
  ["Debug/ConsoleLogger.h", "Debug/HTMLLogger.h"], [("record writing", S + "Debug/ConsoleLogger.h"), ("rows of the log", S + "Debug/HTMLLogger.h")],
  "static emission analysis: the ordered output trace of every logging call against a reference record", NF)
# ---------------------------------------------------------------- mesh data model
p("C20", "Mesh data containers route each dimension to its own array and size",
  "Data mapped to a mesh element dimension is stored in, sized by and retrieved from the array declared for exactly that dimension (also when a dimension repeats or dimensions are unordered), and indexing a container by an element returns the entry with the element's index; the checked form refuses an element without an entry.",
  ["programs", "inputs"], "all dimension lists, repeated dimensions, value types, meshes and elements",
  "tests use one or two dimension lists where position and dimension nearly coincide",
  ["UnstructuredMesh/MeshDataContainer/MeshDataContainer.h"], [("dimension index search and allocation", S + "UnstructuredMesh/MeshDataContainer/MeshDataContainer.h")],
  VF, NF)
p("C21", "Boundary indices are distinguishable and reversible",
  "Tagging an index as a boundary index and extracting it again gives back the index, a tagged index is recognised as boundary and an untagged one is not, and neither is ever taken for the invalid index.",
  ["inputs"], "every index an index type can represent outside the reserved ones, every unsigned index type",
  "tests use two indices of one type",
  ["UnstructuredMesh/UnstructuredMeshDefine.h", "UnstructuredMesh/MeshElements/MeshElements.h"], [("index tagging", S + "UnstructuredMesh/UnstructuredMeshDefine.h")],
  "static law witnesses folded to true on every path of the normalised IR", NF)
p("C22", "Face-cell links and boundary chains are updated consistently",
  "Reading, setting and swapping the two cells of a face, asking for the other cell of a face and following the boundary chain of a cell are consistent: setters store at the named side, the other-cell query returns the opposite side and refuses a cell the face does not touch, swapping sides also swaps the chain links that belong to them, and setting up boundary cells gives every missing side its own boundary cell that refers to the face and takes its center.",
  ["inputs", "histories"], "every combination of sides, valid, boundary and invalid indices",
  "tests build meshes only through one loader and never swap sides",
  ["UnstructuredMesh/MeshElements/CellConnection.h", "UnstructuredMesh/MeshElements/CellBoundaryConnection.h"], [("left/right cell and next-boundary links", S + "UnstructuredMesh/MeshElements")],
  VF, NF)
p("C23", "Inline subelement lists stay within their capacity",
  "Adding a subelement to a fixed-capacity element list stores it at the end and counts it, removing keeps the order of the remaining ones, and adding beyond the capacity or removing outside the list is refused without touching memory outside the list; a dynamic list does the same without the capacity limit.",
  ["inputs", "histories"], "all fill levels and capacities",
  "tests never fill a list to its capacity", 
  ["UnstructuredMesh/MeshElements/MeshElement.h"], [("SubelementContainer", S + "UnstructuredMesh/MeshElements/MeshElement.h")],
  VF, NF)
p("C24", "Mesh objects own independent and complete state",
  "Clearing a mesh removes all elements of all dimensions including boundary cells, copying and moving transfer all of them together with the mesh's identity, an element is constructed with exactly the indices and position it is given, and no member of a freshly constructed mesh, element, reader or writer is read before it is set.",
  ["histories", "programs"], "all dimensions and storage variants, all orders of construction, clear, copy and use",
  "tests never reuse a mesh object after clearing it; uninitialised members usually read as zero",
  ["UnstructuredMesh/MeshElements/MeshElements.h", "UnstructuredMesh/MeshElements/MeshElement.h", "UnstructuredMesh/MeshIO/MeshWriter/MeshWriter.h", "UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h", "UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h"],
  [("element storage", S + "UnstructuredMesh/MeshElements/MeshElements.h")],
  "static effect analysis (which fields each operation defines) on the normalised IR", NF)
# ---------------------------------------------------------------- mesh algorithms
p("C30", "Element centers are the averages of their parts",
  "The default center of an edge, face and cell is the mean of its vertices' or sub-element centers; the tessellated centers weight the sub-elements by their measure; centers of every dimension are computed from the current vertex positions and stored under the element's own index.",
  ["inputs"], "every mesh of every supported dimension, every vertex position",
  "tests check two unit cells", ["UnstructuredMesh/MeshFunctions/ComputeCenters.h", "UnstructuredMesh/MeshFunctions/GetCenters.h"],
  [("center recursion", S + "UnstructuredMesh/MeshFunctions/ComputeCenters.h")], VF + " (loops included)", NF)
p("C31", "Measures equal the geometric formula of the element",
  "The computed measure of every edge, face and cell equals the sum over its parts of the classical formula (length, triangle fan area, pyramid volume) with the selected method, and is stored under the element's own index.",
  ["inputs"], "every mesh of dimension 1-3 and every vertex position, both methods",
  "tests check the unit cube and prism, where several wrong formulas agree", ["UnstructuredMesh/MeshFunctions/ComputeMeasures.h"],
  [("measure recursion", S + "UnstructuredMesh/MeshFunctions/ComputeMeasures.h")], VF + " (loops included)", NF)
p("C32", "Face normals are unit vectors with one orientation rule per dimension",
  "The computed normal of every face is the unit vector orthogonal to the face, oriented by one rule for all faces of a dimension: in 2D the direction from vertex A to vertex B turned clockwise, in 3D away from the left cell (towards the right cell where the left one is missing or boundary), in higher dimensions a fixed side of the left/right cell. The orientation of an edge around a face (its left side) is the sign of the turn as seen along that face's normal, listed for every edge of every face in list order.",
  ["inputs"], "every mesh of dimension 2-3", "tests check faces of one mesh",
  ["UnstructuredMesh/MeshFunctions/ComputeNormals.h", "UnstructuredMesh/MeshFunctions/EdgesOrientation.h"], [("normal computation", S + "UnstructuredMesh/MeshFunctions/ComputeNormals.h")], VF + " (loops included)", NF)
p("C33", "Cell-to-cell vectors and distances use the face where a side is missing",
  "For every face the vector between the neighbouring cell centers points from the left to the right cell and its length is the reported distance; where one side is missing or boundary, the face center takes the place of the missing center with the same orientation.",
  ["inputs"], "every mesh, every combination of present, missing and boundary sides", "tests sum distances over one mesh",
  ["UnstructuredMesh/MeshFunctions/ComputeCellsCenterDifference.h", "UnstructuredMesh/MeshFunctions/CellsDistance.h"], [("side selection", S + "UnstructuredMesh/MeshFunctions")], VF + " (loops included)", NF)
p("C34", "Traversal applies the functor to each incident pair exactly as listed",
  "Applying a functor from elements of one dimension to elements of another visits, for every start element, every target element reachable through the incidence lists in list order (a cell's faces by its boundary chain once around), passing the start and target indices in the documented order; the form for a single element visits exactly that element's part.",
  ["inputs", "programs"], "every mesh and every (start, target) dimension pair, up and down", "tests use two pairs on one mesh",
  ["UnstructuredMesh/MeshFunctions/MeshApply.h"], [("recursive descent", S + "UnstructuredMesh/MeshFunctions/MeshApply.h")], VF + " over opaque call traces", NF)
p("C35", "Connection tables list each incident element once, in the chosen order",
  "The connection table of two dimensions contains, for every element, exactly its incident elements of the other dimension without duplicates, ascending or in traversal order as requested; the neighbourhood table contains exactly the elements sharing a connecting element, excluding the element itself.",
  ["inputs", "programs"], "every mesh and every dimension pair/triple and order", "tests print some tables on one mesh",
  ["UnstructuredMesh/MeshFunctions/MeshConnections.h", "UnstructuredMesh/MeshFunctions/MeshNeighborhood.h"], [("table construction", S + "UnstructuredMesh/MeshFunctions/MeshConnections.h")], VF + " (loops included)", NF)
p("C36", "A mesh coloring gives adjacent elements different colors",
  "In every coloring of mesh elements two elements that share an element of the connecting dimension have different colors, and every element has a color.",
  ["inputs", "programs"], "every mesh, both methods, all dimension pairs, every random sequence", "tests check one mesh",
  ["UnstructuredMesh/MeshFunctions/MeshColoring.h"], [("color assignment", S + "UnstructuredMesh/MeshFunctions/MeshColoring.h")],
  VF + " of the color-selection step against a reference that keeps the invariant", NF)
p("C37", "The selected computation method reaches every level of the computation",
  "When a computation of geometric quantities is asked for a specific method, every quantity it computes on the way uses that same method.",
  ["programs"], "every public computation, both methods, every dimension", "on the planar test meshes both methods give the same numbers",
  ["UnstructuredMesh/MeshFunctions/ComputeMeasures.h", "UnstructuredMesh/MeshFunctions/ComputeCenters.h", "UnstructuredMesh/MeshFunctions/ComputeNormals.h", "UnstructuredMesh/UnstructuredMesh.h"], [("method template parameter", S + "UnstructuredMesh/MeshFunctions")],
  "call-graph analysis of the instantiated program: template arguments along every call path from a public entry", "trusts the clang front end")
# ---------------------------------------------------------------- mesh input/output
p("C40", "Geometry type codes and vertex orders agree between reading and writing",
  "Every geometry type that can be written is written under the code and vertex order under which the reader recognises it, each type's face and edge table describes a closed cell, and the vertices of every cell code the reader accepts are taken in the order the file format gives them.",
  ["programs", "inputs"], "all supported geometry types in all dimensions", "tests read one file with one or two cell types",
  ["UnstructuredMesh/MeshIO/MeshNativeType.h", "UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h", "UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h"], [("type code tables and edge tables", S + "UnstructuredMesh/MeshIO")],
  "relational value numbering of the readers and writers over the IR against reference tables, plus a combinatorial rule over the reference tables (closedness, codes inverse to each other, vertex orders read back)", "complete over all files, meshes and cells of the given kinds; trusts the witness models of stream, vector and map")
p("C41", "Unsupported input is refused with an error, never silently accepted",
  "Reading a mesh or data file whose format, cell type, dimension or attribute is not supported or that cannot be opened raises an error the caller can see.",
  ["inputs", "fault_sequences"], "every reader entry and every unsupported code", "tests read well-formed files only",
  ["UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h", "UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h", "UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h", "UnstructuredMesh/UnstructuredMesh.h"], [("error branches of the readers", S + "UnstructuredMesh/MeshIO/MeshReader")],
  "relational value numbering of the readers over the IR: the conditions under which they throw equal the reference's", "trusts the witness models of stream, vector and map")
p("C42", "Mesh readers build the element tables from what the file says",
  "Reading a mesh replaces the previous contents, creates one element per record, links each edge and face exactly once between its cells with left side first, and refreshes the mesh's identity.",
  ["inputs"], "every well-formed file", "tests read one file", ["UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h", "UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h"],
  [("loadFromStream", S + "UnstructuredMesh/MeshIO/MeshReader")], VF + " of the loading steps", NF)
p("C43", "Written mesh and data files declare exactly the counts and values they contain",
  "A written mesh or data file declares counts that equal the number of records that follow, writes every element and every reflected attribute exactly once under its own name, and reading the data back assigns each attribute from the section of its name.",
  ["inputs", "programs"], "every mesh, data container and attribute list", "tests write one mesh and do not read it back completely",
  ["UnstructuredMesh/MeshIO/MeshWriter/VTKMeshWriter.h", "UnstructuredMesh/MeshIO/MeshWriter/FPMAMeshWriter.h", "UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h", "UnstructuredMesh/MeshDataContainer/MeshDataIO/VTKMeshDataReader.h"],
  [("section headers and loops", S + "UnstructuredMesh/MeshIO/MeshWriter")], VF + " of everything written and read, token by token", NF)
p("C44", "Every documented operation compiles for every supported type and dimension",
  "Every documented public operation can be instantiated for all dimensions, storage variants, index types and value kinds the library declares to support.",
  ["programs"], "the enumerated public operations times supported dimensions and variants", "templates that no test instantiates are never compiled",
  ["UnstructuredMesh/UnstructuredMesh.h", "UnstructuredMesh/MeshElements/MeshElements.h", "UnstructuredMesh/MeshDataContainer/MeshDataContainer.h", "BinarySerializer/BinarySerializer.h", "Debug/Debug.h", "Traits/Traits.h"],
  [("public templates", S)], "type-level compile witnesses against the current headers", "complete over the enumerated witnesses; trusts the clang front end")
p("C45", "A mesh is loaded by the reader its file name extension names",
  "Loading and writing by file name selects the reader or writer by the file's extension, refuses every other extension with an error and leaks nothing.",
  ["inputs"], "every file name", "tests use well-formed names only", ["UnstructuredMesh/UnstructuredMesh.h"], [("load / write by name", S + "UnstructuredMesh/UnstructuredMesh.h")],
  VF, NF)
p("C50", "A function-local singleton is one object per type",
  "Every access to the singleton of a type, from any thread, yields the same object, constructed once, and the singleton cannot be copied. The console logger of the debug macros is one such object.",
  ["histories", "schedules"], "every access, from every thread", "tests access it once", ["Singleton/Singleton.h"], [("instance", S + "Singleton/Singleton.h")],
  "static IR rule: one guarded static per type, its address returned on every path; compile-fail witness for copying", NF)
# ---------------------------------------------------------------- outside the family
p("C60", "Tessellated measures are exact for non-planar faces and curved input",
  "The tessellated method gives a consistent partition of space for any valid polyhedral mesh, so cell volumes add up to the volume of the domain.",
  ["inputs"], "every valid polyhedral mesh", "one planar mesh", ["UnstructuredMesh/MeshFunctions/ComputeMeasures.h"], [("tessellation", S + "UnstructuredMesh/MeshFunctions/ComputeMeasures.h")],
  na="a global geometric identity over run-time vertex coordinates and topology (divergence theorem over an arbitrary valid mesh); no static abstraction in reach relates the sums of different cells; the per-element formulas themselves are decided by C31")
p("C61", "A mesh loaded from a valid file is topologically valid",
  "Every mesh read from a file describing a valid subdivision is a valid subdivision: each face has one or two cells and chains close.",
  ["inputs"], "every valid file", "one file", ["UnstructuredMesh/MeshIO/MeshReader/VTKMeshReader.h", "UnstructuredMesh/MeshIO/MeshReader/FPMAMeshReader.h"], [("loaders", S + "UnstructuredMesh/MeshIO/MeshReader")],
  na="quantifies over run-time file contents and needs an inductive invariant over the growing incidence tables (which face was found by hash); the loop bodies are checked against a reference in C42 but the global shape property is beyond the static analyses in reach")
p("C62", "Random coloring balances the colors",
  "The random coloring method distributes elements among colors more evenly than the greedy one and uses no more colors.",
  ["inputs"], "every mesh and random sequence", "one mesh", ["UnstructuredMesh/MeshFunctions/MeshColoring.h"], [("random recoloring", S + "UnstructuredMesh/MeshFunctions/MeshColoring.h")],
  na="a statistical statement about run-time random numbers; static analysis has no means to bound it")
