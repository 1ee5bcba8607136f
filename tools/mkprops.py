"""Writes /verif/properties.jsonl (the list lives here so that it can be edited as text)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
F = "src/pymech/neksuite/field.py"; M = "src/pymech/neksuite/mesh.py"; C = "src/pymech/core.py"
T = "src/pymech/meshtools.py"; D = "src/pymech/dataset.py"; S = "src/pymech/simsonsuite.py"
A = "src/pymech/neksuite/map.py"; V = "src/pymech/vtksuite.py"
NODATA = "The round-trip tests need binary sample files that are not in the tree, so none of them runs; "

p("C01", "Saving a field and loading it back loses nothing",
  "Writing a field data object to a Nek5000 field file and reading that file back gives the same number of elements, dimensions, points per direction, variable counts, time (to the 14 digits the header stores), step, word size, byte order and element map, and for every element every stored variable value equal to the original (rounded once to single precision when the word size is 4 or single precision is requested at reading). This stays true over any sequence of writes, reads and changes of word size, byte order or element order, including rewriting data that was itself read in single precision or from a file with a zeroed element map.",
  ["inputs", "histories"], "all field objects with finite values, 2D or 3D, any lx/ly/lz >= 2 (lz = 1 in 2D), any subset of variables and number of scalars, either byte order, both word sizes, any permutation as element map; all write/read/modify sequences",
  NODATA + "and a test samples a few files with an identity map and cubic elements.",
  [F, C], [("writenek", F), ("readnek", F), ("Header", F), ("HexaData/Elem allocation", C)], ["pymech.neksuite.readnek", "pymech.neksuite.writenek"])
p("C02", "Every valid single-file field dump is decoded exactly",
  "For any valid field file produced by some other program, the reader returns the metadata of the header and, for each element of the element map, exactly the values stored in that element's block (converted to the requested floating-point type), whatever the byte order, word size, element order, number of points per direction, variable set, or extra tokens at the end of the header; velocity and position components that the file does not hold are zero. If the element map contains zeros the blocks are assigned to elements in file order. Reading only the header gives the same metadata.",
  ["inputs"], "all valid single-file field files (number of elements in file = total), either byte order, 4/8 byte words, 2D/3D, permuted or zero-corrupted map, requested dtype float32/float64",
  NODATA + "and the few samples all have one byte order, one element order and cubic elements.",
  [F], [("read_header", F), ("readnek", F)], ["pymech.neksuite.readnek", "pymech.neksuite.read_header"])
p("C03", "Written field files follow the Nek5000 byte layout",
  "The file produced for a field object consists of the 132-byte text header, the byte-order tag, the element map, then geometry, velocity, pressure and temperature element by element in map order (all components of an element together), then each scalar for all elements in map order, every value in the object's word size and byte order with x varying fastest, and, for 3D data only, the single-precision minimum and maximum of each component of each element in the same order of variables; nothing else.",
  ["inputs"], "all field objects as in C01",
  NODATA + "a read-back test cannot see a layout error that reader and writer share, nor the min/max trailer that the reader ignores.",
  [F], [("writenek", F), ("Header.as_bytestring", F)], ["bytes of the written file"])
p("C04", "Selective reading only leaves out what was asked to be skipped",
  "Reading a field file with a set of variables to skip (any documented name or alias: x y z, ux uy uz or vx vy vz, pressure or p, temperature or t, s01 s02 ...) gives, for every variable that is not skipped, exactly the values of a full read, leaves every skipped component zero, and gives the same metadata.",
  ["inputs"], "all valid field files and all subsets of the documented names",
  NODATA + "the tests skip a handful of combinations; a wrong offset only shows for particular combinations of present and skipped variables.",
  [F], [("readnek skip_vars", F)], ["pymech.neksuite.readnek"])
p("C05", "Damaged binary files are refused, never misread",
  "When a binary file (field, .re2, .ma2, SIMSON plane or velocity file) is cut short at any byte, or (for the tagged Nek5000 formats) its byte-order tag is not recognisable, reading it either raises an exception or, only if nothing that was requested is missing, returns exactly the data of the intact file; a .re2 file cut exactly between two boundary-condition sections may be read as a file with fewer sections. A field file header with too few entries is refused.",
  ["fault_sequences", "inputs"], "every truncation point of every valid file, every tag that is not the recognised one",
  "The tests only read intact files; each truncation point is a separate input.",
  [F, M, A, S], [("length checks in reads (numpy.frombuffer/struct.unpack)", F), ("readre2", M), ("readma2", A), ("readplane/readdns", S)], ["return value or exception of the readers"])
p("C06", "Binary mesh files (.re2) are decoded and written faithfully",
  "Reading any valid .re2 file of either byte order gives the vertices of every element, every curved edge (element, edge, five parameters, type) and every boundary condition of every field (element, face, five parameters, type) as stored, with the numbers of elements, curved sides and fields. Writing a linear mesh produces such a file in the mesh's byte order holding all its vertices, curved edges and all boundary conditions except internal ('E') and empty ones, so that reading it back restores the mesh up to those; a mesh with other than two points per direction is refused.",
  ["inputs", "histories"], "2D/3D linear meshes, any number of elements, curved edges, fields and boundary types of 1 to 3 characters, both byte orders",
  NODATA + "no .re2 file is available and big-endian ones were never tested.",
  [M], [("readre2", M), ("writere2", M)], ["pymech.neksuite.readre2", "pymech.neksuite.writere2", "bytes of the file"])
p("C07", "ASCII mesh files (.rea) are decoded and written faithfully",
  "Reading a .rea file gives the vertices, curved edges and boundary conditions of every field that it states in the column layout that goes with its number of elements, treating internal conditions without a neighbour as absent. Writing a linear mesh gives a file in that layout, in which the stated counts agree with what follows, and reading it back restores the mesh: vertices and parameters to the printed precision, all curved edges and types, and all boundary conditions of every field including three-character types; this holds for meshes with no field, one, or several fields.",
  ["inputs", "histories"], "2D/3D linear meshes, element counts in each of the column-layout ranges (below 1000, from 1000; from 1000000 in the thorough check), any boundary and curvature data",
  NODATA + "column layouts change at 1000 and 1000000 elements, which no test reaches.",
  [M], [("readrea", M), ("writerea", M)], ["pymech.neksuite.readrea", "pymech.neksuite.writerea", "text of the file"])
p("C08", "Saving does not change the data, is repeatable, and fails safely",
  "Writing a data object to a field, .re2 or .rea file leaves the object unchanged and depends only on its contents: writing it again, or writing an equal copy, gives an identical file, and writing over an existing file leaves nothing of it. A write that is refused because the object cannot be represented (word size other than 4 or 8; for .re2 other than two points per direction or missing geometry) raises an error and leaves an existing file of that name byte for byte intact.",
  ["histories", "inputs"], "all data objects and all sequences of writes",
  "Tests write each object once and compare only a few attributes afterwards.",
  [F, M], [("writenek", F), ("writere2", M), ("writerea", M)], ["object state before/after", "file bytes"])
p("C09", "Partition map files (.ma2) are decoded exactly",
  "Reading a .ma2 file gives, for every element in order, the stored processor id and the stored global ids of all its vertices (4 in 2D, 8 in 3D), for files of either byte order.",
  ["inputs"], "all valid .ma2 files, 2D/3D, both byte orders, any id values",
  NODATA + "no .ma2 file is available.",
  [A], [("readma2", A)], ["pymech.neksuite.readma2"])
p("C10", "SIMSON plane and velocity files are decoded as written",
  "Reading a SIMSON plane file of one, two or three dimensions and either byte order gives its dimensions, its coordinate arrays and its data array in Fortran order. Reading a SIMSON velocity file of either byte order, for every flow type with its own header record and any number of passive scalars, gives the grid size, time, byte order, the uniform streamwise/spanwise and cosine-spaced wall-normal grid of the stated box, and fields whose mean (zero wavenumber) content at each height is the stored one for each velocity component and scalar.",
  ["inputs"], "all valid plane files; all valid velocity files with streamwise/spanwise even sizes, checked for fields without fluctuating modes",
  NODATA + "the 1D and 3D and passive-scalar branches are marked untested in the code.",
  [S], [("readplane", S), ("readdns", S)], ["pymech.simsonsuite.readplane", "pymech.simsonsuite.readdns"])
p("C11", "Connectivity checks accept exactly the consistent meshes",
  "check_connectivity returns True when every internal ('E') or periodic ('P') condition of every field names an existing element and face whose own condition is of the same type and names the first face back, and, for internal ones, the two face centres are within the given tolerance times the smallest edge of the two elements; in every other case it raises ValueError. check_bcs_present returns True when no face of any element lacks a condition in any field, and raises ValueError otherwise; neither changes the mesh.",
  ["inputs", "histories"], "all 2D/3D linear meshes, any number of fields, any stored links including broken ones, any tolerance",
  "The tests call it on a few valid meshes, hardly ever on a broken one.",
  [C], [("HexaData.check_connectivity", C), ("HexaData.check_bcs_present", C), ("Elem.face_center / smallest_edge", C)], ["return value or exception"])
p("C12", "Merging meshes keeps both and joins exactly the touching faces",
  "Merging mesh B into mesh A gives the elements of A followed by those of B, with all of B's connections, element references, map and counts renumbered, and each boundary face of B that coincides with a boundary face of A within the tolerance joined to it by a mutual internal condition in every field, partners of joined periodic faces being joined to each other; all other faces keep their conditions and the number of joined pairs is returned. Empty conditions take part only when not ignored, with all conditions ignored nothing is joined, meshes of different dimension or order are refused without changes, and B is never modified.",
  ["inputs", "histories"], "all pairs of meshes with the same fields in which a face touches at most one face of the other mesh, in 2D and 3D, and sequences of merges",
  "The tests merge one pair of sample files (missing) and the pieces of one circle.",
  [C], [("HexaData.merge", C), ("HexaData.offset_connectivity", C)], ["mesh state after the call", "return value"])
p("C13", "Internal conditions are generated for touching faces and deleted cleanly",
  "generate_internal_bcs joins, in every field, exactly the pairs of faces of different elements that carry no condition and whose centres are within the tolerance times the smaller of the two elements' smallest edges, leaves every other face untouched, returns the number of connections made over all fields, and refuses a mesh that has a zero-length edge. delete_internal_bcs removes exactly the internal conditions, leaving those faces without any condition or data, and returns how many it removed.",
  ["inputs", "histories"], "all 2D/3D linear meshes with any pre-set conditions in which an open face touches at most one other open face",
  "Tests try one mesh; which pairs touch depends on every pair of faces and on the element sizes.",
  [T], [("generate_internal_bcs", T), ("delete_internal_bcs", T)], ["mesh state after the call", "return value"])
p("C14", "Taking a subset of elements or shifting indices keeps links valid",
  "keep_elements keeps exactly the listed elements in their original order with their geometry, curvature and conditions, renumbers every own-element reference and every internal or periodic link between kept elements, and replaces links to removed elements by the given external condition without a neighbour; an index beyond the mesh is refused. offset_connectivity adds the offset to every internal or periodic link to, and every own-element reference of, elements at or after the given index, and changes nothing else.",
  ["inputs", "histories"], "all 2D/3D meshes, all subsets in any order without repetition, all offsets and start indices",
  "Neither function is tested directly; a wrong offset needs a subset with gaps and links that cross them.",
  [T, C], [("keep_elements", T), ("HexaData.offset_connectivity", C)], ["mesh state after the call"])
p("C15", "Extruding a 2D mesh gives the stacked 3D mesh with right links",
  "Extruding a 2D mesh over n+1 z values gives n layers, each element being the 2D element between consecutive z values with its side conditions, curved edges on both ends (midpoints moved to the layer's z) and links renumbered within the layer; layers are joined to each other by internal conditions, the first and last carry the requested end conditions of each field (periodic ones linked to each other), and metadata (dimension, element count, curved edges, element map) match. Without internal conditions none is present in the result, and inconsistent periodicity or a mesh that is not 2D linear is refused.",
  ["inputs"], "all 2D linear meshes with any conditions and 'm'/'C' curvature, any increasing z, any end conditions per field",
  "Tests extrude one sample mesh (missing); only particular combinations of layers, fields, periodicity and curvature show an error.",
  [T], [("extrude", T)], ["returned mesh"])
p("C16", "Refining extrusion produces a conforming mesh that fills the volume",
  "extrude_refine gives a 3D mesh whose elements fill the extruded domain without overlap (their volumes add up), in which every face is shared by exactly two elements, which are joined to each other by mutual internal conditions, or lies on the boundary and carries the requested or inherited condition, periodic ones being linked in pairs, in every field; elements on the refined side of a splitting line have the full z resolution and it halves across each line. Without splitting functions it equals plain extrusion, and inconsistent input (layer count, mixed periodicity, a split element without two corners on each side) is refused.",
  ["inputs", "configurations"], "2D box-like and circular meshes, one or two splitting lines, any admissible position of the finest mesh, layer counts, end and side conditions, number of fields, with or without internal conditions",
  "Tests use one sample mesh (missing); the six-element pattern has several orientation and periodicity cases.",
  [T], [("extrude_refine", T), ("extrude_mid", T)], ["returned mesh"])
p("C17", "Generated boxes are exact structured grids with full connectivity",
  "gen_box(nx, ny, ...) gives nx*ny elements in x-fastest order that tile the rectangle uniformly, with one condition set per field implied by the variable list, mutual internal conditions between neighbours (if requested, otherwise none), and on each side the given condition of each field, or periodic links to the opposite side by default; an empty or inverted rectangle is refused. The result does not depend on earlier calls or on what was done to earlier results.",
  ["inputs", "histories"], "all nx, ny >= 1, bounds, variable lists, side conditions, with or without internal conditions, and histories of calls",
  "One test checks one 3x4 box's connectivity only through the library's own checker.",
  [T], [("gen_box", T)], ["returned mesh"])
p("C18", "Generated circles are conforming, round and correctly linked",
  "gen_circle(r, s, ns, no) gives ns*ns + 4*ns*no valid positively oriented elements that cover the disc: every edge is shared by exactly two elements, joined by mutual internal conditions when requested and otherwise left empty, or lies on the circle of radius r with the given condition of each field and a circular curvature of radius r; the centre square has corners at distance s*r, the mesh is symmetric under quarter turns, and the curved-side count is right.",
  ["inputs", "histories"], "all r > 0, 0 < s < 1, ns, no >= 1 (and the built-in or user-given monotone spacing and curvature functions), number of fields, with or without internal conditions",
  "One test checks one circle's connectivity only through the library's own checker.",
  [T], [("gen_circle", T), ("rotate_2d", T), ("HexaData.merge", C)], ["returned mesh"])
p("C19", "Mapping and rotating a mesh moves every point and midpoint, and only those",
  "map2D returns a mesh in which every vertex is the image of the original vertex, every edge that was curved, or is to be curved (all edges, or only those with a boundary condition, as requested), is curved through the image of the original edge's midpoint (on its arc for circular edges), all other edges and all conditions are unchanged, the curved-side count is right, and the original mesh is not modified. rotate_2d turns all vertices and midpoint-curvature points in place about the given centre, leaving everything else unchanged.",
  ["inputs"], "all 2D linear meshes with '', 'm' or 'C' edges, all transformations, flags, centres and angles",
  "One test maps one box and checks connectivity only.",
  [T], [("map2D", T), ("edge_mid", T), ("rotate_2d", T)], ["returned mesh", "argument mesh"])
p("C20", "Mesh bookkeeping stays consistent under any sequence of operations",
  "After any sequence of generating, reading, merging, extracting, extruding, mapping, rotating, connecting and disconnecting meshes, the stated number of elements equals the number of elements, the element map is a permutation of them, the stated number of curved sides is the number of curved edges, every element has a condition set for each field, own-element references name the right element and face or are unset, and, if it was so before, every internal or periodic link is answered by its partner.",
  ["histories"], "all sequences of the public mesh operations applied to generated meshes (operations that can leave an unanswered link, such as merging over ignored conditions, excepted for the last clause)",
  "Tests look at single calls; bookkeeping errors show after a second operation uses the stale field.",
  [C, T, M], [("merge / offset_connectivity / update_ncurv", C), ("keep_elements / extrude / map2D / gen_*", T)], ["mesh state after every call"])
p("C21", "Operations never change or share data with their arguments",
  "An operation that returns a new mesh or takes a second mesh as argument leaves the arguments unchanged (deep equality of geometry, curvature, conditions, metadata), and later changes to the result or to an argument never show in the other, nor in meshes created by other calls; in-place operations change only their target. No two elements of a mesh share storage.",
  ["histories"], "all sequences of mesh operations and in-place modifications over several live meshes",
  "Sharing is visible only after a later modification of one of the two objects.",
  [C, T], [("copy.deepcopy in merge/extrude/map2D", T), ("Elem allocation", C)], ["state of all live meshes after every call"])
p("C22", "Geometric queries report the true extents, points, centres and edges",
  "lims gives the exact minimum and maximum of every component of position, velocity, pressure, temperature and scalars over all points of all elements (also for a single element) and cannot be modified; get_points lists the coordinates of all points of all elements in storage order; centroid, face_center (for each of the faces 1..6 in Nek5000 numbering) and smallest_edge (over the 4 or 12 edges) give the corresponding values of the element's corners.",
  ["inputs"], "all fields and meshes with at least one element",
  "Tests look at limits of a few sample files (missing); smallest_edge and face_center have one case per edge and face.",
  [C], [("DataLims", C), ("Elem.face_center, smallest_edge, centroid", C), ("HexaData.get_points", C)], ["return values"])
p("C23", "Datasets place every element's values at its own coordinates",
  "Opening the field file of a Cartesian box mesh as a dataset gives sorted, unique x, y and z coordinates and, for every variable in the file, an array whose value at (z, y, x) is the value stored at that point, whatever the order of elements in the file, with the file's time as coordinate and variables named ux, uy, uz, pressure, temperature, s01, s02, ...; dropped variables are absent and the others unaffected. Meshes whose elements are not aligned boxes are refused.",
  ["inputs"], "all tensor-product box meshes of axis-aligned elements stored in increasing x, y, z, any element order and variable set",
  NODATA + "one synthetic-box test exists for missing data; order of elements is never varied.",
  [D], [("_open_nek_dataset", D), ("_NekDataStore", D)], ["pymech.open_dataset"])
p("C24", "Only field-file names are opened, and files are stacked along time",
  "A path is taken for a Nek5000 field file exactly when its name ends in '.f' followed by five digits or in '.fld'; any other path is refused with NotImplementedError by open_dataset and not claimed by the xarray plugin. Opening several files gives one dataset with the files' data along a time dimension in the order given, with their times.",
  ["inputs", "histories"], "all path strings; all lists of files of the same box mesh",
  "The regular-expression test tries eight names.",
  [D], [("nek_ext_pattern / can_open_nek_dataset", D), ("open_mfdataset", D), ("PymechXarrayBackend", D)], ["pymech.open_dataset", "pymech.open_mfdataset", "xarray engine detection"])
p("C25", "VTK export contains every point, cell and variable once",
  "Converting a 3D field to VTK gives, for every element in order, its grid points (all, or only the corners when downsampling) with their coordinates and the velocity, pressure, temperature and scalar values of that point, one hexahedral cell per sub-block of points with the 8 correct vertices in VTK order, and arrays named vel, pres, temp, scal_1, ...; the field itself is not changed.",
  ["inputs"], "all 3D fields that hold geometry, any number of points per direction and variables, both downsampling settings",
  "The VTK tests need mayavi and sample files, neither of which is available, so none runs.",
  [V], [("hexa2vtk", V)], ["arguments given to the VTK library (recorded by a stand-in)"])
p("C26", "The exponential refinement parameter solves its equation",
  "For a first spacing l0, total length ltot and n >= 2 elements, the returned ratio alpha makes l0*(1 + alpha + ... + alpha^(n-1)) equal to ltot to the requested accuracy.",
  ["inputs"], "all l0, ltot > 0 and n >= 2 for which Newton iteration converges",
  "No test calls it directly.",
  [T], [("exponential_refinement_parameter", T)], ["return value"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
