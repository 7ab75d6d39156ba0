#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"observe_at": observe} if observe else {})}})
T = "The unit tests compare a few dozen hand-picked values; the conversion tests only check that the tool exits with 0 and writes a non-empty file."

p("C01", "Exact integer and fraction arithmetic never rounds or wraps",
  "The exact arithmetic used for coordinates -- wide products, wide-by-narrow division, Euclidean quotient and remainder, fraction ordering and rounding to the grid -- returns the mathematically exact result for every operand. Fraction ordering is a total order that agrees with rational ordering, and checked operations report overflow exactly when the result is not representable.",
  ["inputs"], "all operand values of every exact arithmetic operation", T + " Carries, sign combinations and wide divisions appear only for rare operand pairs.",
  ["src/hob3lop/matq.c", "include/hob3lop/matq.h", "include/hob3lbase/arith.h", "src/hob3lbase/arith.c"],
  [("wide multiply / divide / compare", "src/hob3lop/matq.c"), ("checked and mixed-width helpers", "include/hob3lbase/arith.h")])
p("C02", "Line segment intersection is classified and located exactly",
  "For any two line segments on the grid, the intersection test reports whether they cross at one point, touch at an end point, are parallel or collinear, or do not meet, and the reported intersection point is the exact rational crossing point. The verdict does not depend on the order or direction in which the segments are given.",
  ["inputs"], "all pairs of grid segments", T + " Degenerate touching configurations are sampled in a handful of cases only.",
  ["src/hob3lop/matq.c", "src/hob3lop/op-sweep.c"], [("exact segment intersection", "src/hob3lop/matq.c"), ("any-pair intersection query", "src/hob3lop/op-sweep.c")])
p("C03", "Snap rounding decides exactly which segments pass through a grid pixel",
  "The test that decides whether an edge passes below, through or above a grid pixel agrees with exact rational geometry of the half-open unit square around the grid point. Hence edges are rerouted through a pixel exactly when they hit it.",
  ["inputs"], "all segments and pixels", T, ["src/hob3lop/matq.c", "src/hob3lop/op-sweep-internal.h"], [("rounding comparator", "src/hob3lop/matq.c")])
p("C04", "Coordinates survive the trip between model units and grid exactly",
  "A grid coordinate exported to model units and imported again yields the same grid coordinate, and importing any representable model coordinate yields the nearest grid coordinate. Vectors and bounding boxes convert component by component. The tool works with the grid it was asked for, or, where that is adjusted automatically, with the finest power of two that keeps the printed model exactly representable.",
  ["inputs"], "all grid coordinates and all in-range model coordinates", T, ["src/hob3lop/gon.c", "include/hob3lop/gon.h", "src/hob3lop/hedron.c"], [("import/export", "include/hob3lop/gon.h"), ("choice of the grid", "src/hob3l/main.c")])
p("C05", "The plane sweep yields a crossing-free arrangement of the same region",
  "After the sweep, no two result edges cross or overlap; they meet at most in common end points on the grid. Each input segment is represented by a chain that stays within one grid unit of it, so even-odd membership of every point farther than that from all input edges is unchanged.",
  ["inputs"], "all sets of input segments, including overlapping, touching, vertical and duplicate ones", T + " The sweep has many event orders and overlap cases that no example file is known to hit.",
  ["src/hob3lop/op-sweep.c", "src/hob3lop/op-sweep-internal.h", "src/hob3lop/op-sweep-reduce.c"], [("intersection phase", "src/hob3lop/op-sweep.c"), ("snap rounding phase", "src/hob3lop/op-sweep.c")])
p("C06", "Polygon boolean operations return exactly the combined region",
  "For any polygons A and B (and more), the computed union, difference, intersection and symmetric difference contain a point away from the edges if and only if the boolean formula over the inputs' even-odd membership holds. This also holds for nested operations and for empty, identical, touching or overlapping operands.",
  ["inputs", "programs"], "all operand polygons, operators and nestings", T + " No test compares the resulting region to anything.",
  ["src/hob3l/csg2-bool.c", "src/hob3lop/op-sweep-reduce.c", "src/hob3lop/op-sweep.c"], [("lazy combination", "src/hob3l/csg2-bool.c"), ("in/out evaluation", "src/hob3lop/op-sweep-reduce.c")])
p("C07", "Boolean combination tables compute the intended boolean function",
  "Growing a combination table by further operands, combining two tables with an operator, and reading a table entry yield precisely the truth table of the composed formula, for any number of operands up to the supported maximum. The limit on simultaneously processed operands and the skipping of empty operands never change the result.",
  ["inputs", "configurations"], "all truth tables, operand counts, operators, and option settings", T, ["src/hob3lbase/bool-bitmap.c", "src/hob3l/csg2-bool.c"], [("bitmap spread/repeat/combine", "src/hob3lbase/bool-bitmap.c")])
p("C08", "Triangulation tiles the region exactly",
  "The triangles generated for a region cover exactly its interior: each has non-zero area and the same orientation, they do not overlap, their areas sum to the region's area, and they use only vertices of the arrangement. The outline marks on triangle edges identify exactly the region's boundary.",
  ["inputs"], "all swept regions, including holes, touching vertices and several components", T, ["src/hob3lop/op-trianglify.c"], [("monotone sweep triangulation", "src/hob3lop/op-trianglify.c")])
p("C09", "Polygon paths describe the same region with simple closed paths",
  "Converting a swept region to paths yields closed paths of at least three points in which no point repeats within one path and whose even-odd region equals the swept region. Every region boundary edge appears in exactly one path, once.",
  ["inputs"], "all swept regions", T, ["src/hob3lop/op-poly.c"], [("path assembly", "src/hob3lop/op-poly.c")])
p("C10", "Slicing a closed solid gives its exact, closed cross-section",
  "Cutting a closed polyhedron at any height -- including through vertices, edges and horizontal faces -- yields segments forming closed outlines, i.e., every cut point occurs an even number of times, and is the grid point nearest to where an edge of the solid crosses the plane. A point of the plane is inside the outlines exactly if it is inside the solid just above the cut.",
  ["inputs"], "all closed polyhedra and slice heights", T, ["src/hob3lop/op-slice.c", "src/hob3l/csg2-layer.c"], [("face slicing", "src/hob3lop/op-slice.c"), ("layer construction", "src/hob3l/csg2-layer.c")])
p("C11", "STL output is the exact extrusion of every layer as a closed solid",
  "Each written layer is a closed, consistently outward-oriented triangle surface: every directed edge is matched by its reverse, and facet normals agree with vertex order. Bottom and top lie at the layer's height and at that height plus the thickness minus the gap; the binary form has a correct count and carries the same triangles as the text form.",
  ["inputs", "configurations"], "all layer polygons, layer heights, thickness and gap settings, both formats", T, ["src/hob3l/csg2-2stl.c"], [("triangle and side wall output", "src/hob3l/csg2-2stl.c")])
p("C12", "JavaScript, PostScript and SCAD outputs describe the same layers",
  "Every other output format describes the same layer polygons as the internal result: no polygon, path, triangle or layer is dropped, duplicated or reordered into a different shape, and indices written always refer to points written. Coordinates are written with the transform the format prescribes.",
  ["inputs", "configurations"], "all layer polygons and output settings", T, ["src/hob3l/csg2-2js.c", "src/hob3l/csg2-2ps.c", "src/hob3l/csg2-2scad.c", "src/hob3l/ps.c"], [("JS writer", "src/hob3l/csg2-2js.c"), ("PS writer", "src/hob3l/csg2-2ps.c"), ("SCAD writer", "src/hob3l/csg2-2scad.c")])
p("C13", "Transformations in the scene act as the affine maps they denote",
  "Translate, scale, mirror, rotate, and matrix modifiers, nested in any way and around any 3D or 2D object or operation, move each point of the child by exactly the denoted affine map, outermost last. Orientation-reversing maps still yield solids with outward faces.",
  ["inputs", "programs"], "all nestings and parameters of transformations", T, ["src/hob3l/csg3.c", "include/hob3lmat/mat.h", "src/hob3lmat/algo.c"], [("modifier evaluation", "src/hob3l/csg3.c"), ("matrix construction", "src/hob3lmat/algo.c")])
p("C14", "Primitive solids are closed, outward-oriented and of the requested size",
  "Cube, sphere, cylinder/cone, polyhedron, linear and rotational extrusion produce polyhedra in which every directed edge is matched by exactly one reverse edge (polyhedron: when its input is), with consistent outward orientation. Their extents are exactly those given by the parameters, with centering honoured.",
  ["inputs"], "all primitive parameters, including segment counts, twist, scale and center", T, ["src/hob3l/csg3.c"], [("tower construction and primitives", "src/hob3l/csg3.c")])
p("C15", "Scene trees evaluate to the set expression the source denotes",
  "Union, difference and intersection nodes -- with nesting, groups, disabled and empty children -- evaluate so that a point is in the result if and only if the set expression over the objects' point sets holds; the first non-empty child of a difference is the minuend. Disabled parts never contribute and the root modifier selects precisely the marked subtree.",
  ["inputs", "programs"], "all trees of operators, objects and modifiers", T, ["src/hob3l/csg3.c", "src/hob3l/csg2-tree.c", "src/hob3l/csg2-layer.c", "src/hob3l/csg2-bool.c"], [("scene to CSG tree", "src/hob3l/csg3.c"), ("tree per layer", "src/hob3l/csg2-tree.c")])
p("C16", "The bounding box and layer range cover the whole model",
  "The computed bounding box contains every point of the resulting model and is not enlarged by subtracted parts unless requested. The derived layers are evenly spaced by the step, start at the minimum, and extend to the requested maximum, so no part of the model that spans a layer is omitted.",
  ["inputs", "configurations"], "all models and z ranges and steps", T, ["src/hob3l/csg3.c", "include/hob3lbase/arith.h", "src/hob3l/main.c"], [("bounding box recursion", "src/hob3l/csg3.c"), ("range computation", "include/hob3lbase/arith.h")])
p("C17", "The scene parser is total: any bytes give a tree or a located error",
  "For every input byte sequence the scene parser terminates without invalid memory access, crash or hang, and either returns a complete syntax tree or reports an error with a message. Tokens keep their text and numeric value, comments and white space do not matter, and messages name the right file position.",
  ["inputs"], "all byte sequences as scene source", T + " Only well-formed example scenes are parsed.", ["src/hob3l/syn.c", "src/hob3l/syn-msg.c"], [("lexer and parser", "src/hob3l/syn.c"), ("location lookup", "src/hob3l/syn-msg.c")])
p("C18", "Function arguments reach the object parameters they denote",
  "Positional and named arguments of every scene function set exactly the parameters documented for it, missing ones take the documented default, and unknown names, functions, colours or ill-typed values give an error or are ignored as documented but never crash or silently corrupt another parameter. Radius/diameter and scalar/vector alternatives are interchangeable as documented.",
  ["inputs", "programs"], "all functions, argument orders, names and value types", T, ["src/hob3l/scad.c", "src/hob3l/gc.c"], [("argument matching", "src/hob3l/scad.c"), ("colour lookup", "src/hob3l/gc.c")])
p("C19", "STL import is memory safe and reproduces the file's triangles",
  "For every byte sequence, STL import (text or binary) either yields a polyhedron whose faces are the file's facets in order and orientation -- equal coordinates shared as one point -- or reports an error, never accessing memory outside the file. Truncated or miscounted files are rejected.",
  ["inputs"], "all byte sequences as STL file", T, ["src/hob3l/stl-parse.c", "src/hob3l/vec3-dict.c"], [("STL reader", "src/hob3l/stl-parse.c"), ("point unification", "src/hob3l/vec3-dict.c")])
p("C20", "XML import is memory safe and yields the document's element structure",
  "For every byte sequence the XML reader returns a tree that mirrors the document's nesting, attributes, namespaces and decoded text, or reports an error, without invalid memory access or endless loop. Malformed nesting, entities or attributes are rejected.",
  ["inputs"], "all byte sequences as XML file", T, ["src/hob3l/xml-parse.c"], [("XML reader", "src/hob3l/xml-parse.c")])
p("C21", "SVG import places shapes and path segments as the SVG describes",
  "SVG basic shapes and path data -- absolute or relative commands, implicit repetition, closing, transforms and units -- produce polygons whose vertices are those the SVG prescribes. Path data with an error is drawn up to the error; no document, malformed or not, leads to an invalid memory access.",
  ["inputs", "programs"], "all SVG documents and path strings", T + " No SVG is read by any test.", ["src/hob3l/svg-parse.c"], [("SVG evaluation", "src/hob3l/svg-parse.c")])
p("C22", "The ordered dictionary keeps order, balance and content in any history",
  "After any sequence of insertions, removals, joins, splits, replacements and swaps, the dictionary contains exactly the expected elements in order, is a valid balanced tree, and in-order stepping, min/max and searches agree with its content. Summary values maintained per subtree equal the fold over the subtree.",
  ["histories", "inputs"], "all operation sequences and keys", "The unit tests replay a few fixed key sequences; rebalancing cases depend on the exact shape and history.", ["src/hob3lbase/dict.c", "include/hob3lbase/dict.h"], [("red-black tree", "src/hob3lbase/dict.c")])
p("C23", "Vectors and lists behave as the sequences they model under any history",
  "After any sequence of push, pop, insert, remove, append, copy, reverse, resize, extract and search operations -- including arguments aliasing the same vector -- a vector holds exactly the sequence the operations denote, newly exposed elements are zero, and sorting yields an ordered permutation. Linked rings likewise hold the expected cyclic order after any swap of links.",
  ["histories", "inputs"], "all operation sequences, sizes and contents", T, ["src/hob3lbase/vec.c", "include/hob3lbase/vec.h", "src/hob3lbase/list.c", "src/hob3lbase/qsort.c"], [("vector primitives", "src/hob3lbase/vec.c"), ("ring primitives", "src/hob3lbase/list.c")])
p("C24", "Priority queues always yield the minimum and track every element",
  "After any sequence of insertions, removals of arbitrary members, updates and minimum extractions, the queue yields elements in non-decreasing order, contains exactly the members not yet removed, and each member's recorded position is correct.",
  ["histories", "inputs"], "all operation sequences and keys", T, ["src/hob3lbase/heap.c", "src/hob3lbase/vec.c"], [("heap sift operations", "src/hob3lbase/heap.c")])
p("C25", "Pool memory blocks are zeroed, aligned, disjoint and stable",
  "Every block handed out by a memory pool is zero-filled, aligned as requested, of the full requested size, and disjoint from every other live block; growing a block preserves its content. Clearing the pool makes all its memory reusable without affecting the above.",
  ["histories", "inputs"], "all allocation sequences, sizes and alignments", T, ["src/hob3lbase/pool.c", "src/hob3lbase/alloc.c"], [("pool allocation", "src/hob3lbase/pool.c")])
p("C26", "Text is decoded, encoded and assembled without loss",
  "Encoding any Unicode scalar value as UTF-8 and decoding it returns the same value, invalid or overlong sequences are rejected with an error and never read past the end, and escapes denote the right code point. String buffers hold exactly the concatenation of everything appended and stay NUL-terminated for C use.",
  ["inputs", "histories"], "all code points, byte sequences and append histories", T, ["src/hob3lbase/utf8.c", "src/hob3lbase/vchar.c", "src/hob3lbase/stream.c"], [("UTF-8 coder", "src/hob3lbase/utf8.c"), ("string buffer", "src/hob3lbase/vchar.c")])
p("C27", "The convex hull is the smallest convex polygon around its input",
  "The hull of any point set with at least two distinct points is convex, ordered clockwise, uses only input points, contains every input point, and has no repeated or superfluous vertices. As a scene operation it is placed where the surrounding transformations put it.",
  ["inputs"], "all point sets with duplicates and collinear points", T, ["src/hob3l/csg2-hull.c", "src/hob3l/csg3.c"], [("hull scan", "src/hob3l/csg2-hull.c")])
p("C28", "Dumped scenes read back as the same scene",
  "Dumping the parsed syntax tree or the scene as scene text yields text that the parser accepts and that denotes the same objects, parameters, nesting and modifiers; dumping what was read back gives the same text again. Dumping the 3D model lists exactly its objects, with their nesting, modifiers, matrices, points and faces.",
  ["programs", "inputs"], "all scenes in the supported language", T, ["src/hob3l/syn-2scad.c", "src/hob3l/scad-2scad.c", "src/hob3l/csg3-2scad.c"], [("scene writers", "src/hob3l/scad-2scad.c")])
p("C29", "Names map to exactly the colour, keyword or command they denote",
  "A name is recognised as a colour, scene function, SVG element or command-line option exactly if it is in the documented list, and maps to the documented value; hexadecimal colours map digit by digit. Every other string is rejected without side effect.",
  ["inputs"], "all strings", T, ["src/hob3l/gc.c", "script/mksieve", "script/mkswitch", "src/hob3l/gc-color.sieve"], [("generated name sieve", "script/mksieve"), ("colour parser", "src/hob3l/gc.c")])
p("C30", "Matrices and their stored inverses stay consistent",
  "Every constructed or multiplied transformation carries an inverse that maps transformed points back and a determinant with the right value and sign; special right-angle rotations are exact. Composing two transformations and applying the result equals applying one after the other.",
  ["inputs"], "all matrices and points", T + " The matrix tests use a few fixed angles.", ["src/hob3lmat/algo.c", "src/hob3lmat/mat_gen_ext.c", "src/hob3lmat/mat_is_rot.c", "include/hob3lmat/mat.h"], [("matrix algebra", "src/hob3lmat/algo.c")])
p("C31", "Failures to write the output or to get memory are always reported",
  "If any part of the output cannot be written, flushed or closed, or memory runs out, the program ends with a failure status; it reports success only if every byte of the output was handed to the operating system. It never fails without a reason, and lack of memory never leads to an invalid memory access.",
  ["fault_sequences", "inputs"], "every point at which writing, flushing, closing, opening or allocating may fail, including partial writes", "No test makes a write or an allocation fail.", ["src/hob3lbase/stream.c", "src/hob3l/main.c", "src/hob3lbase/alloc.c", "src/hob3lbase/vchar.c"], [("checked output", "src/hob3lbase/stream.c"), ("closing of the output", "src/hob3l/main.c"), ("checked allocation", "include/hob3lbase/alloc.h")])
p("C32", "Input files are read completely, located correctly, and released",
  "Whatever portions the operating system delivers, a file is read as exactly its bytes, or a failure is reported; every position is attributed to its file, line and text of that line. Included and imported files are found relative to the file that names them, any number of them can be read one after another, and files that include themselves are refused.",
  ["fault_sequences", "inputs", "programs"], "every sizing of reads, every failing open or read, all texts and positions, all include structures", "The tests read a handful of small files, none of which includes another.", ["src/hob3l/syn.c", "src/hob3l/syn-msg.c", "src/hob3l/csg3.c"], [("file reader", "src/hob3l/syn.c"), ("locations", "src/hob3l/syn-msg.c")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
