# text per property: (what is executed / oracle / why tests cannot, seconds)
P = {
'C01': ('arith.h/.c and matq.c run on fully symbolic operands; the oracle is 128/256-bit bit-vector arithmetic in the harness and the defining equation a = q*b + r, 0 <= r < b. Wide by wide multiplication is decided per operand window (a bit-blasted 64x64->128 equivalence does not finish in any solver here).', 23),
'C02': ('cq_has_intersect & co. of matq.c on symbolic segment positions; the oracle classifies the two segments by the signs of four cross products (computed in 128 bits) and computes the exact rational crossing point; all four orders/directions must agree.', 44),
'C03': ('The pixel predicate of matq.c with symbolic segment and pixel; the oracle clips the segment at the half-open unit square in rational arithmetic (and, for the small grid, interval by interval).', 21),
'C04': ('Import and export functions of the grid conversion for symbolic grid coordinates, and for all doubles (Z3 floating point theory) where out-of-range behaviour matters; the oracle is round-half-away of the exact dyadic position.', 30),
'C05': ('cq_sweep_reduce/intersect/trace on pairs (triples) of polygons, one operand at a symbolic offset, so that every degenerate alignment in the range is one of the feasible paths. The oracle checks in exact integers that no two edges cross, overlap, or touch except at end points, that every input segment is covered by a chain within one grid unit, and even-odd membership at probe points away from all edges.', 23),
'C06': ('The complete boolean path (cq_sweep_* with a bool bitmap, and the csg2 level in C15) on the same family; the oracle evaluates the boolean formula over the even-odd membership of the inputs at the probes of every face of the arrangement.', 32),
'C07': ('bool-bitmap.c on fully symbolic 1024-bit tables: a table entry after spread/repeat/combine/set must equal the formula over the entries before; for all sizes, offsets and operators.', 4),
'C08': ('op-trianglify.c after the sweep; the oracle: exact areas add up, orientation, no triangle degenerate, each directed edge matched by its reverse or on the outline with its flag, only arrangement points used.', 36),
'C09': ('op-poly.c after the sweep; the oracle walks the closed paths: at least 3 points, no repetition, each boundary edge of the region in exactly one path exactly once, even-odd membership equal.', 24),
'C10': ('csg2-layer.c / op-slice.c on a catalogue of solids under linear maps, with the cutting height symbolic, so that cuts through vertices, edges and faces are all included; the oracle decides membership just above the cut by casting a ray against the faces of the solid in exact arithmetic; the cut must be closed (each point an even number of times), and every cut point must be the grid point nearest to where an edge of the solid crosses the plane.', 16),
'C11': ('The command line tool from text to STL, captured at the stream callback (text and binary); the oracle compares with the internal layer triangles: bottom, top, walls, directed edges matched by reverses, normals, heights, count, both forms equal.', 14),
'C12': ('Same for JavaScript, PostScript and SCAD; the oracle parses the captured output calls and compares polygon by polygon, index by index, and layer by layer with the internal result.', 47),
'C13': ('From scene text with symbolic digits to the 3D model (csg3.c) resp. to layers; the oracle multiplies affine maps of its own and compares every point; orientation via signed volume.', 75),
'C14': ('Text to 3D model; the oracle lists the expected vertices from the documented parameters (centring, segment counts, twist, scale) and checks closedness, orientation and volume.', 7),
'C15': ('Text to csg3 tree, to layers, and to final triangles; the oracle evaluates the set expression (with the documented treatment of absent, empty, disabled and root-marked children) at symbolic query points.', 25),
'C16': ('Bounding boxes of symbolic scenes for any query point, and the layer heights chosen by the command line tool for symbolic model and range values.', 39),
'C17': ('syn.c on every byte text of the bound, free or in contexts covering all tokens; the oracle is an independent tokenizer and grammar check in the harness; located errors; includes with symbolic bytes; citations for every position.', 21),
'C18': ('scad.c for every function x argument shape; the oracle is a table transcribed from the documentation (doc/, README).', 11),
'C19': ('stl-parse.c on symbolic bytes, text and binary; an independent reader in the harness says what must come out.', 24),
'C20': ('xml-parse.c on symbolic bytes in contexts; an independent checker decides well-formedness for the supported subset and the expected tree.', 18),
'C21': ('svg-parse.c on documents with symbolic bytes/digits; an independent SVG path/transform/shape interpreter in the harness computes the expected vertices.', 37),
'C22': ('dict.c on every tree shape of the bound with symbolic colours and keys; the oracle is the array of expected elements plus the red-black invariants and summary folds; histories from empty too.', 29),
'C23': ('vec.c, qsort, list.h under symbolic operation sequences against an array model; aliasing arguments included.', 12),
'C24': ('heap.c under symbolic operations on symbolic elements against a multiset, recorded positions checked.', 13),
'C25': ('pool.c and alloc.c histories; blocks zeroed, aligned, in bounds (the engine checks the memory), disjoint.', 7),
'C26': ('utf8.c, vchar.c and stream on symbolic bytes/code points; the oracle is the Unicode encoding form table.', 16),
'C27': ('csg2-hull.c on point sets with one symbolic point; the oracle decides with integer cross products: convex, clockwise, contains all, no superfluous point.', 5),
'C28': ('scad-2scad.c, syn-2scad.c, csg3-2scad.c: dump, re-read with the real parser, dump again; structural comparison by the harness.', 8),
'C29': ('The generated name tables through the public entry points with every byte of the name symbolic; the oracle is the documented list in the harness.', 46),
'C30': ('mat_gen_ext.c, algo.c: polynomial identities over symbolic entries (exact dyadics), inverse x matrix = identity, determinant by cofactor expansion, constructors against textbook formulas.', 23),
'C31': ('The whole program (main.c included) on fixed small models, with the C library output calls and the allocator replaced by models that may fail: where a fault occurs and how many bytes a failing write still takes are symbolic variables; a status of success with anything lost or unflushed is a violation, and so is a failure without a fault.', 5),
'C32': ('syn.c file reading with a modelled C library: symbolic bytes, symbolic portions, symbolic faults, number of open files counted; locations of syn-msg.c against line counting in the harness; whole program runs for include/import structures.', 35),
}
