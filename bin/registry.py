"""Which harness entries decide which property, with which bounds."""
REG = {}
def reg(pid, file, entry, bound, reach=(), time=15, ttime=120, params=None, tparams=None, thorough_only=False):
    P = REG.setdefault(pid, {'level': 'model_checking', 'assumptions': [], 'entries': []})
    P['entries'].append({'file': file, 'entry': entry, 'bound': bound, 'reach': list(reach),
        'quick': {'time': time, 'params': params or {}}, 'thorough': {'time': ttime, 'params': {**(params or {}), **(tparams or {})}}, 'thorough_only': thorough_only})
def assume(pid, *a): REG[pid]['assumptions'] += list(a)

T = 'every valid red-black tree of black height <= 2 and <= %s nodes (shape and colours symbolic)'
reg('C22', 'dict.c', 'h_dict_insert', T % 12 + ', one insertion at any key, duplicate mode -1..1, with/without summary callback', ['inserted', 'duplicate rejected'], time=60, params={'maxn': 12}, tparams={'maxn': 30}, ttime=300)
reg('C22', 'dict.c', 'h_dict_insert_at', T % 13 + ', one insertion before/after any node or at an end', ['inserted at'], params={'maxn': 13}, tparams={'maxn': 30}, ttime=300)
reg('C22', 'dict.c', 'h_dict_remove', T % 14 + ', removal of any node or extremum', ['removed'], params={'maxn': 14}, tparams={'maxn': 15, 'times': 2}, ttime=400)
reg('C22', 'dict.c', 'h_dict_join', T % 10 + ' joined with any tree of <= 4 nodes, either side', ['join2', 'join3'], params={'maxn': 10, 'maxn2': 4}, tparams={'maxn': 15, 'maxn2': 7}, ttime=400)
reg('C22', 'dict.c', 'h_dict_split', T % 13 + ', split at any key, joined back', ['split'], params={'maxn': 13}, tparams={'maxn': 30}, ttime=300)
reg('C22', 'dict.c', 'h_dict_find', T % 6 + ' with runs of equal keys, all duplicate modes', ['found', 'inserted by reference'], params={'maxn': 6}, tparams={'maxn': 9}, ttime=300)
reg('C22', 'dict.c', 'h_dict_swap', T % 7 + ' and a second tree of <= 3 nodes, any two nodes swapped', ['two trees', 'outside node', 'same tree'], tparams={'maxn': 12})
reg('C22', 'dict.c', 'h_dict_many', 'trees of 0..101 keys grown in ascending, descending or scrambled order and thinned: joins of any two, split at, removal or insertion of 60 keys spread over the range', ['join2', 'join3', 'split', 'removed', 'inserted'], time=60)
reg('C22', 'dict.c', 'h_dict_hist', 'all histories of 5 insert/remove operations with symbolic keys in 0..100000, duplicates allowed', ['removed', 'history done'], params={'ops': 5, 'range': 100000}, tparams={'ops': 7}, ttime=400)
reg('C23', 'vec.c', 'h_vec_u64', 'every sequence of 1 operation (18 kinds, all positions/counts, self-aliasing included) on vectors of 0..5 symbolic 64-bit elements', ['self insert', 'self copy', 'resized', 'done'], params={'ops': 1, 'n': 9}, tparams={'ops': 2, 'n': 5}, ttime=300)
reg('C23', 'vec.c', 'h_vec_c3', 'as h_vec_u64 with 3-byte elements, 2 operations', ['self insert', 'self copy', 'resized', 'done'], params={'ops': 2, 'n': 3}, tparams={'ops': 3, 'n': 4}, ttime=300)
reg('C23', 'vec.c', 'h_vec_sort', 'vectors of 0..4 symbolic elements, any sub-range', ['sorted'], params={'n': 4}, tparams={'n': 5}, ttime=300)
reg('C23', 'vec.c', 'h_vec_bsearch', 'sorted vectors of 0..7 symbolic elements, any key', ['found', 'absent'], params={'n': 7}, tparams={'n': 12})
reg('C23', 'vec.c', 'h_vec_u64', 'one operation of each of the 18 kinds on vectors of 12..128 symbolic elements, positions and counts at both ends and in the middle', ['self insert', 'self copy', 'resized', 'done'], time=20, params={'ops': 1, 'n': -8, 'big': 1}, tparams={'n': -8}, ttime=200)
reg('C23', 'vec.c', 'h_vec_c3', 'the same with 3-byte elements', ['self insert', 'self copy', 'resized', 'done'], time=20, params={'ops': 1, 'n': -8, 'big': 1}, tparams={'n': -8}, ttime=200)
reg('C23', 'vec.c', 'h_vec_sort_many', 'vectors of 12..128 elements in 4 orders, one element of 7 values at 5 places, sub-ranges from and up to both ends and the middle', ['sorted'], time=30, params={'big': 1}, ttime=100)
reg('C23', 'vec.c', 'h_vec_bsearch_many', 'sorted vectors of 12..128 elements, any key', ['found', 'absent'], time=15, ttime=60)
reg('C23', 'vec.c', 'h_vec_bits', '2 bit writes at any of 192 positions', ['bits'], time=10, params={'bits': 2}, tparams={'bits': 3}, ttime=200)
reg('C23', 'vec.c', 'h_ring', '5 nodes, every sequence of 3 chain/remove operations', ['ring'], tparams={'n': 6, 'ops': 4}, ttime=200)
reg('C24', 'heap.c', 'h_heap_ops', 'every heap of 0..5 symbolic elements, 1 operation of any kind, then drained', ['insert', 'remove', 'update', 'replace', 'replace self', 'extract'], time=25, params={'n': 5, 'ops': 1}, tparams={'n': 7, 'ops': 2}, ttime=400)
reg('C24', 'heap.c', 'h_heap_deep', 'every heap of 7 symbolic elements (thorough: 9), one removal or priority change at any inner position, next 3 (5) minima', ['remove', 'update'], time=25, params={'n': 7, 'mins': 3}, tparams={'n': 9, 'mins': 5}, ttime=300)
reg('C24', 'heap.c', 'h_heap_make', 'heapify 0..5 symbolic elements, then drained', ['made'], params={'n': 5}, tparams={'n': 6}, ttime=200)
reg('C24', 'heap.c', 'h_heap_many', 'heaps of 8..130 elements in 3 orders of priority, built one by one or at once; one operation at 7 places, the new priority symbolic; then drained', ['insert', 'remove', 'update', 'replace', 'extract'], time=40, ttime=100)
reg('C24', 'heap.c', 'h_vheap', 'value heap: 0..4 symbolic elements, built by insertion or heapify, one priority change, then drained', ['made', 'updated'], params={'n': 4}, tparams={'n': 6}, ttime=200)
reg('C25', 'pool.c', 'h_pool', 'every history of 3 pool operations (allocate any alignment 1..64, grow, clear, large), block size 4096', ['alloc', 'grow', 'clear', 'interface', 'big'], time=25, params={'ops': 2, 'sizes': 8}, tparams={'ops': 4}, ttime=400)
reg('C25', 'pool.c', 'h_pool_any', 'two allocations, sizes 1..40 and 1..200, alignment 1..128', ['second'], time=20, params={'first': 12, 'max': 60}, tparams={'first': 40, 'max': 400}, ttime=200)
reg('C25', 'pool.c', 'h_pool_many', '20, 110, and 200 allocations in 6 patterns of sizes with all alignments 1..64, cleared and repeated up to twice, block sizes 4096, 12288, and the real one, one size varied', ['done', 'again'], time=90)
reg('C25', 'pool.c', 'h_alloc', 'array allocation, growth and shrinking of 1..6 elements of 1..5 bytes', ['freed'])
reg('C07', 'bitmap.c', 'h_bm_spread', 'all 1024-bit tables (symbolic), all have/add', ['spread'])
reg('C07', 'bitmap.c', 'h_bm_repeat', 'all 1024-bit tables (symbolic), all have/add', ['repeat'])
reg('C07', 'bitmap.c', 'h_bm_combine', 'all pairs of 1024-bit tables (symbolic), all sizes and operators', ['combine'])
reg('C07', 'bitmap.c', 'h_bm_set', 'all 1024-bit tables, any index', ['set'], time=10)
reg('C07', 'csg.c', 'h_csg_layer', 'expressions of depth 1 over 4 boxes (one place symbolic) and a wedge, down to the triangles of 3 layers; with and without skipping of empty polygons, and with at most 2 simultaneous polygons', ['layers'], params={'depth': 1}, ttime=60)
reg('C07', 'csg.c', 'h_csg_nest', 'all expressions (a op b) op (c op d) and e, in both orders, over boxes of different heights (parts missing in some layers), with and without skipping of empty polygons', ['layers'], time=20, tparams={'sym': 1}, ttime=400)
reg('C07', 'csg.c', 'h_csg_upright', 'extrusions of expressions over plane shapes, turned upright so that the layers cut their paths one after the other, alone, with a box added or removed; with and without skipping of empty polygons, and with at most 2 simultaneous polygons', ['layers'], time=30, params={'depth': 1}, tparams={'depth': 2}, ttime=300)
reg('C07', 'csg.c', 'h_csg_frame', 'upright extrusions of a frame with up to 3 holes and a part inside of one, and of up to 3 separate parts with a hole, alone, with a box (one place symbolic) added or removed; the same options', ['layers'], time=40)
reg('C26', 'text.c', 'h_utf8_round', 'every Unicode scalar value, buffer of 0..4 bytes', ['round trip', 'no room'])
reg('C26', 'text.c', 'h_utf8_ok', 'every 32-bit value', ['ok'])
reg('C26', 'text.c', 'h_utf8_decode', 'every text of 0..5 bytes, bounded or NUL-terminated, in a buffer of exactly that size', ['valid', 'invalid', 'end'], params={'n': 5}, tparams={'n': 8}, ttime=300)
reg('C26', 'text.c', 'h_escape', 'backslash and every 0..7 following bytes', ['escape', 'malformed'])
reg('C26', 'text.c', 'h_vchar', 'every sequence of 3 string buffer operations with symbolic characters', ['done', 'printf', 'stream'], params={'ops': 3}, tparams={'ops': 4}, ttime=200)
reg('C26', 'text.c', 'h_vchar_many', 'two pieces of 0..10000 bytes (16 lengths and one less) added in 6 ways, half or all of it removed', ['done', 'printf', 'stream'], time=60)
reg('C01', 'arith.c', 'h_divmod', 'every pair of 32-bit operands except the excluded minimum', ['divmod'])
reg('C01', 'arith.c', 'h_divmodw', 'every pair of 64-bit operands except the excluded minimum', ['divmodw'])
reg('C01', 'arith.c', 'h_divmodx', 'every 64-bit dividend and 32-bit divisor with a representable quotient', ['divmodx'])
reg('C01', 'arith.c', 'h_div_rnd', 'every 64-bit dividend and positive 64-bit divisor', ['rnd'])
reg('C01', 'arith.c', 'h_div_eq', 'defining equations for dividends of 6 bits and divisors of 5 bits (thorough: 9 and 8), each at 2..3 binary scales up to 2^38', ['equation', 'rounded'], time=20, params={'bits': 6}, tparams={'bits': 9}, ttime=400)
reg('C01', 'arith.c', 'h_checked', 'every operand of every checked operation with a representable result', ['checked'])
reg('C01', 'arith.c', 'h_overflow', 'every operand of every checked operation with an unrepresentable result', ['expected failure'])
reg('C01', 'arith.c', 'h_mul_wide', 'every 64-bit factor times 2^k; every 9-bit window times 2^k-1, -2^k, ~2^k', ['mul'])
reg('C01', 'arith.c', 'h_mul_limb', '6-bit values in any 16-bit limb positions, with all-ones lower halves', ['limb'])
reg('C01', 'arith.c', 'h_frac_cmp', 'integer parts -3..3, denominators 1..8 (also scaled by 2^30)', ['cmp'], params={'d': 8}, tparams={'d': 20})
reg('C01', 'arith.c', 'h_frac_big', 'denominators just around 2^32, 2^33, 2^40, 2^48, 2^62, 2^63, fractions near 0 and 1', ['big'], tparams={'e': 7})
reg('C01', 'arith.c', 'h_round', 'every integer part, numerator and denominator', ['round', 'value'])
reg('C01', 'arith.c', 'h_vec_cmp', 'integer parts -4..4, denominators 1..6', ['vec'], params={'d': 6}, tparams={'d': 12})
reg('C01', 'arith.c', 'h_cross', 'every triple of points with 30-bit coordinates', ['cross'])
reg('C02', 'geom.c', 'h_isect_class', 'both segment vectors in 0..2 x -2..2 resp. -2..2 x -2..2 (thorough: 3) at 2 scales (thorough: 16), the second segment anywhere within 2^10 (thorough: 2^20) of the first', ['touching', 'crossing', 'apart', 'parallel'], time=25, params={'R': 2}, tparams={'R': 3, 'bits': 20, 'scales': 15}, ttime=300)
reg('C02', 'geom.c', 'h_isect_point', 'exact intersection point: segment vectors as above, second segment within 6 units, 2 scales (thorough: 4)', ['touching', 'crossing', 'apart', 'parallel'], time=25, params={'R': 2}, tparams={'R': 3, 'scales': 3, 'B': 10}, ttime=300)
reg('C02', 'geom.c', 'h_isect_large', 'crossing segments of extents 1, 2^10, 2^20, 2^29 with perturbed end points', ['crossing'], tparams={'e': 4}, ttime=200)
reg('C02', 'geom.c', 'h_isect_sym', 'segment vectors up to 2x2, second segment within 4 units, every order and direction', ['meet'], time=25, params={'R': 2}, tparams={'R': 3, 'B': 7}, ttime=300)
reg('C02', 'geom.c', 'h_isect_any', 'any-pair query: first segment anywhere on a 3x3 grid, second fixed per path (thorough: 3 segments)', ['overlap', 'cross', 'free'], time=20, params={'R': 2, 'n': 2}, tparams={'R': 2, 'n': 3}, ttime=300)
reg('C03', 'geom.c', 'h_pixel_all', 'segment vectors {0,1,2}x{-2..2} times 1, 1000, 2^20 (thorough: also 2^27-1), each perturbed by -1..1; segment and pixel anywhere within 2^28', ['through', 'beside', 'in line'], time=30, params={'scales': 2}, tparams={'scales': 3}, ttime=200)
reg('C03', 'geom.c', 'h_pixel_grid', 'every segment vector up to 4x4 and every pixel around it, direct interval oracle', ['through', 'beside'], params={'R': 4}, tparams={'R': 9}, ttime=300)
reg('C04', 'geom.c', 'h_coord_trip', 'every 32-bit grid coordinate, 6 binary scales; 549 coordinates at scales 10 and 1000', ['trip'])
reg('C04', 'geom.c', 'h_coord_import', 'positions m*2^-e + offset, m of 17 bits (thorough: 20), 4 exponents, 3 offsets, 5 scales', ['import'], time=25, params={'bits': 14}, tparams={'bits': 20}, ttime=300)
reg('C04', 'geom.c', 'h_coord_mono', 'pairs of positions m*2^-e of 17 bits (thorough: 20)', ['mono'], time=20, params={'bits': 14}, tparams={'bits': 20}, ttime=300)
reg('C04', 'geom.c', 'h_coord_range', 'every double, NaN and infinities included', ['in range', 'expected failure'])
reg('C04', 'geom.c', 'h_coord_scale', 'scales 1, 3, 1.25 times 2^-20..2^30', ['name'])
reg('C04', 'geom.c', 'h_coord_box', '1..3 points with arbitrary 32-bit coordinates', ['box'])
reg('C04', 'grid.c', 'h_grid', 'the grid the tool works with: 10 settings of --grid and --gran, all modes of --auto-grid, boxes at places d*10^k on either side of 0, k in 0..6, one d symbolic: as asked for, or the finest power of two that fits', ['fixed', 'kept', 'chosen', 'reduced'], time=60)
reg('C04', 'grid.c', 'h_grid_num', 'numbers of option --grid: d, 1d, combined with / ^ . or something else and any digit, one digit symbolic, with 5 endings', ['accepted', 'refused'], time=60)
reg('C04', 'geom.c', 'h_coord_vec', '19x19 vectors', ['vector'])

G = 'every pair of 10 shapes (holes, self-crossing, self-touching, slivers), the second moved by any x in -20..20'
GP = {'Y': 0, 'y0': 2, 'flips': 0}
GT = {'u': 7, 'R': 60, 'third': 1, 'Y': 2, 'ystep': 7, 'QS': 5, 'dir': 1}
reg('C05', 'sweep.c', 'h_sw_arr', G + '; all input segments arranged', ['split', 'as is'], time=40, params=GP, tparams=dict(GT, modes=1), ttime=500)
reg('C05', 'sweep.c', 'h_sw_arr', 'as above, segments added in alternating direction, y in -5..5 step 5, mirrored or not, one vertex moved instead', ['split'], time=30, params={'Y': 1, 'dir': 1, 'modes': 1}, tparams={'u': 5, 'R': 40, 'Y': 3, 'dir': 1, 'modes': 1}, ttime=300)
reg('C05', 'sweep.c', 'h_sw_arr', 'the same shapes given as a list of segments: same result as edge by edge, and its bounding box', ['copied'], time=40, params=dict(GP, copy=1), tparams=dict(GT, copy=1), ttime=100)
reg('C06', 'sweep.c', 'h_sw_bool', G + '; union, intersection, difference, xor', ['some', 'nothing'], time=45, params=GP, tparams=GT, ttime=600)
COL = 'two edges that overlap along a line of 4 directions in 11 ways (equal, same start, same end, inside, partial, touching, apart; in either order of insertion)'
reg('C05', 'sweep.c', 'h_sw_col', COL + ' and a third edge crossing the line at any of 49 places, from either side, with two slopes', ['arranged'], time=40, params={'open': 1, 'R': 24}, tparams={'open': 1, 'R': 90, 'u': 14}, ttime=200)
reg('C06', 'sweep.c', 'h_sw_col', 'the same between closed triangles, xor of all three', ['some'], time=40, params={'bool': 1, 'op0': 3, 'dir0': 1, 'cuts': 0, 'R': 20}, tparams={'bool': 1, 'R': 60, 'u': 10}, ttime=300)
BG = '8 larger arrangements in 2 sizes (17-point stars, gratings, nested rings, chains, fans, saws, two overlapping 17-gons, slivers: up to 100 edges) and a wedge moved by -2..2 (thorough: -12..12) in either direction across them'
BP = {'big': 1, 'R': 2, 'cstep': 5}
BT = {'big': 1, 'R': 12, 'cstep': 3}
reg('C05', 'sweep.c', 'h_sw_arr', BG + '; all segments arranged', ['split'], time=40, params=BP, tparams=BT, ttime=300)
reg('C06', 'sweep.c', 'h_sw_bool', BG + '; union, intersection, difference, xor', ['some', 'nothing'], time=60, params=BP, tparams=BT, ttime=400)
reg('C06', 'csg.c', 'h_csg_layer', 'expressions of depth 1 over 4 boxes (one place symbolic) and a wedge, down to the triangles of 3 layers; with and without skipping of empty polygons, and with at most 2 simultaneous polygons', ['layers'], params={'depth': 1}, ttime=60)
reg('C06', 'csg.c', 'h_csg_nest', 'all expressions (a op b) op (c op d) and e, in both orders, over boxes of different heights (parts missing in some layers), with and without skipping of empty polygons', ['layers'], time=20, tparams={'sym': 1}, ttime=400)
reg('C06', 'csg.c', 'h_csg_upright', 'extrusions of expressions over plane shapes, turned upright so that the layers cut their paths one after the other, alone, with a box added or removed; with and without skipping of empty polygons, and with at most 2 simultaneous polygons', ['layers'], time=30, params={'depth': 1}, tparams={'depth': 2}, ttime=300)
reg('C06', 'csg.c', 'h_csg_frame', 'upright extrusions of a frame with up to 3 holes and a part inside of one, and of up to 3 separate parts with a hole, alone, with a box (one place symbolic) added or removed; the same options', ['layers'], time=40)
reg('C08', 'sweep.c', 'h_sw_tri', BG + '; union, intersection, difference, xor', ['triangles', 'empty'], time=60, params=BP, tparams=BT, ttime=400)
reg('C09', 'sweep.c', 'h_sw_poly', BG + '; union, intersection, difference, xor', ['several paths', 'one path', 'empty'], time=60, params=BP, tparams=BT, ttime=400)
reg('C08', 'sweep.c', 'h_sw_tri', G + '; union, intersection, difference, xor', ['triangles', 'empty'], time=45, params=GP, tparams=GT, ttime=600)
reg('C09', 'sweep.c', 'h_sw_poly', G + '; union, intersection, difference, xor', ['several paths', 'one path', 'empty'], time=45, params=GP, tparams=GT, ttime=600)
reg('C15', 'csg.c', 'h_csg_tree', 'all expressions of union, difference, intersection, group and plain blocks of 1..3 children (one of them again an expression of 1..2) over boxes at symbolic places, disabled and empty boxes; any query point', ['difference', 'intersection', 'union'], time=20, params={'maxn': 3, 'nest': 1}, tparams={'maxn': 3, 'nest': 2, 'deep': 2}, ttime=400)
reg('C15', 'csg.c', 'h_csg_tree', 'the same with 1..2 children, both of which may be expressions', ['difference', 'intersection', 'union'], time=40, params={'maxn': 2, 'nest': 2}, thorough_only=True, ttime=100)
reg('C15', 'csg.c', 'h_csg_kinds', '14 kinds of children (ignored, disabled, empty, collapsed, highlighted, ...) at every place of every operator', ['kinds'], params={'ops': 4}, ttime=60)
reg('C15', 'csg.c', 'h_csg_outside', '12 kinds of objects of the wrong dimension at every place of every operator of three children, refused, ignored or warned about', ['2D in 3D', '3D in 2D', 'refused'], ttime=60)
reg('C15', 'csg.c', 'h_csg_root', "modifiers '!', '*', '%' on every node of expressions of depth 1, with a second object, with and without keeping the context", ['root', 'no root', 'several'], params={'depth': 1}, tparams={'depth': 2}, ttime=300)
reg('C15', 'csg.c', 'h_csg_root', 'sequences of modifiers', ['root', 'no root', 'several'], params={'depth': 0, 'mods': 9}, tparams={'depth': 1, 'mods': 9}, ttime=200)
reg('C15', 'csg.c', 'h_csg_layer', 'expressions of depth 1 over 4 boxes (one place symbolic) and a wedge, down to the triangles of 3 layers; with and without skipping of empty polygons, and with at most 2 simultaneous polygons', ['layers'], params={'depth': 1}, ttime=60)
reg('C15', 'csg.c', 'h_csg_layer', 'expressions of depth 2 over 4 boxes (one place symbolic) and a wedge, down to the triangles of 3 layers', ['layers'], time=25, params={'depth': 2, 'options': 0, 'more': 0}, tparams={'depth': 2}, ttime=500)
reg('C15', 'csg.c', 'h_csg_nest', 'all expressions (a op b) op (c op d) and e, in both orders, over boxes of different heights (parts missing in some layers), with and without skipping of empty polygons', ['layers'], time=20, tparams={'sym': 1}, ttime=400)
reg('C15', 'csg.c', 'h_csg_nest', 'all expressions ((a op b) op c) op d and their mirror images, one place symbolic', ['layers'], time=25, params={'nest': 1, 'sym': 1}, ttime=200)
reg('C15', 'csg.c', 'h_csg_upright', 'extrusions of expressions over plane shapes, turned upright so that the layers cut their paths one after the other, alone, with a box added or removed; with and without skipping of empty polygons, and with at most 2 simultaneous polygons', ['layers'], time=30, params={'depth': 1}, tparams={'depth': 2}, ttime=300)
reg('C15', 'csg.c', 'h_csg_frame', 'upright extrusions of a frame with up to 3 holes and a part inside of one, and of up to 3 separate parts with a hole, alone, with a box (one place symbolic) added or removed; the same options', ['layers'], time=40)
reg('C15', 'csg.c', 'h_csg_plane', 'expressions of depth 1 over plane shapes, extruded', ['one', 'several', 'empty'], params={'depth': 1}, tparams={'depth': 2}, ttime=400)
assume('C15', 'for, intersection_for, render, minkowski, offset and resize are not supported by the tool', "a '!' below a '*' does not select anything, as a disabled part does not exist (as in OpenSCAD)", 'membership of boxes is decided along one axis; the operators do not look at the objects')
reg('C17', 'parse.c', 'h_parse', 'every text of 0..3 bytes (thorough: 4), and every 0..2 bytes (thorough: 3) in 19 contexts covering each kind of token and bracket', ['tree', 'error', 'nothing'], time=30, params={'n0': 3, 'n': 2}, tparams={'n0': 4, 'n': 3}, ttime=500)
reg('C17', 'parse.c', 'h_mutate', 'a text using the whole syntax with any 1 or 2 near bytes replaced, one inserted or one removed', ['tree', 'error'], time=30, params={'then': 3}, tparams={'then': 30}, ttime=300)
reg('C17', 'parse.c', 'h_include', 'nested includes from 2 directories with two arbitrary bytes in any of the 3 files', ['included', 'error'], time=15)
reg('C17', 'parse.c', 'h_loc', 'every text of 0..5 bytes (thorough: 7), every position: line, column, citation, pointer', ['line', 'column'], time=25, params={'n': 5}, tparams={'n': 7}, ttime=300)
reg('C17', 'parse.c', 'h_number', 'every integer of 1..18 digits, any sign', ['number'])
reg('C17', 'parse.c', 'h_many', 'texts with 5..130 statements, levels, chained calls, arguments, array elements or nested arrays, parts of names and strings, modifiers, comment lines, or empty lines; any byte at 3 places', ['tree', 'error'], time=40, ttime=100)

reg('C18', 'scadargs.c', 'h_args', 'every function, every 0..2 (thorough: 3) arguments: positional, named, unknown; one of them in each of 17 forms with symbolic digits; every policy for unknown parameters', ['object', 'error', 'unknown ignored'], time=25, params={'m': 2}, tparams={'m': 3}, ttime=500)
reg('C18', 'scadargs.c', 'h_name', 'every function name with one character replaced, inserted or removed; every policy for unknown functions', ['ignored', 'rejected', 'known'], time=15)
reg('C18', 'scadargs.c', 'h_matrix', '0..5 rows of 0..5 symbolic digits', ['matrix', 'rejected'], time=15)
reg('C18', 'scadargs.c', 'h_points', '0..4 points, 0..2 faces or paths of 0..5 symbolic indices', ['polygon', 'polyhedron', 'rejected'], time=15)
reg('C18', 'scadargs.c', 'h_color', 'component arrays of 0..5, hex strings of 0..8 symbolic digits, alpha values', ['colour', 'rejected'], time=15)
reg('C18', 'scadargs.c', 'h_many', 'polygons and polyhedra of 6..130 points, faces, paths, or corners; an index of any two digits, or a coordinate of any two digits, at 3 places', ['polygon', 'polyhedron', 'rejected'], time=40, ttime=100)
reg('C19', 'stl.c', 'h_mutate', 'text STL of 2 facets (209 bytes): any byte at any position, with its neighbour (any two values), inserted, or removed; cut off anywhere', ['facets', 'error'], time=25, tparams={'then': 4}, ttime=400)
reg('C19', 'stl.c', 'h_text', '10 contexts with any 0..2 bytes at an expected place (thorough: 3)', ['facets', 'empty', 'error'], time=15, params={'n': 2}, tparams={'n': 3}, ttime=500)
reg('C19', 'stl.c', 'h_points', 'up to 2 facets, 5 corners with any digits 0..1 (thorough: 0..2) in every coordinate', ['facets'], time=20, tparams={'R': 2, 'free': 5}, ttime=400)
reg('C19', 'stl.c', 'h_bin', '0..2 facets (thorough: 3) and file lengths off by -50..49: any facet count, any header byte, any normal and attribute bytes, any byte of any coordinate, special float values', ['facets', 'empty', 'error', 'near corners'], time=30, params={'facets': 2}, ttime=400)
reg('C19', 'stl.c', 'h_many', 'files of 3..60 facets with shared corners in 4 orders, text (one digit of the last facets symbolic) and binary', ['facets'], time=20, params={'sizes': 4}, ttime=60)
assume('C19', 'corners whose coordinates differ by less than the comparison epsilon 2^-15 (but are not equal) may be joined')
reg('C20', 'xml.c', 'h_xml', '24 contexts with any 0..3 bytes at a place of interest (thorough: 4), with and without chomping', ['error', 'tree', 'tree chomped'], time=30, params={'n': 3}, tparams={'n': 4}, ttime=500)
reg('C20', 'xml.c', 'h_mutate', 'a document using the whole syntax (190 bytes): any byte at any position, with its neighbour (any two values), inserted, or removed; cut off anywhere', ['error', 'tree', 'tree chomped'], time=25, tparams={'then': 4}, ttime=400)
reg('C20', 'xml.c', 'h_names', 'start and end tags with names of any 1..3 bytes (thorough: 4)', ['error', 'tree'], time=15, tparams={'n': 4}, ttime=300)
reg('C20', 'xml.c', 'h_tree', 'node lists of 1..2 nodes (thorough: 3) with any types, names and name spaces, flat or nested; every search and name space change', ['found', 'set'], time=10, params={'nodes': 2}, tparams={'nodes': 3}, ttime=100)
reg('C20', 'xml.c', 'h_many', 'documents with 6..110 attributes, nested elements, nested or parallel name space declarations, siblings, entities, or with names and texts of that many parts; any byte at 3 places', ['error', 'tree', 'tree chomped'], time=30, ttime=100)
assume('C20', 'documents nested deeper than 110 levels or longer than 8 KB are not explored')
reg('C21', 'svg.c', 'h_path', '14 path contexts with any 0..2 ASCII bytes at a place of interest (thorough: 3)', ['polygons', 'nothing drawn'], time=20, params={'n': 2}, tparams={'n': 3}, ttime=500)
reg('C21', 'svg.c', 'h_cmds', 'every sequence of 2 path commands (thorough: 3), absolute or relative, last one repeated, curves in 2..3 segments, then a closing line', ['polygons'], time=20, params={'cmds': 2}, tparams={'cmds': 3}, ttime=300)
reg('C21', 'svg.c', 'h_arc', 'arcs: radii -4,0,1,5, angles 0,90,30,-45,400, both flags, end points in 0..3 (thorough: 0..9) squared', ['polygons'], time=20, params={'r': 3}, tparams={'r': 9, 'fn': 7}, ttime=200)
reg('C21', 'svg.c', 'h_shapes', 'rect, circle, ellipse, polygon, polyline, line: any attribute with any 0..1 ASCII bytes (thorough: 2), with and without a digit in front', ['polygons', 'nothing drawn', 'invalid'], time=15, params={'n': 1}, tparams={'n': 2}, ttime=300)
reg('C21', 'svg.c', 'h_xform', '12 transformation lists with any 0..2 ASCII bytes at a place of interest (thorough: 3), on shape, group, and svg', ['polygons', 'malformed'], time=20, params={'n': 2}, tparams={'n': 3}, ttime=400)
reg('C21', 'svg.c', 'h_struct', 'two levels of 8 kinds of elements, ids and layers, default or explicit name space, shifts 1..2 (thorough: 1..9)', ['polygons', 'nothing drawn'], time=20, params={'r': 2}, tparams={'r': 9}, ttime=200)
reg('C21', 'svg.c', 'h_view', 'width x height x viewBox x preserveAspectRatio x dpi x center, top level or nested, rectangle width 1..9', ['polygons'], time=20, ttime=100)
reg('C21', 'svg.c', 'h_many', 'drawings with 5..130 subpaths, points, mixed commands, curve segments, elements, nested groups, or transformations; one symbolic digit at 3 places', ['polygons'], time=40, ttime=100)
assume('C21', 'attribute values are ASCII without NUL', 'numbers up to 1e6 with a magnitude of at least 1e-2 (or 0)', 'curves drawn in 2..7 segments ($fn given)', 'the effect of malformed transformations and of skewing by 90 degrees is not specified', 'a viewBox origin other than 0 without width and height is not specified')
MT = 'all matrix kinds (2x2, 3x3, 4x4, 2x2 and 3x3 with offset), result separate or overwriting an operand; '
reg('C30', 'mat.c', 'h_mat_mul', MT + 'all entries symbolic in -3..3 (thorough: -100..100)', ['product'], tparams={'R': 100})
reg('C30', 'mat.c', 'h_mat_xform', MT + 'all entries and coordinates symbolic in -50..50 (thorough: -2000..2000)', ['applied'], tparams={'R': 2000})
reg('C30', 'mat.c', 'h_mat_trans', MT + 'all entries symbolic in -99..99', ['transposed'])
reg('C30', 'mat.c', 'h_mat_det', MT + 'all entries symbolic in -1..1', ['determinant'])
reg('C30', 'mat.c', 'h_mat_inv', MT + 'entries in -1..1 (4x4: 0..1 with one unit column anywhere), determinants 0, 1, -1, 2, -2, 4', ['inverse', 'singular'], time=25)
reg('C30', 'mat.c', 'h_mati_ops', MT + 'product, inversion, transposition of matrices with inverse, all entries symbolic in -2..2', ['composed', 'inverted', 'transposed'])
reg('C30', 'mat.c', 'h_scale', 'all scalings by 0, 1, -1, 2, -4, 1/4 per axis, all matrix kinds and forms', ['scaled', 'singular'])
reg('C30', 'mat.c', 'h_xlat', 'translations by -1000..1000 per axis, all matrix kinds and forms', ['moved'])
reg('C30', 'mat.c', 'h_rot', 'rotations about the axes: quarter turns -9..9 (exact), multiples of 5 degrees -360..360, all matrix kinds and forms, axis length 1/4, 1, 3, 4', ['right angle', 'rotated'])
reg('C30', 'mat.c', 'h_rot_v', 'rotations about every axis in -2..2 cubed by multiples of 30 degrees', ['rotated'])
reg('C30', 'mat.c', 'h_mirror', 'mirrors at every plane with normal in -3..3 cubed', ['mirrored'])
reg('C30', 'mat.c', 'h_into_z', 'every vector in -3..3 cubed', ['rotated', 'no direction'])
reg('C30', 'mat.c', 'h_into_zx', 'every pair of vectors in -2..2 cubed, 3 origins', ['rotated', 'second vector'])
reg('C30', 'mat.c', 'h_sincos', 'multiples of 30 degrees up to 1e12 turns', ['exact'])
reg('C30', 'mat.c', 'h_sincos_any', 'multiples of 1/8 degree in -1150..1150', ['angle'])
reg('C30', 'mat.c', 'h_get_int', 'every double', ['integer', 'other'])
reg('C30', 'mat.c', 'h_vec', 'all coordinates symbolic in -40..40', ['products'])
reg('C30', 'mat.c', 'h_in_line', 'three points, all coordinates symbolic in -8..8', ['line'])
reg('C30', 'mat.c', 'h_conv', 'all entries symbolic', ['converted', 'not convertible'])
reg('C30', 'mat.c', 'h_vecs', 'vectors of 2, 3 and 4 coordinates symbolic in -50..50 (divisions: 5 values; unit vectors: 7 scales from 2^-40 to 2^12), 14 operations, results may overlap operands', ['computed'], time=30)
reg('C30', 'mat.c', 'h_normal', 'pairs of directions in -1..1 cubed with lengths 2^-14, 2^-10, 2^-7, 1, 2^10 each, from the origin or another point', ['normal', 'in line'])
reg('C30', 'mat.c', 'h_boxes', 'pairs of bounding boxes and a point, all coordinates symbolic in -50..50, boxes may be empty', ['boxes'], tparams={'nmax': 4})
reg('C30', 'mat.c', 'h_nearest', 'lines of 4 directions and points, angles between all vectors in -2..2 squared', ['nearest', 'angle'])
reg('C30', 'mat.c', 'h_convi', 'matrices with inverse, all entries symbolic', ['converted', 'not convertible'])
reg('C30', 'mat.c', 'h_refs', 'arrays of 1..4 points, all coordinates symbolic in -99..99, 4 kinds of references', ['reference'])
reg('C30', 'mat.c', 'h_rect', 'all non-singular 3x3 matrices with entries -1..1', ['rectangular', 'other'])
assume('C30', 'coefficients are small integers (dyadic), where double arithmetic is exact; rounding in general coefficients is outside the claim', 'sin, cos and sqrt of libm are trusted; rotation and mirror constructors are therefore explored per concrete angle and axis', 'cp_mat3w_xform_into_zx_2 with a second vector along (0,0,1) or along the first vector')
reg('C27', 'hull.c', 'h_hull', 'up to 4 points: up to 3 fixed per path on a 3x3 grid of pitch 4, one with x in -20..20 (symbolic) and y in -5..5, at 2 scales, in both orders', ['all', 'some', 'line', 'few'], time=25, params={'R': 1}, tparams={'R': 2}, ttime=600)
reg('C27', 'hull.c', 'h_hull_grid', 'every sequence of 3..4 points (thorough: 5) on a 3x3 grid', ['all', 'some', 'line'], params={'n': 4}, tparams={'n': 5}, ttime=300)
reg('C27', 'hull.c', 'h_hull_many', '4 sets of 10 points (concave chain, square with points on its sides, star, convex) with up to 2 left out and one more with x in -20..20 (symbolic) and 7 values of y, in 3 orders', ['all', 'some'], time=60)
reg('C27', 'hull.c', 'h_hull_large', '13..130 points (9 numbers): scattered ones, two parabolas, a grid with long rows, a line but for one point, the sides of a square; 4 orders; none or one of 20 further points', ['all', 'some'], time=90)
assume('C27', 'coordinates are multiples of 1/64 at least, so the comparison tolerance of the code (2^-15) never merges distinct points', 'point sets with at least two distinct points', 'placement of the hull as a scene operation is decided by the C13 entries')
X_ = 'translations and matrix offsets with all digits 0..9 symbolic, scalings, mirrors, rotations (angle, angles, axis), multmatrix, color, group'
reg('C13', 'xform.c', 'h_xf_cube', 'a box under chains of 1..2 modifiers: ' + X_ + '; any angle', ['preserving', 'reversing'], time=60, params={'exact': 0, 'depth': 2}, ttime=100)
reg('C13', 'xform.c', 'h_xf_cube', 'a box under chains of 1..3 modifiers with exact coefficients', ['preserving', 'reversing'], time=10, params={'exact': 1, 'depth': 2}, tparams={'exact': 1, 'depth': 3}, ttime=500)
reg('C13', 'xform.c', 'h_xf_poly', 'a tetrahedron with all 12 coordinates symbolic (digits 0..9) under every modifier, volume with any one of them symbolic', ['tetrahedron', 'volume'], time=15)
reg('C13', 'xform.c', 'h_xf_ops', 'modifiers around union, difference, intersection, group, and plain blocks of boxes and spheres with modifiers of their own', ['operation', 'block'], time=25, params={'mod0': 0, 'mod1': 2}, tparams={}, ttime=400)
reg('C13', 'xform.c', 'h_xf_plane', '4 kinds of plane shapes, hulls and projections under 1..2 plane modifiers (one symbolic digit), extruded, under 4 space modifiers', ['shape', 'hull', 'projection'], time=40, tparams={'depth': 2, 'anyouter': 1}, ttime=500)
assume('C13', 'chains of at most 2 modifiers (thorough: 3), numbers of one digit or from a fixed list', 'sin, cos and sqrt of libm are trusted; angles are from a list of 7', 'expected positions are compared with a tolerance of 2^-20 (plane shapes: 2^-9, as they are on the grid of the sweep)')
reg('C14', 'prim.c', 'h_pr_cube', 'boxes: one symbolic size 1..9, scalar, vector, named, negative, centred or not', ['centred', 'corner'])
reg('C14', 'prim.c', 'h_pr_cyl', 'cylinders, cones, and their frustums: symbolic height 1..9, all pairs of 5 radii or diameters, 3..8 segments (thorough: 16), centred or not, mirrored or not', ['cone', 'cylinder'], tparams={'fn': 16}, ttime=100)
reg('C14', 'prim.c', 'h_pr_sphere', 'spheres of symbolic radius or diameter 1..9, 3..8 segments (thorough: 12)', ['sphere'], tparams={'fn': 12}, ttime=100)
reg('C14', 'prim.c', 'h_pr_fn', 'segment counts 0, 3, 12, 13 with a limit of 12, and none', ['perfect', 'segments'])
reg('C14', 'prim.c', 'h_pr_linext', 'linear_extrude: symbolic height 1..9, 4 shapes (convex, concave, circles), 5 twists, 1..3 slices, 5 scales, centred or not', ['straight', 'twisted', 'pointed'], time=20)
reg('C14', 'prim.c', 'h_pr_paths', 'shapes with a hole or with 2 parts, one symbolic coordinate', ['hole', 'parts'])
reg('C14', 'prim.c', 'h_pr_rotext', 'rotate_extrude: 3 shapes on either side of the axis with a symbolic coordinate 1..9, 7 angles, 1..6 segments (thorough: 12)', ['full turn', 'arc'], tparams={'fn': 12}, ttime=100)
reg('C14', 'prim.c', 'h_pr_bad', '22 objects with a parameter that makes them empty (symbolic digit), every policy for empty and collapsed objects', ['rejected', 'empty'])
reg('C14', 'prim.c', 'h_pr_negscale', 'scale -1..-9, 1..4 slices', ['pointed'])
reg('C14', 'prim.c', 'h_pr_cyl', 'the same with 11..100 segments (12 numbers), two heights', ['cone', 'cylinder'], params={'many': 12}, time=60)
reg('C14', 'prim.c', 'h_pr_sphere', 'the same with 11..32 segments (8 numbers), two radii', ['sphere'], params={'many': 8}, tparams={'many': 9}, ttime=100)
reg('C14', 'prim.c', 'h_pr_linext', 'circles of 11..32 segments (8 numbers), 1..7 slices, the same twists and scales, two heights', ['straight', 'twisted', 'pointed'], params={'many': 8}, tparams={'many': 12}, time=90, ttime=200)
reg('C14', 'prim.c', 'h_pr_rotext', 'the same with 11..100 segments (12 numbers), two sizes', ['full turn', 'arc'], params={'many': 12}, time=60)
reg('C14', 'prim.c', 'h_pr_size', '10 kinds of objects with 10 widths and 10 heights from 2^-13 to 65536', ['sphere', 'solid', 'other'])
assume('C14', '$fn = 1 and 2 except in rotate_extrude (documentation and code disagree)', 'twists of 90 degrees per slice and more may intersect themselves: only the closed surface is claimed', 'sides of an extrusion with different scales for x and y are not plane: their volume is not claimed')
reg('C16', 'bbox.c', 'h_bb_tree', 'one union, difference or intersection of 1..3 boxes, ellipsoids and disabled objects, along each axis: any digit for every position, any query point; box of the model and of everything', ['all', 'result', 'empty'], time=20, params={'depth': 1, 'maxn': 3}, ttime=200)
reg('C16', 'bbox.c', 'h_bb_tree', 'two levels of operations of 1..2 boxes, ellipsoids and disabled objects, any digit for every position, any query point', ['all', 'result', 'empty'], time=12, params={'depth': 2, 'maxn': 2}, ttime=500)
reg('C16', 'bbox.c', 'h_bb_shape', 'ellipsoids and boxes under 6 linear maps with any digits for the offsets', ['ball', 'box'])
reg('C16', 'bbox.c', 'h_bb_layers', 'the command line tool on a box of height 1..2 at any z of one digit (positive or negative), alone or cut by a bigger box: 6 steps (thorough: 7), --min, --max, both (either symbolic), --z, none', ['whole', 'limits', 'empty range'], time=40, tparams={'steps': 6}, ttime=200)
assume('C16', 'boxes of axis-parallel objects along one axis at a time; rotated objects only as in h_bb_shape', 'numbers given to --min, --max, --z have one digit', 'bounding boxes are compared with a tolerance of 2^-15')
reg('C10', 'slicing.c', 'h_sl_poly', '10 solids (prisms, pyramids, octahedron, concave ones, one with a hole, two parts, stairs) under 8 linear maps: every height (any integer from below the lowest to above the highest corner, i.e., also through corners, edges, and faces); 4x4 query points (thorough: 9x9) and the middle of every line', ['cut', 'outside'], time=40, params={'grid': 4}, tparams={'grid': 9}, ttime=400)
reg('C10', 'slicing.c', 'h_sl_tet', '4 tetrahedra, one coordinate of any digit 0..9, 21 heights, 36 query points', ['cut', 'outside'], time=25, ttime=100)
reg('C10', 'slicing.c', 'h_sl_sphere', 'ellipsoids under 10 linear maps (sizes 1/4 to 600) and 3 offsets, 3..7 segments (thorough: 30): heights of every multiple of 1/8 in -15..15 (of 16 for the large ones)', ['cut', 'outside'], time=15, tparams={'fn': 30}, ttime=200)
reg('C10', 'slicing.c', 'h_sl_sphere', 'the same ellipsoids of 8..100 segments (6 numbers) at 9 heights', ['cut', 'outside'], params={'many': 1})
assume('C10', 'coordinates of the cut are rounded to the grid: query points closer to the outline than 2 grid units, or close to a corner of the outline, are not compared', 'parts of the solid thinner than 2 grid units', 'sqrt, sin and cos of libm are trusted')
reg('C11', 'output.c', 'h_out_stl', '9 models (boxes, a frame, stacked boxes, an L, boxes touching at an edge, a cone, a U, a difference with two holes, nothing), one coordinate any digit 0..9, layer thickness 0.5 and 1 (thorough: 0.25), gap default, 0, 0.125, and larger than the layer, grid 8192 and 64: every facet, in text and binary form', ['closed', 'binary', 'degenerate'], time=40, tparams={'steps': 2}, ttime=200)
reg('C11', 'output.c', 'h_out_stl', 'a cone of 16..100 segments, 12 boxes and frames, 16..18 x the height of one (layers up to 36), the same options', ['closed', 'binary', 'degenerate'], params={'models0': 9, 'models': 11}, tparams={'models0': 9, 'models': 11, 'steps': 2}, time=60, ttime=200)
assume('C11', 'scenes of up to three primitives and heights of up to 5 layers of one scene', 'the digits of printed numbers are not looked at, only that at least 9 are requested', 'coordinates of one layer are compared with a tolerance of 2^-15')
reg('C12', 'output.c', 'h_out_csg2', 'the same 9 models, 2 layer thicknesses, gaps default, 0, 0.125, 2 grids: every polygon of every layer', ['layers'], time=20, tparams={'steps': 2}, ttime=100)
reg('C12', 'output.c', 'h_out_js', 'the models, 2 layer thicknesses, 3 gaps, 3 grids; with a root below a transformation that is or is not handed to the viewer (quick: 3 models)', ['closed'], time=30, params={'models': 2}, tparams={'models': 8, 'steps': 2}, ttime=300)
reg('C12', 'output.c', 'h_out_js_many', 'layers of 1, 10921..10923, 21845..22000 triangles, flat or not (more vertices than one group can index)', ['many'], time=30, ttime=100)
reg('C12', 'output.c', 'h_out_ps', 'the models, pages per layer or one, unscaled, scaled to fit, scaled to the maximum', ['pages', 'nothing'], time=20, tparams={'steps': 2}, ttime=100)
reg('C12', 'output.c', 'h_out_csg2', 'a cone of 16..100 segments, 12 boxes and frames, 16..18 x the height of one (layers up to 36), the same options', ['layers'], params={'models0': 9, 'models': 11}, time=60)
reg('C12', 'output.c', 'h_out_js', '12 boxes and frames, a box of up to 36 layers, the same options', ['closed'], params={'models0': 10, 'models': 11}, time=90)
reg('C12', 'output.c', 'h_out_ps', 'a cone of 16..100 segments, 12 boxes and frames, 16..18 x the height of one (layers up to 36), the same options', ['pages'], params={'models0': 9, 'models': 11}, time=60)
assume('C12', 'scenes of up to three primitives and heights of up to 5 layers of one scene', 'the digits of printed numbers are not looked at, only how many are requested', 'JS coordinates are integers in grid units and compared with a tolerance of 2 units; PS with 0.01 pt')
reg('C28', 'dump.c', 'h_dump_syn', 'syntax trees of 68 scenes in one or two nestings, with a symbolic digit in a number, a symbolic byte in strings, each modifier: dumped, read back, dumped again', ['syn'], time=20, ttime=100)
reg('C28', 'dump.c', 'h_dump_scad', 'the same scenes, converted: dumped, read back, dumped again', ['scad'], time=20, ttime=100)
reg('C28', 'dump.c', 'h_dump_csg3', 'the same scenes as 3D models: the dump lists the objects with their matrices, points and faces', ['polyhedron', 'sphere', 'xor'], time=20, ttime=100)
reg('C28', 'dump.c', 'h_dump_syn', 'deep and long scenes: 5..130 (7 numbers) nested operations (up to 33), operands, corners, faces, characters, or objects, one place symbolic or none', ['syn'], params={'many': 1})
reg('C28', 'dump.c', 'h_dump_scad', 'deep and long scenes: 5..130 (7 numbers) nested operations (up to 33), operands, corners, faces, characters, or objects, one place symbolic or none', ['scad'], params={'many': 1})
reg('C28', 'dump.c', 'h_dump_csg3', 'deep and long scenes: 5..130 (7 numbers) nested operations (up to 33), operands, corners, faces, characters, or objects, one place symbolic or none', ['polyhedron'], params={'many': 1})
assume('C28', 'numbers are compared up to 4e-16 relative (16 digits are printed)', 'a negative zero is read back as 0', 'the dump of the 3D model is not read back: it may hold hob3l_xor(), which the language does not have')
reg('C29', 'names.c', 'h_nm_color', 'every name of 0..21 bytes, none of them 0, the first one not #', ['color', 'no color'], time=45, ttime=200)
reg('C29', 'names.c', 'h_nm_hex', '# and every 0..8 bytes', ['3 digits', '6 digits'], time=20, ttime=60)
reg('C29', 'names.c', 'h_nm_functor', 'every name of 0..18 bytes as a functor, unknown or unsupported functors refused or ignored', ['functor', 'ignored', 'refused'], time=20, tparams={'len': 24}, ttime=60)
reg('C29', 'names.c', 'h_nm_svg', 'every element name of 1..14 bytes', ['group', 'nothing', 'shape'], time=20, tparams={'len': 20}, ttime=60)
reg('C29', 'names.c', 'h_nm_option', 'every option name of 1..22 bytes after --, not starting with - and without =, with the argument 1 or ignore', ['accepted', 'refused', 'dump'], time=30, tparams={'len': 26}, ttime=120)
assume('C29', 'bytes other than 0', 'a normal build accepts the debug-* options of the tracing build without effect', 'names of parameters are decided by the C18 entries; path commands and attributes of SVG by the C21 entries')

reg('C31', 'io.c', 'h_io_out', 'a cube of two layers in all 8 kinds of output, to stdout or to a file (5 endings): any one call of writing, flushing, closing or opening fails, writing any shorter number of bytes', ['written', 'reported'], time=20, ttime=60)
reg('C31', 'io.c', 'h_io_stream', 'one or two writes of 1..12 bytes (thorough: 30) or formatted prints, up to two failures, every shorter number of bytes', ['written', 'reported'], time=20, tparams={'size': 30}, ttime=60)
reg('C31', 'io.c', 'h_io_mem', 'a model with an include or an import of STL or SVG, output as STL, JS or syntax: any one of the first 120 (thorough: 1000) allocations fails', ['done', 'reported'], time=20, params={'allocs': 120}, tparams={'allocs': 1000}, ttime=100)
assume('C31', 'output is accepted by the C library call by call; what it has accepted is safe only after a successful flush or close', 'an allocation fails once; a program that then aborts with a message reports it')
reg('C32', 'io.c', 'h_io_read', 'files of 0..12289 bytes around multiples of the read size, symbolic bytes at both ends and in the middle; each of the first 3 reads returns everything, all but one byte or one byte; any one call fails', ['read', 'failed'], time=30, tparams={'chunks': 5}, ttime=200)
reg('C32', 'io.c', 'h_io_loc', 'every text of 1..7 characters out of line feed, carriage return and letter, every position, with a second file read before or after', ['located'], time=20, tparams={'size': 10}, ttime=200)
reg('C32', 'io.c', 'h_io_many', 'every sequence of 5 includes or imports of STL or SVG', ['done'], time=20, tparams={'items': 8}, ttime=200)
reg('C32', 'io.c', 'h_io_fail', 'every sequence of 2 includes or imports: any one opening or reading of a file fails', ['done', 'failed'], time=20, tparams={'items': 4}, ttime=100)
reg('C32', 'io.c', 'h_io_path', 'model, included and imported file in 5 x 4 x 4 relative and absolute directories, the last one present or missing', ['done', 'refused'], time=20, ttime=40)
reg('C32', 'io.c', 'h_io_cycle', '1 to 3 files that include each other in any way', ['done', 'refused'], time=30, ttime=60)
assume('C32', 'at most one failure per run', 'reading a file one after another means at most 3 open input files')
