#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here in a readable form)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None, **({'state': state} if state else {}))))
L='geomc/linalg/'; S='geomc/shape/'; F='geomc/function/'
p('P01','Vectors form a Euclidean vector space',
  'For vectors of two, three, four and more coordinates, sums, differences, negation, scaling, elementwise products, linear mixing, dot product, squared length, distance, cross product and equality all equal their coordinatewise textbook definitions, and the compound-assignment forms leave the same value as the plain forms. Unit vectors have length one and the same direction, projection onto a vector leaves a residual orthogonal to it, and reflection preserves length and negates the normal component.',
  ['inputs'],'all real coordinate values, dimensions 2,3,4 and the generic code path (5)',
  'Unit tests use a handful of vectors; the identities must hold for every coordinate value and every specialisation of the dimension.',
  [L+'Vec.h',L+'vecdetail/VecBase.h',L+'vecdetail/Vec2.h',L+'vecdetail/Vec3.h',L+'vecdetail/Vec4.h',F+'functiondetail/UtilDetail.h'],
  [('VecCommon operators',L+'vecdetail/VecBase.h'),('specialised dot/mag/add',L+'vecdetail/Vec2.h, Vec3.h, Vec4.h'),('fused products',F+'functiondetail/UtilDetail.h')],
  ['return values of Vec methods'])
p('P02','Vector rotations are rigid and have the right angle and axis',
  'Rotating a two-dimensional vector by an angle, or a three-dimensional vector about an axis (optionally through a centre point), preserves lengths and distances to the axis, fixes every point of the axis, and turns perpendicular vectors by exactly the given angle in the right-handed sense. Left and right perpendiculars are quarter turns, and polar and spherical conversions give the point their angles and radius describe.',
  ['inputs'],'all real vectors, non-zero axes, centre points and angles',
  'Tests never exercise vector rotation; correctness needs all axes and centres, and mistakes vanish for axis-aligned or centred inputs.',
  [L+'vecdetail/Vec2.h',L+'vecdetail/Vec3.h'],
  [('rotate',L+'vecdetail/Vec3.h'),('rotate',L+'vecdetail/Vec2.h'),('perpendiculars',L+'vecdetail/Vec2.h')],['Vec rotate results'])
p('P03','Scalar helpers meet their mathematical definitions',
  'Positive modulo lies in [0,b) and is congruent to its argument, floor- and ceiling-division and snapping round toward the stated direction for negative as well as positive arguments, clamping returns the nearest value of the range, linear mixing is affine in its parameter, and the quadratic solver reports exactly the real roots (and failure exactly when there are none). Integer versions do this without overflow for arguments of moderate size.',
  ['inputs'],'all real arguments; integers up to 2^30 in magnitude with positive divisor',
  'Sign and boundary cases (negative operands, zero leading coefficient, zero discriminant) are not sampled by tests.',
  [F+'Utils.h',F+'functiondetail/UtilDetail.h'],
  [('positive_mod, floor_div, ceil_div, snap, clamp, mix, quadratic_solve',F+'Utils.h')],['return values'])
p('P04','Interpolation reproduces its samples and its polynomial order',
  'Multi-dimensional linear interpolation returns the sample itself at each corner of the cell and is affine along each axis, with the first axis varying fastest in the sample buffer. Cubic interpolation returns the two middle samples at parameters 0 and 1, has the central-difference slope there, reproduces every quadratic sequence, and separates over the axes with the same ordering.',
  ['inputs'],'all real sample values and parameters, dimensions 1 to 3',
  'No test covers interpolation; ordering errors are invisible on symmetric samples.',
  [F+'Utils.h'],[('interp_linear, interp_cubic',F+'Utils.h')],['return values'])
p('P05','Dual numbers carry exact derivatives',
  'For every arithmetic operator (including mixed dual/scalar and compound-assignment forms), fused product helpers and elementary functions of dual numbers, the primal part is the function of the primal parts and the dual part is the exact chain-rule derivative, at every point where the function is differentiable. At kinks of absolute value, minimum and maximum the dual part is the one-sided derivative selected by the discontinuity policy.',
  ['inputs'],'all real primal and dual components inside each function\'s domain',
  'Derivative formulas are only exercised through a few composite tests; sign or factor errors in a rarely-used function go unnoticed.',
  [F+'functiondetail/DualImpl.h',F+'functiondetail/DualFunctions.h',F+'functiondetail/UtilDetail.h'],
  [('operators and std:: overloads',F+'functiondetail/DualFunctions.h')],['x and dx of results'])
p('P06','Matrix products are the sum of row-column products',
  'Every product of a matrix with a matrix or a vector equals the mathematical product of the represented matrices, for all combinations of dense (row- or column-major, fixed or dynamic size), diagonal and permutation operands, including products written over one of their operands. Products of mismatched dynamic sizes are rejected with an exception and leave the operands unchanged.',
  ['inputs','configurations'],'all real entries, all representation combinations, static shapes up to 4 and dynamic shapes',
  'Tests sample a few shapes with random entries and do not cover aliasing, diagonal or permutation combinations.',
  [L+'Matrix.h',L+'mtxdetail/MatrixMult.h',L+'mtxdetail/MatrixGlue.h'],
  [('mul and _ImplMtxMul specialisations',L+'mtxdetail/MatrixMult.h'),('alias handling',L+'Matrix.h')],['entries of the destination'])
p('P07','Matrix element operations respect the represented matrix',
  'Addition, subtraction, scaling, transposition, comparison, copying and conversion between matrices produce at every (row, column) the entry the mathematical operation defines, independent of storage order, of fixed or dynamic size and of diagonal or permutation representation, including in-place use. Writing one element changes that element and no other, and writing a row, column or region iterator visits exactly the addressed elements in order.',
  ['inputs','configurations'],'all real entries, all storage orders, static and dynamic shapes',
  'Tests cover a few random matrices; layout confusion between row- and column-major is invisible on square symmetric or same-layout data.',
  [L+'Matrix.h',L+'mtxtypes/SimpleMatrix.h',L+'mtxtypes/DiagMatrix.h',L+'mtxdetail/MatrixArithmetic.h',L+'mtxdetail/MatrixCopy.h',L+'mtxdetail/MatrixFunctionImpl.h',L+'mtxdetail/MatrixLayout.h',L+'mtxdetail/MatrixIterator.h'],
  [('element access and layout',L+'mtxdetail/MatrixLayout.h'),('arithmetic dispatch',L+'mtxdetail/MatrixArithmetic.h'),('copy dispatch',L+'mtxdetail/MatrixCopy.h')],['matrix entries'])
p('P08','Matrix inversion is exact and fails exactly on singular input',
  'Inverting a square matrix reports success exactly when its determinant is non-zero, and then the product of the matrix and the result, in both orders, is the identity. On failure the destination is left unchanged, and inverting a matrix into itself gives the same answer as inverting into a separate one.',
  ['inputs'],'all real entries, sizes 2, 3, 4 (closed form) and 5 (elimination), all layouts, diagonal and permutation matrices',
  'Tests check random (hence non-singular) matrices to a tolerance; singular and pivot-requiring inputs have measure zero.',
  [L+'mtxdetail/MatrixInv.h',L+'Matrix.h',L+'LUDecomp.h'],[('inv and _ImplMtxInv',L+'mtxdetail/MatrixInv.h')],['return flag and destination entries'])
p('P09','Determinants are the alternating sum of products',
  'The determinant of a square matrix equals the Leibniz sum over permutations of products of entries, for every size and storage order, for diagonal matrices the product of the diagonal, and for permutation matrices the parity of the permutation.',
  ['inputs'],'all real entries, sizes 2 to 5, all storage orders, all permutations of up to 4 elements',
  'Random tests cannot distinguish formulas that agree generically but fail when pivoting is needed or entries vanish.',
  [L+'mtxdetail/MatrixDet.h',L+'mtxtypes/PermutationMatrix.h'],[('det2x2..detNxN',L+'mtxdetail/MatrixDet.h')],['return values'])
p('P10','LU decomposition and linear solving are exact',
  'For any matrix the row-pivoted LU decomposition (and the column-pivoted one, when it reports no degenerate column) yields a genuine permutation of the reported parity and a unit lower and an upper triangular factor whose product is the permuted matrix. Solving a linear system returns success exactly when the matrix is invertible, with a solution that satisfies the system. Multiple right-hand sides are all solved by one call.',
  ['inputs'],'all real entries, sizes 2 to 4 (2 and 3 for singular classification)',
  'Tests use random matrices, which never need exact-zero pivots or hit singular matrices.',
  [L+'LUDecomp.h',L+'Orthogonal.h'],[('decomp_plu, decomp_lup, backsolve_plu, backsolve_lu, linear_solve',L+'LUDecomp.h')],['factors, permutation, solutions and return flags'])
p('P11','Cholesky factorises exactly the positive definite matrices',
  'Cholesky decomposition of a symmetric matrix succeeds exactly when the matrix is positive definite, and then yields a lower triangular factor with positive diagonal whose product with its own transpose is the original matrix, with the upper part zeroed.',
  ['inputs'],'all real symmetric matrices of sizes 1 to 4',
  'Tests sample random positive definite matrices only.',
  [L+'Cholesky.h'],[('cholesky',L+'Cholesky.h')],['factor entries and return flag'])
p('P12','Orthogonal complements are orthogonal and complete',
  'The vector orthogonal to n-1 vectors is perpendicular to all of them and is non-zero exactly when they are linearly independent; a null-space basis is perpendicular to every given vector; orthogonalisation yields mutually perpendicular vectors spanning the same space, and orthonormalisation makes them unit length.',
  ['inputs'],'all real vectors, dimensions 2 to 4',
  'Tests use random vectors, which are never dependent or axis-degenerate.',
  [L+'Orthogonal.h'],[('orthogonal, nullspace, orthogonalize, orthonormalize',L+'Orthogonal.h')],['returned vectors'])
p('P13','Affine transforms stay exactly invertible and compose',
  'Every affine transform built by the library\'s constructors and composition operators holds a mutually inverse pair of matrices with affine last row, so applying it and then its inverse returns every point, vector, normal and ray unchanged. Composition (also of a transform with itself) applies its operands in the documented order, enlarging a transform keeps the pair, vectors ignore translation, and normals stay perpendicular to transformed tangents.',
  ['inputs','histories'],'all real parameters and all compositions of transforms satisfying the invariant, dimensions 2 and 3',
  'Tests check a few composed transforms numerically; the invariant must survive any sequence of compositions.',
  [L+'AffineTransform.h'],[('AffineTransform members and builders',L+'AffineTransform.h')],['results of applying transforms'],
  [dict(name='mat, inv',meaning='forward and inverse matrices',where=L+'AffineTransform.h')])
p('P14','Transform builders produce the geometry they name',
  'Translation adds its offset, scaling multiplies each coordinate by its factor, rotation about an axis and centre fixes that axis, preserves distances and turns by the stated angle, direction-aligning rotations carry the given direction onto the target (opposite directions included), and basis transforms carry the standard basis to the columns of the given matrix.',
  ['inputs'],'all real parameters with non-zero axes and invertible scales, dimensions 2 and 3',
  'Axis, order and sign mistakes survive tests that only use a few special parameters.',
  [L+'AffineTransform.h'],[('translation, scale, rotation, direction_align, transformation',L+'AffineTransform.h')],['transformed points'])
p('P15','Quaternions represent rotations faithfully',
  'Quaternion multiplication is the Hamilton product, the norm is multiplicative, conjugation and inversion satisfy their identities, rotating a vector by a unit quaternion preserves its length and equals the rotation by the axis and angle the quaternion was built from, and composing rotations equals multiplying quaternions. Recovered axis and angle describe the same rotation, direction-aligning quaternions carry the direction onto the target, spherical interpolation follows the great-circle arc between its end points, and exponential, logarithm and power act on the angle and norm.',
  ['inputs'],'all real components, all non-zero axes and angles','No test covers the product sign table for every component.',
  [L+'Quaternion.h'],[('Quat operators',L+'Quaternion.h')],['components and rotated vectors'])
p('P16','Boxes behave as sets of points',
  'Union of axis-aligned boxes is the smallest box containing both, intersection contains exactly the common points, containment and overlap tests agree with the point sets (including empty boxes and integer coordinates), clipping returns the nearest contained point, Minkowski sum, offset and scaling act on the set, and mapping to and from unit coordinates are inverse.',
  ['inputs'],'all real and integer corner coordinates, including empty boxes, dimensions 1, 2 and 3',
  'Tests validate sampled points; emptiness and touching edges have measure zero.',
  [S+'Rect.h'],[('Rect members',S+'Rect.h')],['Rect results'])
p('P17','Ray hits are exactly the points of the shape on the ray',
  'For spheres, boxes, planes, cylinders and other ray-intersectable shapes, the reported parameter interval is empty exactly when the ray\'s line misses the shape, and otherwise a point of the line lies in the shape exactly when its parameter lies in the interval.',
  ['inputs'],'all real origins, non-zero directions (including axis-parallel) and shape parameters',
  'Tests sample random rays; tangent, axis-parallel and inside-origin rays have measure zero.',
  [S+'Sphere.h',S+'Rect.h',S+'Plane.h',S+'Cylinder.h',S+'Capsule.h',S+'Extruded.h',S+'Simplex.h',S+'Oriented.h'],
  [('intersect(Ray)','geomc/shape/*.h')],['returned Rect<T,1>'])
p('P18','Signed distance, containment and clipping agree',
  'For every shape the point-containment test is true exactly for points whose signed distance is not positive, the signed distance magnitude is the distance to the returned projection, the projection lies on the surface, and clipping returns the point itself inside and the projection outside.',
  ['inputs'],'all real points and shape parameters satisfying the documented preconditions',
  'Random tests sample only generic points; ties, centres, edges and faces have measure zero.',
  [S+'Shape.h',S+'Sphere.h',S+'Rect.h',S+'Plane.h',S+'Cylinder.h',S+'Capsule.h',S+'Dilated.h',S+'Extruded.h',S+'Oriented.h',S+'Frustum.h'],
  [('sdf, project, clip, contains','geomc/shape/*.h')],['return values'])
p('P19','Support points are members that maximise the direction',
  'For every convex shape and direction, the support point belongs to the shape and no point of the shape has a larger dot product with the direction.',
  ['inputs'],'all real directions (including axis-aligned and zero components), shape parameters and member points',
  'Tests sample random directions; ties and zero components have measure zero.',
  [S+'Sphere.h',S+'Rect.h',S+'Cylinder.h',S+'Capsule.h',S+'Dilated.h',S+'Extruded.h',S+'Oriented.h',S+'Frustum.h',S+'Simplex.h'],
  [('convex_support','geomc/shape/*.h')],['return values'])
p('P20','Bounding boxes contain their shapes tightly',
  'For every bounded shape, each contained point lies in the reported bounding box, and each face of that box touches the shape.',
  ['inputs'],'all real shape parameters and member points','Random tests rarely reach extremes.',
  [S+'Sphere.h',S+'Cylinder.h',S+'Capsule.h',S+'Dilated.h',S+'Extruded.h',S+'Oriented.h',S+'Frustum.h',S+'Simplex.h'],
  [('bounds','geomc/shape/*.h')],['bounds()'])
p('P21','Planes divide space by signed distance',
  'The signed distance to a plane is affine, vanishes exactly on the plane and increases along the normal at unit rate; constructing a plane from points puts them on it; projections land on the plane along the normal; mirror-image and transformed planes contain exactly the transformed points.',
  ['inputs'],'all real points, unit normals and offsets, invertible transforms','No test covers planes.',
  [S+'Plane.h'],[('Plane members',S+'Plane.h')],['return values'])
p('P22','Simplex queries match the convex hull of the vertices',
  'A full simplex contains a point exactly when its barycentric coordinates are non-negative, measure is invariant and equals the Gram determinant volume, projection onto a simplex returns the nearest point of its hull, and inserting, excluding and transforming vertices affects exactly those vertices.',
  ['inputs'],'all real vertices and points, dimensions 2 and 3','Random vertices never produce degenerate positions.',
  [S+'Simplex.h',S+'shapedetail/SimplexProject.h'],[('contains, project, measure',S+'Simplex.h')],['return values'])
p('P23','Permutation matrices compose, invert and keep parity',
  'Row and column source and destination maps are mutually inverse after every operation, products and transposes agree with the represented matrices, row and column swaps exchange exactly two lines and flip the sign, applying a permutation to an array moves each element to its destination, and the sign is the parity.',
  ['inputs','histories'],'all permutations of up to 4 elements and all operation results','Tests check a few random permutations and never the sign.',
  [L+'mtxtypes/PermutationMatrix.h',L+'LUDecomp.h'],[('PermutationMatrix',L+'mtxtypes/PermutationMatrix.h')],['maps and entries'])
p('P24','Small-buffer arrays behave as sequences and own each element once',
  'Every operation on a small-buffer array (construction, copy, move, assignment, insertion, removal, resizing, growth past the inline capacity) has the effect of the same operation on a mathematical sequence, stays within its allocated storage, and constructs and destroys every element exactly once, releasing heap storage exactly once.',
  ['histories','inputs'],'all reachable states (any size, inline or heap, any capacity) and all arguments; hence all histories by induction',
  'Tests run a few scripted histories without checking object lifetimes.',
  ['geomc/SmallStorage.h'],[('SmallStorage',"geomc/SmallStorage.h")],['contents, size, element lifetimes'],
  [dict(name='_data,_size,_capacity,_buf',meaning='inline or heap storage',where='geomc/SmallStorage.h')])
p('P25','The circular buffer is a double-ended queue',
  'Pushing, popping, indexing, growing, copying and moving a circular buffer have the effect of the same operation on a double-ended sequence, whatever the position of the head and wherever the contents wrap, without touching memory outside the buffer or freeing inline storage.',
  ['histories','inputs'],'all reachable states and arguments; hence all histories by induction',
  'Tests run scripted sequences; wrap positions and inline/heap transitions multiply.',
  ['geomc/Deque.h'],[('CircularBuffer',"geomc/Deque.h")],['contents and size'],
  [dict(name='_head,_size,_capacity,_data',meaning='ring state',where='geomc/Deque.h')])
p('P26','Owned storage copies deeply, frees once and never aliases',
  'Array storage with unique ownership copies its elements into separate memory, transfers them on move leaving a safely destructible source, swaps contents exactly and releases each allocation once, for fixed and dynamic sizes.',
  ['histories','inputs'],'all sizes and element values','Ownership errors are invisible without memory checking.',
  ['geomc/Storage.h'],[('UniqueStorage, Storage',"geomc/Storage.h")],['contents and frees'])
p('P27','Grid iteration visits every cell exactly once, in order',
  'The grid iterator\'s index and point are in bijection with the cells of the region for both axis orders, increment, decrement and random advance agree, and the end position is one past the last cell. Matrix row, column and region iterators visit their addressed elements in the same bijective order.',
  ['inputs'],'all integer regions and positions','Tests use one or two small regions anchored at the origin.',
  [S+'GridIterator.h',L+'mtxdetail/MatrixIterator.h'],[('GridIterator',S+'GridIterator.h')],['visited points'])
p('P28','Hashing is a function of the value',
  'Objects that compare equal have equal hashes (including vectors and matrices differing only in the sign of zero), hash values combine deterministically in order, and byte hashing equals the published SipHash-2-4 for every key and message.',
  ['inputs'],'all values of the supported types; all messages','Equality/hash consistency cannot be sampled.',
  ['geomc/Hash.h',F+'functiondetail/SipHash.cpp'],[('hash, hash_combine, siphash','geomc/Hash.h')],['hash values'])
p('P29','Random draws stay in range for every generator state',
  'Bounded integer draws lie in their half-open range and are the residue of the first complete block drawn (so unbiased), coin flips use every bit of a draw once, unit real draws lie in [0,1] with exponent and mantissa drawn bit by bit, scaled real draws lie in their interval, shuffling gives every permutation from exactly one sequence of draws, seeding determines the whole subsequent sequence (including buffered bits), the generators compute their published recurrences, and points sampled from balls, shells, boxes, arcs, disks and caps lie in their region with the radial law of a uniform distribution.',
  ['inputs','histories'],'all generator states and bounds','Rejection paths are hit with negligible probability.',
  ['geomc/random/Random.cpp','geomc/random/LCRand.h','geomc/random/MTRand.cpp','geomc/random/Xorshiro.h','geomc/random/RandomTools.h'],
  [('Random::rand','geomc/random/Random.cpp')],['drawn values'])
p('P30','Box-box overlap by separating axes is exact',
  'The overlap test between an oriented box and an axis-aligned box (or another oriented box) is true exactly when the two boxes share a point.',
  ['inputs'],'all real boxes and invertible transforms, dimensions 2 and 3','Random tests compare two implementations at generic positions.',
  [S+'Oriented.h',S+'shapedetail/SeparatingAxis.h'],[('RectIntersector',S+'shapedetail/SeparatingAxis.h')],['boolean result'])
p('P31','Raster sampling honours its edge rule and grid order',
  'Discrete sampling of a raster returns the stored sample at in-range grid points and, out of range, the sample the edge rule selects (clamped, wrapped, mirrored or constant), always reading inside the stored data. Setting a sample changes that sample only. Copying a region yields the same values as sampling each of its points. Sampling between grid points interpolates the surrounding samples (nearest, linear or cubic), at negative and out-of-range positions too, the rule chosen at run time agrees with the one chosen at compile time, and the edges of the domain fall on the first and last samples.',
  ['inputs'],'all grid coordinates, edge rules, interpolations and sample values','No test covers rasters.',
  [F+'Raster.h',F+'functiondetail/RasterDetail.h'],[('index, sample_discrete',F+'Raster.h')],['sampled values'])
p('P32','Perlin gradients are the derivative of the noise',
  'The gradient evaluation of Perlin noise returns the same value as plain evaluation and its vector is the exact derivative inside a cell, the noise vanishes at lattice points and is continuous, with its gradient, across cell faces. Each lattice point always uses the same entry of a table of unit gradients.',
  ['inputs'],'all real points and gradient tables, dimensions 1 to 3','The test compares numerical differences at random points.',
  [F+'PerlinNoise.h'],[('eval, gradient',F+'PerlinNoise.h')],['returned value and gradient'])
p('P33','Orthogonal polynomial evaluators satisfy their recurrences',
  'The Legendre, associated Legendre, Legendre integral and Chebyshev evaluators return, for every degree, order and argument, the standard polynomial (or function) of that degree and order; the batch evaluation for spherical harmonics agrees with the single one.',
  ['inputs'],'all degrees (by loop invariant) and all real arguments','Tests do not cover basis functions.',
  [F+'Basis.h'],[('legendre, chebyshev',F+'Basis.h')],['return values'])
p('P34','Convex intersection by support functions (GJK) is exact',
  'The general convex overlap test terminates and reports an overlap exactly when the two convex shapes share a point, for every pair of shapes.',
  ['inputs'],'all pairs of convex shapes','Random tests cannot bound iteration or degenerate simplices.',
  [S+'Intersect.h',S+'shapedetail/SimplexProject.h'],[('Intersector',S+'Intersect.h')],['boolean result'])
p('P35','Spatial tree queries return every match',
  'Searching a spatial tree for nearest or containing objects returns the same objects as an exhaustive scan.',
  ['histories','inputs'],'all object sets, tree shapes and queries','Tests for these trees do not compile at the pinned commit.',
  [S+'KDTree.h','geomc/Tree.h'],[('KDTree, Tree','geomc/Tree.h')],['query results'])
p('P36','Dynamic trees keep their structure and the order of their items',
  'After any sequence of inserting and erasing child nodes and items, flattening, clearing, splitting, copying and moving, a dynamic tree holds exactly the nodes and items put there: every node keeps its data, its children in order with the right parent, its child and item counts, and an item range that runs through exactly the items below it in depth-first order; nodes are kept with siblings contiguous, handles to other nodes stay valid, adding the first child of a leaf hands its items to that child, splitting a leaf moves exactly the items below the pivot into the new sibling, and finding the parent of an item returns the leaf that holds it.',
  ['histories','inputs'],'all editing histories and contents','The tree test is not built at the pinned commit, and the mistakes need particular shapes and empty leaves.',
  ['geomc/Tree.h'],[('insert_child_node(s), insert_item(s), split, erase, clear, flatten','geomc/Tree.h'),('update_boundary_items, node_successor','geomc/Tree.h')],['counts, ranges, children and items seen through Subtree'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
