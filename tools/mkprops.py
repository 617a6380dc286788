#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
L='lib/nikfemm/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[L+f if not f.startswith('python') and not f.startswith('lib') else f for f in files],
        mechanism=[dict(name=n,where=(L+w if not w.startswith('python') else w)) for n,w in mech],
        state=[dict(name=a,meaning=b,where=L+c) for a,b,c in (state or [])],
        observe_at=observe,hook_needed=None)))

p('C01','Sparse symmetric storage is faithful for every sparsity pattern',
 'A symmetric matrix built entry by entry and then compressed returns, at (i,j) and at (j,i), exactly the value last stored or accumulated there, and zero for every entry never written, diagonal entries included. Compressing, copying, converting between the symmetric, lower and upper views, and saving to a file neither change a value nor the source. Writing below the diagonal is refused with an error.',
 ['inputs','histories'],'every matrix size, every set of written positions (missing diagonals, empty rows, explicit zeros, dense rows) and every order of writes and accumulations',
 'The unit tests compress a handful of full-diagonal matrices; missing diagonals, empty rows, and write/accumulate histories are never exercised.',
 ['algebra/coo.hpp','algebra/csr.hpp','algebra/csr.cpp'],
 [('coordinate map keyed by row<<32|col, upper triangle only','algebra/coo.hpp'),('sort by key, split diagonal, prefix-sum row starts','algebra/csr.cpp')],
 ['element access of the compressed matrix','the written file','the exception on a lower-triangle write'],
 [('elems','coordinate -> value','algebra/coo.hpp'),('row_ptr/col_ind/val/diag','compressed form','algebra/csr.hpp')])
p('C02','Matrix-vector products and vector kernels compute the algebraic result',
 'Multiplying a vector by a symmetric, lower-triangular or upper-triangular compressed matrix gives the product with the matrix that view denotes, and every vector kernel (scale, elementwise product/quotient, sum, difference, scaled sum, copy, dot, norm, NaN test) gives its defining result in every component; the NaN test of a matrix finds a NaN wherever it is stored, and nothing else. Operands are unchanged, and the elementwise kernels give the same result when the output is one of the operands.',
 ['inputs'],'all sizes (0, 1, odd, large), all sparsity patterns, all real values, output aliased to an operand or not',
 'Unit tests use one matrix and a few fixed vectors; lengths, patterns, signs and aliasing are not varied.',
 ['algebra/math.cpp','algebra/math.hpp'],
 [('two-sided accumulation of each stored upper entry','algebra/math.cpp'),('lower/upper views of the same storage','algebra/csr.hpp')],
 ['output vectors and scalars of the algebra functions'])
p('C03','Fixing node values leaves exactly the constrained problem',
 'After prescribing values on any set of distinct nodes in any order, the system is still symmetric, each prescribed row is the identity row with the prescribed value as right-hand side, no prescribed node is coupled to another node, and every other equation is the original one with the prescribed values substituted. The order of prescribing does not matter, and re-prescribing the same value changes nothing.',
 ['inputs','histories'],'every symmetric system (plain numbers and material-dependent entries), every set of nodes including all nodes and isolated ones, every order and repetition',
 'Unit tests fix a few nodes of fixed small systems in one order.',
 ['algebra/system.hpp','algebra/non_linear.hpp'],
 [('eliminate the row and column in the upper-triangle map, move coupling to the right-hand side','algebra/system.hpp')],
 ['the system matrix and right-hand side after each prescription'],
 [('A','coordinate system matrix','algebra/system.hpp'),('b','right-hand side','algebra/system.hpp')])
p('C04','Iterative solvers return a solution within the requested tolerance',
 'For every symmetric positive definite system and every starting vector, each of the four iterative solvers (plain, Jacobi, SSOR and, for diagonally dominant systems, incomplete Cholesky), given enough iterations, returns a finite vector whose residual norm is within the requested tolerance, including when the starting vector is already the solution or the right-hand side is zero. Matrix and right-hand side are not modified.',
 ['inputs'],'all SPD matrices of moderate conditioning, any sparsity and scale, any right-hand side and start, any tolerance above round-off, any relaxation factor in (0,2)',
 'Unit tests solve the same small system from a zero start.',
 ['algebra/solvers.cpp','algebra/solvers.hpp'],
 [('conjugate gradient recursions and stopping test','algebra/solvers.cpp'),('SSOR and incomplete-Cholesky application','algebra/solvers.cpp')],
 ['returned vector, matrix and right-hand side after the call'])
p('C05','Material-dependent systems re-evaluate exactly from current permeabilities',
 'Evaluating a material-dependent expression gives its constant plus the sum of each coefficient divided by the current permeability of its element, whatever additions, subtractions, scalings and assignments built it. Evaluating a material-dependent matrix gives at every position that expression value, with zero where nothing was ever stored, and depends only on the permeabilities last supplied, not on earlier evaluations.',
 ['inputs','histories'],'all expression-building histories, all sparsity patterns, all positive permeability vectors, any number of re-evaluations',
 'No test touches the expression algebra or a second evaluation with different permeabilities.',
 ['algebra/non_linear.hpp','algebra/non_linear.cpp'],
 [('constant + list of (coefficient, element) terms','algebra/non_linear.hpp'),('per-entry expression evaluation','algebra/non_linear.cpp')],
 ['evaluated diagonal and off-diagonal values; evaluated right-hand side'])
p('C06','Permeability from a magnetisation curve is the slope of the active segment',
 'For a linear material the permeability is the given constant at every field. For a curve with at least two points it is the slope dB/dH of the curve segment whose field interval contains the field, the first segment below the curve and the last segment above it, whatever order the points were given in; a one-point curve is refused. Two materials compare equal exactly when all of current density, magnetisation, permeability and curve are equal, and two conductors exactly when their conductivities are.',
 ['inputs'],'all increasing curves, all field values including on the knots and beyond both ends',
 'No test evaluates a curve.',
 ['magnetostatic/properties.cpp','magnetostatic/properties.hpp'],
 [('ordered set of curve points, interval lookup, difference quotient','magnetostatic/properties.cpp')],
 ['returned permeability; exception for one-point curves'])
p('C07','A drawing holds exactly the shapes that were drawn',
 'After any sequence of rectangles, circles, polygons, points and regions, every drawn shape is kept as drawn, every side of it is present exactly once as a segment between its two corner points, coincident corners share a single point, no segment or point beyond those appears, and earlier shapes are unaffected. Isolated points drawn on an existing point add nothing, and translating moves every point, shape and region marker by the same vector.',
 ['histories','inputs'],'all sequences of drawing operations, any coordinates, shared corners and shared sides, either orientation, points closer than the merge distance',
 'No test builds a drawing and inspects it.',
 ['drawing/drawing.hpp','geometry/polygon.cpp'],
 [('corner merging and segment de-duplication','drawing/drawing.hpp'),('shape list','drawing/drawing.hpp')],
 ['points, segments, shapes and regions of the drawing after every operation'],
 [('points','corner points','drawing/drawing.hpp'),('segments','pairs of point ids','drawing/drawing.hpp'),('polygons','drawn shapes','drawing/drawing.hpp')])
p('C08','Crossing outlines are refused, compatible outlines are accepted',
 'Drawing a shape whose side crosses, touches in its interior, or overlaps a side already drawn without sharing an end point is refused with an error, in whichever order the two are drawn. A shape whose sides meet earlier sides only at shared corners, or coincide with earlier sides, is always accepted.',
 ['inputs','histories'],'all pairs and sequences of shapes in general and degenerate position: crossing, T-contact, collinear overlap, shared corner, shared side, nested, disjoint',
 'No test draws two interacting shapes.',
 ['drawing/drawing.hpp','geometry/segment.cpp'],
 [('bounding-box prefilter and intersection test before a segment is added','drawing/drawing.hpp'),('segment intersection predicate','geometry/segment.cpp')],
 ['exception or success of each drawing call'])
p('C09','Region markers map to materials one to one',
 'Drawing a region records its position and gives equal materials the same identifier and different materials different identifiers, identifiers are stable as more regions are added, and each identifier maps back to the material it was created for; an unknown identifier is refused. Asking for the material of a drawn shape returns the material of the region marker that lies in that shape and in no shape nested inside it, and is refused when the shape is unknown or has no marker.',
 ['histories','inputs'],'all sequences of region markers and materials, all nestings of shapes and marker positions',
 'No test inspects region identifiers or shape materials.',
 ['drawing/drawing.hpp','current_density/properties.cpp','magnetostatic/properties.cpp'],
 [('linear search by material equality','drawing/drawing.hpp'),('innermost-marker search','drawing/drawing.hpp')],
 ['region list, identifier lookups, shape-material lookups'])
p('C10','Containment and distance predicates agree with exact geometry',
 'A polygon contains a point exactly when the point is inside or on the outline, for convex and non-convex outlines in either orientation; with a boundary width, points within that distance of the outline count as in or out as requested. A polygon contains another polygon exactly when every point of it lies inside or on the outline; the distance from a point to a segment, segment intersection, the box of a segment, signed area, angle and rotation agree with their exact values; two segments are equal exactly when they join the same two points, in either direction.',
 ['inputs'],'all simple polygons and all query points, including points on edges, on vertices and level with vertices; all segments including axis-parallel and collinear ones',
 'No test calls the geometric predicates.',
 ['geometry/polygon.cpp','geometry/segment.cpp','geometry/vector.hpp','geometry/common.hpp'],
 [('ray-crossing test with vertex rules','geometry/polygon.cpp'),('projection-clamped distance','geometry/segment.cpp'),('signed-area intersection test','geometry/segment.cpp')],
 ['return values of the predicates'])
p('C11','Enclosing circles enclose',
 'The enclosing circle of a point set contains every point, its centre is the mean of the points and its radius does not exceed the distance to the farthest point beyond rounding. The minimum enclosing circle also contains every point and no smaller circle does, for any number of points including three or fewer. Both move with the points under translation. A circle through two or three given points passes through them, and a circle contains exactly the points within its radius.',
 ['inputs'],'all finite point sets: any position relative to the origin, collinear, repeated and single points',
 'No test computes a circle.',
 ['geometry/circle.cpp','geometry/circle.hpp'],
 [('mean centre and farthest distance','geometry/circle.cpp'),('randomised incremental minimum circle','geometry/circle.cpp')],
 ['returned centre and radius'])
p('C12','Automatic refinement only adds safe points',
 'Adding refining points to a drawing leaves all points, segments, shapes and regions as they were and only appends points; every appended point lies inside a drawn shape, off every segment, close to a corner whose sides meet at less than 120 degrees, and never on top of another point. Every such corner gets some wherever there is room for them inside a shape between two neighbouring sides, also when it is the generation of a system that refines. Refining around magnets likewise only appends points: they lie inside shapes that hold the marker of a magnetised material, next to a side of it, clear of every side, and along every side of a magnet, no closer together than the spacing taken from the clearance of the drawing, so that their number stays in proportion to the length of the sides.',
 ['inputs','histories'],'all accepted drawings, including narrow and obtuse corners, corners shared by several shapes, and repeated refinement',
 'No test refines a drawing.',
 ['drawing/drawing.hpp','magnetostatic/mesh.cpp'],
 [('points along the sides of magnets','magnetostatic/mesh.cpp'),('clearance from the closest point-segment pair, ring of 18 candidates, two filters','drawing/drawing.hpp')],
 ['drawing before and after refinement'])
p('C13','The mesh is a conforming triangulation of the drawn domain',
 'Meshing a drawing yields positively oriented triangles that cover the drawn domain exactly once, meet only along whole common edges, use every vertex, keep every drawn point as a vertex and every drawn segment as a chain of edges, and respect the requested maximum area and, where the drawing has no corners sharper than 60 degrees, the requested minimum angle (but for triangles that cut a corner of the drawing).',
 ['inputs','configurations'],'all accepted drawings (nested, adjacent, disjoint, non-convex shapes, isolated points), all area and angle settings, refined or not',
 'The example run only checks that meshing does not crash.',
 ['mesh/mesh.hpp','triangle/triangle.cpp'],
 [('conversion of the drawing to the mesher input and switches','mesh/mesh.hpp'),('constrained Delaunay refinement','triangle/triangle.cpp')],
 ['vertices, triangles and boundary markers of the mesh'],
 [('pointlist/trianglelist','mesh','mesh/mesh.hpp')])
p('C14','Every triangle carries the material of its region',
 'Each triangle of the mesh is labelled with the material of the region marker that lies in the same area bounded by drawn segments, and all triangles of such an area carry the same material. A drawing without region markers has no materials to give: meshing it is refused with an exception.',
 ['inputs','configurations'],'all drawings in which each area holds one marker, any number of materials, several markers of one material, nested and adjacent shapes',
 'No test reads triangle materials.',
 ['mesh/mesh.hpp','drawing/drawing.hpp'],
 [('region list with material identifier passed to the mesher','mesh/mesh.hpp')],
 ['triangle material identifiers and lookups'])
p('C15','Gradient and curl of a linear field are exact on every triangle',
 'For nodal values sampled from any linear function the per-triangle gradient equals that function\'s gradient and the per-triangle curl equals (df/dy, -df/dx), on every triangle whatever its shape or vertex order; both are linear in the nodal values.',
 ['inputs'],'all meshes and all nodal vectors',
 'No test evaluates a derivative.',
 ['mesh/mesh.hpp'],
 [('plane through three nodal values','mesh/mesh.hpp')],
 ['per-triangle vectors'])
p('C16','Area, mass, barycentre and inertia of a shape are those of the drawn shape',
 'For a point in a drawn shape with no other shape inside it, area, mass and barycentre equal those of the exact polygon and the moment of inertia about any centre converges to that of the polygon from below, at least within the centroid-rule error of the mesh, all expressed in the coordinates the user drew in. Area and mass do not depend on where the shape lies, and mass scales with depth and density.',
 ['inputs','configurations'],'all simple shapes convex or not, in either simulation kind, away from or at the origin, with other shapes present, any mesh size',
 'No test computes a geometric integral.',
 ['mesh/mesh.hpp'],
 [('innermost-shape selection','mesh/mesh.hpp'),('sum over triangles inside the shape','mesh/mesh.hpp')],
 ['returned area, mass, barycentre, inertia'])
p('C17','Conduction system equals the finite-element Laplacian of the mesh',
 'The assembled conduction matrix equals, entry by entry, the sum over triangles of depth times conductivity times the integral of the product of hat-function gradients, for vertices of any degree, with a zero right-hand side; its rows sum to zero. The cotangent-weight variant gives, at interior vertices, the unit-conductivity Laplacian with opposite sign.',
 ['inputs','configurations'],'all meshes including high-degree vertices, all materials, depths and orientations',
 'No test assembles a conduction matrix.',
 ['current_density/mesh.cpp'],
 [('vertex-to-triangle adjacency, per-triangle weights, upper-triangle accumulation','current_density/mesh.cpp')],
 ['system matrix and right-hand side'])
p('C18','Conduction solutions obey the physics of the prescribed problem',
 'With at least one prescribed voltage per connected conductor, the solved voltages equal the prescribed values at the prescribed nodes, satisfy current balance at every other node within solver tolerance, stay between the smallest and largest prescribed voltage when the mesh has no obtuse angles, scale and add with the prescribed voltages, and are unchanged when all conductivities and depth are scaled together.',
 ['inputs','configurations'],'all conduction problems: shapes, materials, electrode positions and voltages, single and multi layer',
 'No test solves a conduction problem.',
 ['current_density/simulation.cpp','current_density/multilayer_simulation.cpp','algebra/solvers.cpp'],
 [('compress, SSOR conjugate gradient with fixed tolerance','current_density/simulation.cpp')],
 ['solved voltages'])
p('C19','A prescribed voltage goes to the nearest node of the chosen layer',
 'Prescribing a voltage at a position fixes exactly one node: the mesh node of the requested layer nearest to that position, to that voltage, in the numbering of the whole system. All other layers and nodes are untouched.',
 ['inputs','configurations'],'all positions inside or outside the conductor, all layers and layer sizes',
 'No test prescribes a voltage on a mesh.',
 ['current_density/simulation.cpp','current_density/multilayer_simulation.cpp'],
 [('nearest-node search','current_density/simulation.cpp'),('layer offset into the merged numbering','current_density/multilayer_simulation.cpp')],
 ['system before and after the call'])
p('C20','Layers are coupled exactly by the interconnection resistances',
 'The multi-layer system is the block-diagonal union of the layers\' own systems, in layer order, plus for every interconnection a conductance 1/R between the two nodes at its end points: added to both diagonals and subtracted from the coupling, accumulating when several interconnections join the same nodes. End points inside a layer or at its corners become mesh nodes, and the interconnection list is unchanged.',
 ['inputs','configurations','histories'],'any number of layers and interconnections: chained through a common point, parallel, within one layer, at drawn corners, any resistances and depths',
 'No test builds a multi-layer system.',
 ['current_density/multilayer_simulation.cpp'],
 [('block merge with layer offsets','current_density/multilayer_simulation.cpp'),('resistor stamping','current_density/multilayer_simulation.cpp')],
 ['merged system, per-layer systems, layer drawings and meshes'])
p('C21','Power density is conductivity times squared field, and energy balances',
 'For any voltages, the power density of every triangle of every layer, in layer order, equals its conductivity times the square of the voltage gradient on it. Summed with triangle area and depth, plus the loss in the interconnections, it equals the power delivered at the prescribed nodes.',
 ['inputs','configurations'],'all multi-layer problems and all voltage vectors',
 'No test computes power density.',
 ['current_density/multilayer_simulation.cpp','mesh/mesh.hpp'],
 [('per-layer slices, gradient, conductivity lookup','current_density/multilayer_simulation.cpp')],
 ['returned power densities'])
p('C22','Magnetostatic system equals the finite-element form of the mesh',
 'The magnetostatic matrix equals, entry by entry and for every assignment of permeabilities, the sum over triangles of the integral of the product of hat-function gradients divided by the triangle\'s permeability, and the right-hand side is a third of current density times area from each triangle to each of its vertices, before magnets and the far-field constraint are added.',
 ['inputs','configurations'],'all magnetostatic drawings, materials, vertex degrees and permeability vectors',
 'The example run only checks that the program exits.',
 ['magnetostatic/mesh.cpp'],
 [('adjacency, per-triangle terms tagged with the triangle','magnetostatic/mesh.cpp')],
 ['evaluated matrix and right-hand side'])
p('C23','Permanent magnets act as their equivalent surface currents',
 'A magnetised area adds to the right-hand side exactly the surface current (magnetisation crossed with outward normal) of its boundary, holes included, shared equally by the two end nodes of every boundary edge, the total over the boundary being zero; areas without magnetisation add nothing, and the contributions of several magnets add up, however many markers, corners or shapes of the same material are drawn.',
 ['inputs','configurations'],'all magnet shapes convex or not, magnetisation directions, several magnets of equal or different material, adjacent magnets, magnets nested in other shapes',
 'No test contains a magnet.',
 ['magnetostatic/mesh.cpp'],
 [('innermost outline per magnet marker, outward normal, edge-on-outline test','magnetostatic/mesh.cpp')],
 ['right-hand side of the assembled system'])
p('C24','The open boundary is a proper gluing of an inverted exterior',
 'Generating a magnetostatic system surrounds the drawing with a circle that encloses all of it, meshes its inside, and glues on an air mesh of the outside obtained by inversion in that circle: shared circle vertices are joined one to one, every triangle refers to existing distinct vertices, the result is a closed conforming surface with no unreferenced vertex, and three far-away vertices are fixed at zero potential.',
 ['inputs','configurations'],'all drawings, positions relative to the origin, and mesh sizes',
 'The example run checks one drawing for the absence of a crash.',
 ['mesh/mesh.hpp','magnetostatic/simulation.cpp','magnetostatic/mesh.cpp','geometry/circle.cpp'],
 [('enclosing circle and translation','magnetostatic/simulation.cpp'),('inversion and vertex matching','mesh/mesh.hpp'),('three farthest vertices','magnetostatic/mesh.cpp')],
 ['centre, radius, mesh and system after generation'])
p('C25','Magnetostatic solutions solve their system',
 'With linear materials the returned potential satisfies the assembled equations within solver tolerance, is zero at the fixed nodes, changes sign with the sources, and is zero without sources. With magnetisation curves the solver terminates with finite potentials, and a curve equivalent to a constant permeability gives the same result as that constant.',
 ['inputs','configurations'],'all magnetostatic problems with currents, magnets, linear and curved materials',
 'The example run only checks that the program exits.',
 ['magnetostatic/simulation.cpp'],
 [('linear branch: SSOR conjugate gradient','magnetostatic/simulation.cpp'),('damped permeability iteration','magnetostatic/simulation.cpp')],
 ['returned potential'])
p('C26','Force and torque are consistent mechanical quantities',
 'The force and the torque on a shape are, within the error of the mesh, those that the field exerts on it through any shell in the air around it; on a conductor, those of the field on its current, so two conductors act on each other as Ampere\'s law requires, in opposite directions. They do not change when the whole drawing is translated (torque about a centre given in drawing coordinates), scale with the square of the sources and of the field and linearly with depth, and are zero in a field that is zero or uniform; the combined stress query returns the same force and torque as the separate ones.',
 ['inputs','configurations'],'all drawings with an isolated shape in air, positions, depths and source scalings',
 'No test computes a force.',
 ['magnetostatic/simulation.cpp'],
 [('weighting field in the surrounding air, stress integral','magnetostatic/simulation.cpp')],
 ['returned force and torque'])
p('C27','Results are reproducible and simulations are isolated from each other',
 'Running the same sequence of operations gives identical results whatever other simulations were created, run, failed or destroyed before or in between in the same process; failing operations do not disturb other simulations.',
 ['histories','schedules'],'all interleavings of operations of several simulations in one process, including failing ones',
 'Tests run one simulation per process.',
 ['mesh/mesh.hpp','triangle/triangle.cpp','magnetostatic/simulation.cpp','current_density/simulation.cpp'],
 [('no state outside the simulation objects; mesher state reset per call','triangle/triangle.cpp')],
 ['meshes, systems and solutions of each simulation'])
p('C28','The Python interface returns what the C++ library computes',
 'A Python session of drawing, connecting, generating, prescribing and solving passes every argument to the matching library operation and returns meshes, voltages and power densities equal to those of the same C++ session, with layers and vertex numbers consistent across all returned lists. Arguments of the wrong number or type, lists of coordinates that are not pairs, layers that do not exist and systems that were not generated raise a Python exception and change nothing; an exception of the library becomes a Python exception. The interpreter never ends.',
 ['inputs','histories'],'all sequences of Python calls with int or float arguments, any number of layers',
 'The only script fails at the baseline and asserts nothing.',
 ['python/nikfemm.cpp'],
 [('argument unpacking and result packing','python/nikfemm.cpp')],
 ['Python return values and exceptions'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
