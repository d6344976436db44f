"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py writes both)."""

TESTS = ("The suite has 20 tests on two files (molecule, volume) with a handful of fixed or randomly drawn inputs; ")

GEN = 'czone/generator/generator.py'
AMO = 'czone/generator/amorphous_algorithms.py'
MOL = 'czone/molecule/molecule.py'
PRE = 'czone/prefab/prefab.py'
WUL = 'czone/prefab/wulff.py'
SCE = 'czone/scene/scene.py'
ADS = 'czone/surface/adsorbate.py'
ALP = 'czone/surface/alpha_shape.py'
POST = 'czone/transform/post.py'
STR = 'czone/transform/strain.py'
TRA = 'czone/transform/transform.py'
MEA = 'czone/util/measure.py'
MIS = 'czone/util/misc.py'
ALG = 'czone/volume/algebraic.py'
VOL = 'czone/volume/volume.py'
VOX = 'czone/volume/voxel.py'
VIZ = 'czone/viz/viz.py'


def P(id, title, statement, over, text, why, files, mech, level_note, state=None, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=TESTS + why, files=files,
                mech=mech, level_note=level_note, state=state or [], observe=observe or [])


EXACT = ("Real arithmetic instead of floating point; counterexamples are replayed on the unpatched code with numpy floats "
         "before they are reported. ")

SPEC = [
    P('C01', 'A populated scene holds exactly the atoms precedence awards to each object',
      "After a scene is populated, an atom supplied by an object inside its own region is present if and only if it lies inside no other object whose priority value is lower than or equal to that of its own object (objects of equal priority supply no atoms to their intersection). "
      "Every kept atom appears once, with its species and position unchanged, and nothing else is added. "
      "Populating again after priorities, regions or the object list have changed gives the result of the current state.",
      ['inputs', 'configurations', 'histories'],
      "All positions of atoms and regions, all priority assignments from the stated sets, up to 3 objects (4 on stated priority levels, any of them thorough) as volumes, unions or molecules, and edit histories of one step between two populations.",
      "scenes are never populated in the tests, let alone with symbolic overlaps and priority orders.",
      [SCE, VOL], [('Scene.populate', SCE), ('BaseVolume.get_priority / checkIfInterior', VOL)],
      EXACT + "Bounds: at most 4 objects with at most 2 atoms each; regions are spheres, slabs, or unions of two; atoms nearer than 1e-3 to a region's boundary are not claimed.",
      observe=['Scene.all_atoms', 'Scene.all_species']),
    P('C02', 'A union of objects behaves as one object with its own inner precedence',
      "A point is inside a union exactly when it is inside at least one member, at any nesting depth. "
      "Populating a union keeps an atom of a member if and only if it lies in that member and in no other member whose priority value is lower or equal; species stay attached to their atoms. "
      "Adding members or changing priorities is honoured by the next population and membership query.",
      ['inputs', 'configurations', 'histories'],
      "All atom positions and region positions, all priorities from the stated sets, up to 3 members (5 for the interior, 4 thorough), nesting depth 2, one edit (members added, moved, re-prioritised) between populations.",
      "two members at fixed places are the most the tests use.",
      [VOL], [('MultiVolume.populate_atoms', VOL), ('MultiVolume.checkIfInterior', VOL), ('MultiVolume.add_volume', VOL)],
      EXACT + "Bounds: up to 3 members (4 thorough), at most 2 atoms each; sphere and slab regions; boundary band 1e-3 not claimed."),
    P('C03', 'Populating a volume keeps exactly the supplied atoms inside its region',
      "After a volume is populated, its atoms are exactly those supplied by its generator that lie inside the volume, each once, with the species the generator gave it. "
      "For a crystal this means every lattice site of the crystal inside the region is occupied by its species and no atom lies elsewhere.",
      ['inputs'],
      "All atom positions and region parameters for sphere, plane, cylinder and hull regions with up to 3 atoms; a crystal with free lattice origin in a box.",
      "counts for a few fixed shapes are compared, never the set of atoms for every placement.",
      [VOL, GEN], [('Volume.populate_atoms', VOL), ('Volume.checkIfInterior', VOL), ('Generator.supply_atoms', GEN)],
      EXACT + "Bounds: at most 3 supplied atoms, or one orthogonal two-species crystal in a 3.5 x 4.5 x 2.5 box with any origin within 0.9; band 1e-3 at boundaries not claimed."),
    P('C04', 'The interior of a convex object is the intersection of all its parts',
      "A point is inside a volume exactly when it is inside the convex hull of the volume's points (if it has any) and inside every one of its bounding surfaces; one answer is given per point, in order. "
      "A volume without points or surfaces is all of space. "
      "Adding points or surfaces, or replacing the points, changes the answer accordingly; the hull's tolerance, whenever set, widens the hull by that fraction and no more.",
      ['inputs', 'configurations', 'histories'],
      "All points, all surface parameters, up to 3 surfaces; box, centred box, tetrahedron hulls and hulls of any 4 vertices; histories of 2 edits of 6 kinds.",
      "random points against a few fixed spheres/boxes only.",
      [VOL, ALG], [('Volume.checkIfInterior', VOL), ('Volume.points setter / addPoints', VOL), ('Volume.add_alg_object', VOL)],
      EXACT + "The triangulation of scipy is replaced by its definition (a point is in a simplex iff it is a convex combination). Bounds: up to 3 surfaces, hulls of at most 8 fixed or 4 free vertices; band 1e-3 not claimed."),
    P('C05', 'Sphere, half-space and finite-cylinder membership, distance and projection',
      "A sphere contains exactly the points nearer to its center than its radius, a plane exactly the points behind it with respect to its normal, a cylinder exactly the points within its radius of the axis and within half its length of its center along the axis. "
      "Plane distances are the perpendicular distances (signed: negative behind), and projecting a point onto a plane gives the foot of the perpendicular. "
      "Flipping a plane exchanges its two sides.",
      ['inputs'],
      "All points and all parameters: centers and points in [-50,50], radii and lengths in (0.001,20], any plane normal, any length of 7 cylinder axis directions (any axis thorough).",
      "spheres and one plane with sampled points are all that is touched.",
      [ALG], [('Sphere.checkIfInterior', ALG), ('Plane.checkIfInterior / sdist_from_plane / project_point / flip_orientation', ALG), ('Cylinder.checkIfInterior', ALG)],
      EXACT + "Points within twice the object's tolerance of its surface are not claimed."),
    P('C06', 'Surfaces move with their points under isometries',
      "When a translation, rotation, inversion or reflection is applied to a sphere, plane or cylinder, the image of a point is inside the moved surface exactly when the point was inside the original one. "
      "Radii and lengths do not change, centers and points move as points, and a cylinder axis turns with the transformation.",
      ['inputs'],
      "All surface parameters and points; any translation, rotation, inversion and 4 mirror normals, about any origin.",
      "surfaces are never transformed in the tests.",
      [ALG, TRA], [('Sphere/Plane/Cylinder.transform', ALG), ('MatrixTransform.applyTransformation', TRA)],
      EXACT + "Rotations by exactly pi excluded for free rotations; cylinder under free rotations in the thorough tier only; a 1e-4 band around surfaces not claimed."),
    P('C07', 'Transformations map points, vectors and sequences as specified',
      "A translation adds its shift to every point and leaves basis vectors alone; a matrix, rotation, inversion or reflection acts on points about its origin and on basis vectors by its matrix alone. "
      "Reflections send a point to its mirror image across any given plane, and applying an inversion or reflection twice restores the points. "
      "A combined transformation applies its members in the order given, to points and bases alike; the arrays handed in are not modified.",
      ['inputs', 'configurations'],
      "All points, any 3x3 matrix with entries in [-5,5], any rotation, any mirror; all ordered pairs (triples thorough) of transformations, sequences that use one twice, matrices, mirrors, origins and shifts replaced after construction.",
      "transformations are only exercised through fixed rotations of molecules.",
      [TRA], [('Translation, MatrixTransform, Rotation, Inversion, Reflection, MultiTransform', TRA)],
      EXACT + "Combined transformations use uniform lock/basis flags (documented limitation of the code)."),
    P('C08', 'Transforming a volume moves its region, and its crystal exactly when locked',
      "After a transformation is applied to a volume or union, a moved point is inside exactly when the point was inside before; hull corners, surfaces and all members move exactly once and other volumes do not move. "
      "The crystal filling the volume moves with it when the transformation is locked, turns its axes only when it is also basis-only, and stays where it was otherwise; consecutive transformations compose. "
      "Populating the moved volume gives the moved crystal's atoms in the moved region.",
      ['inputs', 'histories', 'configurations'],
      "All parameters of translations, rotations, inversions, mirrors about any origin; all lock/basis flags; 1 to 3 consecutive transformations; surfaces (up to six in one volume, two of each kind), hulls, unions (nested), three kinds of generator.",
      "rotations of one or two fixed volumes are the most the tests apply.",
      [VOL, GEN, TRA], [('BaseVolume.transform / Volume.transform / MultiVolume.transform', VOL), ('Generator.transform / AmorphousGenerator.transform', GEN)],
      EXACT + "Hulls are rotated by 4 rational rotations (free axis angle thorough); combined transformations use uniform flags."),
    P('C09', 'Copies and derived objects equal their source and are independent of it',
      "A volume, union, generator, surface or molecule built from another one (with an optional transformation or replacements) has the region, surfaces, points, tolerance, priority, lattice, species and strain of its source, moved or replaced as asked. "
      "Later changes to the copy do not reach the source and changes to the source do not reach the copy. "
      "Objects handed in as parts are not modified by building.",
      ['inputs', 'histories'],
      "All parameters of the source and of the transformation; copies followed by each of up to 6 kinds of edit on either side.",
      "copies are only compared for one molecule and one volume.",
      [VOL, GEN, ALG, MOL], [('Volume.from_volume', VOL), ('MultiVolume.from_volume', VOL), ('Generator.from_generator', GEN), ('from_alg', ALG), ('Molecule.from_molecule', MOL)],
      EXACT + "Isometries with symbolic parameters, priorities and tolerances of both signs; deep copies of crystal structures are compared on lattice, sites and species."),
    P('C10', 'The bounding region of a volume encloses its whole interior',
      "For a bounded volume the vertices returned as its bounding region enclose every interior point: in every direction, no interior point lies beyond all of the vertices. "
      "A region bounded by planes is recognised as bounded and reported, one that is empty is not reported as bounded. "
      "The corner points of a rectangular prism are its eight corners for any dimensions and center.",
      ['inputs'],
      "Any centers, radii, lengths, plane offsets; several plane normal sets and cylinder axes; 6 to 13 directions.",
      "bounding regions are only printed or used implicitly on fixed shapes.",
      [VOL, ALG], [('Volume.get_bounding_box', VOL), ('get_bounding_box', ALG), ('Sphere/Cylinder.get_bounding_box', ALG), ('makeRectPrism', VOL)],
      EXACT + "Linear programming and half-space intersection of scipy are replaced by their definitions (optimal point; vertices as feasible triple intersections). Fixed plane normals with free offsets; unbounded plane sets are not claimed."),
    P('C11', 'A crystal generator supplies every lattice atom of the region once, nothing else',
      "Asked to fill the convex hull of some vertices, a crystal generator supplies, for every site of the structure, an atom at every lattice translate of that site which lies in the region, exactly once and with the site's species. "
      "Every atom it supplies is such a lattice site, whatever the lattice (skew or rotated), its origin, and its voxel scale.",
      ['inputs', 'configurations'],
      "All origins in the stated spans for 8 lattice/region combinations (skew, three elements, cubic, rotated, scaled, negative fractional coordinates, tetrahedral, flat and long thin regions), and tiling bounds for any orthogonal lattice and 3 vertices.",
      "no test checks supplied atoms of a generator against the lattice.",
      [GEN, VOX], [('Generator.supply_atoms', GEN), ('Voxel.get_extents / sbases', VOX)],
      EXACT + "Fractional site coordinates in [-1,1); at most 5 cells per direction (9 in thin regions)."),
    P('C12', 'Transforming a crystal moves every atom it supplies by the transformation',
      "When a crystal is translated, rotated, inverted or reflected, its origin moves as a point and its lattice vectors turn, sites and species stay the same, so that the atoms it supplies are the images of the atoms it supplied. "
      "A basis-only transformation turns the lattice vectors and leaves the origin. "
      "Crystals built from one structure have the requested lattice, origin and orientation and are independent.",
      ['inputs', 'histories'],
      "Any shift, origin and (on orthogonal lattices) any rotation; skew lattices with 4 rotations; two steps; combined transformations; 4 ways to assemble a crystal.",
      "no test transforms a generator and inspects its lattice or atoms.",
      [GEN, VOX, TRA], [('Generator.transform', GEN), ('Voxel.transform / reciprocal_bases', VOX)],
      EXACT + "Atom-level comparison on a 2x2x2 box; free rotations on orthogonal lattices only."),
    P('C13', 'Strain displaces every atom by the stated strain about the stated origin',
      "A homogeneous strain given as a triple, a matrix or a Voigt vector (identity: no strain) maps each position p to origin + (p - origin) M, row-vector convention, in Cartesian axes or in the crystal's own axes as selected; the strain origin is fixed and is the crystal's origin unless given. "
      "An inhomogeneous strain maps each position by the given function, about the origin and in the axes selected. "
      "Strained crystals supply exactly the deformed atoms of the unstrained crystal with unchanged species, inputs and crystal are not modified, and changed settings take effect.",
      ['inputs', 'configurations'],
      "Strain entries in [-3,3], any positions and origins, 5 ways to give the tensor, both axes modes, affine custom functions with free coefficients.",
      "strain is not tested at all.",
      [STR, GEN], [('HStrain.apply_strain', STR), ('IStrain.apply_strain', STR), ('Generator.supply_atoms', GEN)],
      EXACT + "Custom functions are affine with free coefficients; one skew lattice (orthogonal for scaled)."),
    P('C14', 'Post-generation steps change only what they say, in order',
      "Chemical substitution never changes positions or the number of atoms, changes only atoms of a target species and only to that target's substitute, replaces none at fraction zero and all at fraction one, replaces each target atom with the stated probability, replaces no fewer atoms when the fraction grows at equal random numbers, and leaves its inputs unmodified. "
      "A sequence of steps runs each once in the order given. "
      "A generator applies its step once to the supplied atoms before strain.",
      ['inputs', 'schedules', 'configurations'],
      "Any fraction and any random numbers, several target/substitute maps, 6 sequences built 3 ways, with and without strain; the probability is decided as the share of replaced atoms over evenly spaced random numbers.",
      "substitution and sequences are not tested.",
      [POST, GEN], [('ChemicalSubstitution.apply_function', POST), ('MultiTransform / order_of_operations', POST), ('Generator.supply_atoms', GEN)],
      EXACT + "Random numbers are free values in [0,1), equal for equal seeds; up to 3 atoms."),
    P('C15', 'Amorphous blocks respect minimum separation, box and density',
      "An amorphous block holds the number of atoms given by density times volume (rounded), all inside the requested box. "
      "No two of its atoms are closer than the minimum distance, measured with wrap-around in x and y and plainly in z. "
      "An amorphous generator fills the box around the region it is asked for, at that region's place, with its own density, distance and element, and repeats its previous result when asked to reuse it.",
      ['inputs', 'schedules'],
      "All random draws (free values), any box width in 2..5, regions anywhere, filled again and elsewhere; 1 to 3 atoms, up to 8 blocks, the sequential and the batched algorithm; the 27th atom of a crowded block on 4 lines and the 13th on 2 planes (batched).",
      "the amorphous algorithms are not tested.",
      [AMO, GEN, MEA], [('gen_p_substrate, gen_p_substrate_batched, get_voxels, get_p_dist', AMO), ('AmorphousGenerator.supply_atoms', GEN)],
      EXACT + "Executions with more than the stated number of rejected draws are left out (a rejected draw leaves no state behind); at most 3 free atoms, or one free atom beside 12 or 26 fixed ones."),
    P('C17', 'Voxel neighbour lists hold exactly the adjacent voxels, with wrap-around',
      "In a voxel grid, the neighbour list of a voxel holds a voxel if and only if the two differ by at most one step in every direction, counted around the edge in the directions that are periodic and not in the others; this holds for any grid size, including one or two voxels in a direction. "
      "The blocks of a periodic substrate are as many as fit without being smaller than the minimum distance, every coordinate of the box is assigned to the block that contains it, and the neighbours of a block wrap in x and y only.",
      ['inputs', 'configurations'],
      "Every pair of voxels of every grid of 1..3 per direction with any periodicity (1..5 thorough) and two larger grids; any box of 0.5 to 3.5 minimum distances per direction with any coordinate in it.",
      "neighbour lists are not tested.",
      [MEA, AMO], [('get_voxel_grid', MEA), ('get_num_blocks, get_voxels, get_block', AMO)],
      EXACT + "Grid sizes are enumerated, voxels and periodicity within a grid are symbolic."),
    P('C18', 'Periodic distance functions give the distance to the nearest image',
      "For any two points of a periodic box, the squared distance returned is the smallest squared distance between the first point and the images of the second shifted by one period in the periodic directions. "
      "Without periodicity it is the ordinary squared distance. "
      "Pairs are matched in order and the inputs are not modified; the single-candidate and batched forms used by the amorphous algorithms agree with it.",
      ['inputs', 'configurations'],
      "Any points in any box (sides in the stated span), all 8 periodicity settings.",
      "distances are not tested.",
      [MEA, AMO], [('get_sdist_fun', MEA), ('get_p_dist, get_p_dist_batch', AMO)],
      EXACT + "Points lie inside the box; at most 2x2 points at once."),
    P('C19', 'Random split positions are in range, sorted and far enough apart',
      "Asked for N positions with a minimum separation in a range of a given length, the function returns N sorted whole positions that are at least the separation apart, at least the separation from the start and below the length minus the separation. "
      "A request that cannot be met is refused with a ValueError and not retried for ever. The same seed gives the same positions.",
      ['inputs', 'schedules'],
      "All random draws, separations 1..3, lengths 0..12, 0 to 3 splits (4 thorough); four splits after any first draws that may leave no room.",
      "splits are not tested.",
      [MIS], [('get_N_splits', MIS)],
      EXACT + "Runs with more than two extra draws are left out."),
    P('C20', 'Rotation constructors return the rotation they are asked for',
      "Every rotation constructor returns a proper rotation matrix. "
      "The axis-angle form turns by the angle about the axis (right-handed), the vector-to-vector form turns the first direction onto the second about their common normal including parallel and opposite directions, the alignment of vector lists turns each onto its partner, and the Euler form composes rotations about z, x and z with the stated convention and rejects unknown ones. "
      "The angle between two vectors has the right cosine and lies between zero and pi.",
      ['inputs'],
      "Any angles, also with whole turns added; any lengths; any unit axis; 4 start directions to any target direction; 10 collinear directions; any rotation of 3 vectors about a coordinate axis (any rotation thorough); vector pairs 0.1 to 1e-4 from parallel or opposite.",
      "one molecule rotation uses them with fixed values.",
      [MIS], [('rot_v, rot_vtv, rot_zxz, rot_align, vangle', MIS)],
      EXACT + "Angles are exact points of the unit circle (rational half-angle tangents); vector pairs within 1e-3 of antiparallel but not opposite are not claimed."),
    P('C21', 'Surface-to-surface alignment brings two planes face to face',
      "Aligning a surface with a target surface is a rigid, proper motion after which the moved plane coincides with the target plane with opposite normal. "
      "The moving surface's reference point ends up directly over the target's reference point, and neither plane handed in is modified.",
      ['inputs'],
      "10 pairs of normals including parallel and opposite ones and pairs 0.01 to 1e-4 from that, all plane points and reference points.",
      "alignment is not tested.",
      [TRA], [('s2s_alignment', TRA)],
      EXACT + "Plane normals from 10 rational pairs; points free in [-10,10]."),
    P('C22', 'Snapping a plane to a lattice plane gives a plane of the actual lattice',
      "Snapping a point to a Miller plane of a crystal returns a plane whose normal is that of the Miller plane in the crystal as it is (rotated, scaled, strained), on the side the indices point to, and whose offset from the crystal's origin is a whole number of plane spacings. "
      "It is the nearest such plane to the point, or the next one towards the origin (floor) or away from it (ceil); the point handed in is not modified.",
      ['inputs', 'configurations'],
      "Any crystal origin and any point; 5 Miller triples (16 thorough), skew, rotated, scaled (by one factor or one per axis) and homogeneously strained lattices in both axes conventions, also moved and snapped to again after use, orthogonal lattices of any constants.",
      "no test snaps a plane.",
      [ALG, MIS], [('snap_plane_near_point', ALG), ('Voxel.sbases', VOX), ('HStrain.apply_strain', STR)],
      EXACT + "Lattice shapes and strain matrices are fixed per case."),
    P('C23', 'Planar-defect builders put the right defect on lattice planes in the object',
      "Twins, stacking faults and grain boundaries built into an object leave the object's region as it was and cut it by planes of the requested family that are lattice planes inside the object, separated by at least the requested number of planes, with later parts taking precedence. "
      "Across a stacking fault the crystal is displaced by the partial lattice vector that lies in the plane, across a twin it is its mirror image in the plane, across a grain boundary the zone axes are the requested ones on either side; lattice constants stay the same. "
      "The crystal and object handed in are not modified.",
      ['inputs', 'configurations', 'schedules'],
      "Any crystal origin and object center in the stated spans, all random draws, any mixing ratio; several planes, rotated crystals, spheres and boxes, 1 to 3 defects.",
      "no prefab is tested.",
      [PRE], [('fccMixedTwinSF / fccStackingFault / fccTwin / wurtziteStackingFault / SimpleGrainBoundary .build_object', PRE)],
      EXACT + "At most 3 defects in one object; cubic and hexagonal lattices of fixed constants."),
    P('C24', 'A molecule always holds the atoms it was given, whatever is done to it',
      "A molecule built from species and positions, ASE atoms, a pymatgen molecule or another molecule holds exactly those atoms, each species with its position, independently of the arrays it was built from; its exported view is the same set. "
      "Adding, setting, removing and updating atoms changes exactly the atoms named, removing an atom keeps the origin and orientation bookkeeping pointing at the same atoms, and a refused edit leaves the molecule as it was. "
      "The reported origin is the position of the chosen atom or point, and a molecule excludes no atom of other objects.",
      ['inputs', 'histories'],
      "All positions of 3 atoms (4 thorough), all ways of building, all pairs of 9 edits (triples thorough) and 15 kinds of refused edit, all index choices.",
      "molecules are built from one file and rotated; edits are not tested.",
      [MOL], [('BaseMolecule.set_atoms / remove_atoms / update_positions / update_species / ase_atoms', MOL), ('Molecule.from_ase_atoms / from_pmg_molecule / from_molecule', MOL)],
      EXACT + "At most 4 atoms and two consecutive edits; ASE and pymatgen containers are replaced by recorders with the same interface during symbolic execution."),
    P('C25', 'Transforming a molecule moves its atoms and its reference point together',
      "A transformation applied to a molecule maps every atom once as a point, keeps the species, their order, the orientation frame and the priority. "
      "A point given as the molecule's origin moves with the atoms unless that is switched off, an origin tied to an atom stays tied to it. "
      "Consecutive, combined and copied transformations act in the order given, a copy leaves its source alone, edits in between are respected, and anything that is not a transformation is refused without effect.",
      ['inputs', 'histories', 'configurations'],
      "All positions of 3 atoms (5 thorough), any translation, rotation, inversion, mirror or 3x3 matrix about any origin, all flags, pairs of transformations in 3 ways, an edit in between.",
      "one molecule is rotated by fixed angles.",
      [MOL, TRA], [('BaseMolecule.transform', MOL), ('Molecule.from_molecule', MOL), ('BaseMolecule.orientation / origin', MOL)],
      EXACT + "The orientation frame is not expected to turn with the atoms, as the code has it; uniform flags in combined transformations."),
    P('C26', 'An adsorbed molecule is bonded, rigid, turned as asked, and outside the host',
      "Adding an adsorbate leaves the molecule and the host handed in unchanged and returns a molecule with the same atoms, moved rigidly and never mirrored. "
      "Its bonding atom lies at the requested bond length from a surface atom of the host that passes every given filter (when no atom does, nothing is placed); the requested molecule vector, taken in the molecule's orientation frame, lies along the bond, and the requested rotation turns the rest about the bond. "
      "At the middle of a flat face the bond leaves the host. Success is reported exactly when no atom of the placed molecule is inside the host. With the default sampling, the same seed places the molecule the same way.",
      ['inputs', 'configurations', 'schedules'],
      "Any bond length, any spin angle, molecules of 1 to 3 atoms of any size at any place, 3 molecule vectors, 4 kinds of filter and their combinations (indices from either end), face and corner sites of a 27-atom cluster.",
      "one adsorption run is checked for not raising.",
      [ADS, MOL], [('add_adsorbate', ADS), ('find_approximate_normal', ADS), ('BaseMolecule.transform', MOL)],
      EXACT + "One host of 27 atoms in a sphere; random draws are fixed samples (the target is free through filters); the direction of the bond is claimed only at face atoms."),
    P('C27', 'Neighbour shells follow the bonds and surface normals point outwards',
      "The neighbours of a surface atom within N shells are exactly the atoms reachable over at most N edges of the surface tetrahedra (or of the whole alpha shape when asked), each once and without the atom itself; three shells of the surface are taken by default. "
      "The approximate normal of an atom is a unit vector, with all the neighbours behind it when they lie clearly on one side; the same seed gives the same normal.",
      ['inputs', 'configurations'],
      "Every surface subset of two fixed complexes of 4 and 5 tetrahedra (6 thorough), every target, 0 to 3 shells; any tetrahedron on 6 atoms for the bond matrix; one free neighbour for the unit length, 4 fixed neighbourhoods with 3 random sequences for the side.",
      "never tested directly.",
      [ADS], [('get_nearest_neighbors / sparse_matrix_from_tri', ADS), ('find_approximate_normal', ADS)],
      EXACT + "The normal iteration is followed for at most 4 steps with free points; the side of the normal is claimed for the fixed neighbourhoods."),
    P('C28', 'Alpha shapes keep exactly the tetrahedra a probe cannot enter',
      "The circumradius of a tetrahedron is the distance from its corners to the point equally far from all of them. "
      "The alpha shape drops the outer tetrahedra whose circumradius exceeds the probe radius; the kept ones with a face on the outside or on a dropped one are surface, the atoms returned are the corners of the exposed faces, each once, and with jittered positions a tetrahedron is kept when it passes in at least one of the samples. "
      "The planes of a convex hull face outwards and enclose exactly the hull of the points.",
      ['inputs', 'configurations'],
      "Any corner of a tetrahedron anywhere; any probe radius on clouds of 12 and 14 points and a cage (22 thorough), every keep/drop pattern of a star of 5 tetrahedra with free heights, any probe radius with 3 samples that scale 7 points by different factors; any probe point for 3 hulls, tetrahedra with one free corner.",
      "one fixed block is compared with stored indices.",
      [ALP, ALG], [('tetrahedron_circumradii / alpha_shape_alg_3D / alpha_shape_alg_3D_with_sampling', ALP), ('convex_hull_to_planes', ALG)],
      EXACT + "The Delaunay triangulation (Qhull) is taken as given; jitter is a fixed sample and radii within 0.01 of a circumradius are not claimed."),
    P('C29', 'Wulff particles fill the region inside the facets of the construction asked for',
      "A Wulff particle asks for the construction with exactly the given surface energies, the primitive cell of the crystal and the requested number of atoms (1000 by default), and the volume returned contains exactly the points inside every facet plane and is filled with the given crystal. "
      "Facet areas are returned when asked for; a Winterbottom particle passes on its interface and interface energy. "
      "Cubes, octahedra, cuboctahedra and truncated octahedra ask for {100} 1.0, {111} 1.0, {100} 1.0 with {111} 1.15, and {100} 1.1 with {110} 1.15 and {111} 1.0. "
      "Changing the size, energies or crystal changes the next construction; unusable ones are refused and change nothing.",
      ['inputs', 'configurations', 'histories'],
      "Any facet distances, any point, any cubic cell; 2 to 6 facets of fixed normals, 3 sets of energies, edits (also of energies on the same facets) between constructions.",
      "no Wulff particle is tested.",
      [WUL], [('WulffSingle.get_construction / winterbottom / cube / octohedron / cuboctohedron / truncated_octohedron', WUL), ('WulffBase.planes_from_wulff', WUL)],
      EXACT + "WulffPack's solvers are replaced by stand-ins with given facets, so what is asked of them and what is built from their facets is judged; facet normals are fixed, distances free; a 2e-5 band at facets not claimed."),
    P('C30', 'The radial distribution counts every pair at its nearest-image distance',
      "The radial distribution of a set of points has one entry per step of 0.1 up to the cutoff; every entry but the first holds twice the number of pairs of points whose distance (to the nearest image along periodic directions, the period being the extent of the points) falls in that step, and the first is zero.",
      ['inputs', 'configurations'],
      "Any position of up to two points inside a box spanned by two others, all periodicities, cutoffs 0.3, 0.4 and 0.5 (up to 5 x 3 x 2 voxels); two free points with cutoffs 0.7 and 1.0.",
      "the function is not tested.",
      [MEA], [('calc_rdf', MEA), ('get_voxel_grid', MEA), ('get_sdist_fun', MEA)],
      EXACT + "At most 4 points; quick-tier points move along lines (anywhere in thorough); pairs within 1e-6 of the edge of a step not claimed."),
    P('C31', 'Parameters outside their domain are refused and change nothing',
      "Radii, lengths, tolerances, densities and minimum distances are taken exactly when positive; normals and axes exactly when they are non-zero vectors of three components, and are made unit vectors along them; rotations exactly when the matrix is orthogonal with determinant one; basis vectors not when two are parallel; mixing ratios exactly in [0,1]. "
      "Values of the wrong shape or kind (priorities, corner points, members, generators, strains, strain modes, transformations, scene bounds) are refused. "
      "A refused value leaves the object, its interior and its effect as they were; a taken one is the value in effect, also when the array it was given in is changed afterwards.",
      ['inputs', 'histories'],
      "Any value of the numeric parameters in the stated ranges; fixed lists of values of wrong shape or kind; any probe point afterwards; 19 parameters given in arrays the caller goes on to change.",
      "no test passes an invalid parameter.",
      [ALG, VOL, TRA, VOX, GEN, PRE], [('setters of Sphere, Plane, Cylinder', ALG), ('Volume.points / priority / add_alg_object / add_generator', VOL), ('Rotation.matrix and other setters', TRA), ('Voxel.bases / scale / origin', VOX)],
      EXACT + "A relative band of 1e-3 around non-zero domain edges is not claimed."),
    P('C32', 'Exported files and ASE views hold exactly the atoms and cell of the object',
      "Writing a scene or volume writes one file under the given name, with exactly the atoms the object holds at that moment, each with its own species, and, for scenes, a cell of the size of the scene's bounds; options are passed on as given. "
      "Prismatic output without Debye-Waller factors gets 8 pi^2 (0.1)^2 for every element present, and given factors are kept. "
      "ASE views show the same atoms and cell, follow changes of the bounds, and the atoms reported per object are that object's own.",
      ['inputs', 'configurations', 'histories'],
      "All positions of up to 5 atoms in two slab regions and a molecule, any bounds, three assignments of elements, 6 sets of options.",
      "one file of a fixed scene is written in the tests.",
      [SCE, VOL], [('Scene.to_file / ase_atoms / species_from_object', SCE), ('BaseVolume.to_file / ase_atoms', VOL)],
      EXACT + "ase.io.write is replaced by a recorder: what is handed to it is judged, not the bytes it writes."),
    P('C33', 'A crystal built from a unit cell or space group has the cell and sites asked for',
      "A generator made from cell lengths and angles tiles with three right-handed vectors of these lengths, enclosing these angles, and holds each given site with its own element at its given fractional place (up to whole cells). "
      "Made from a space group, it holds exactly the images of the given sites under the operations of that group - in the setting and origin its symbol names - each once, with its element; the group number prevails when a number and a symbol are given. "
      "The scaled tiling vectors and the reciprocal vectors of a voxel follow from its vectors and scale, for vectors as little as 0.3 degrees apart.",
      ['inputs', 'configurations'],
      "Any cell lengths in [2, 12], 8 sets of angles, 2 or 12 sites anywhere, 60 space groups in standard and other settings, 8 crystals with sites on symmetry elements; any vectors in 3 frames, any scale in [1/4, 4].",
      "one crystal is read from a file in the tests; none is built from a cell or a group.",
      [GEN, VOX], [('Generator.from_unit_cell', GEN), ('Generator.from_spacegroup', GEN), ('Voxel.sbases / reciprocal_bases', VOX)],
      EXACT + "Angles come from a list; sites of the free cases are within 0.01 of a general position; pymatgen's symmetry tables and its rule that merges coinciding images are taken as given (its constructors are replaced by their contract)."),
    P('C34', 'Drawn views show every atom once per panel, in the projection their titles name',
      "A view of points or of a scene has four panels: the XY, XZ and YZ projections, each seen along its axis and labelled with the two axes it shows, and one seen under the angles asked for (azimuth -60, elevation 30 by default). "
      "Every panel shows every atom of the scene (every point given) at its position exactly once and nothing else, spans the bounds of the scene, and does not mix elements in one group of points. "
      "The interactive views redraw the same figure for whatever angles their sliders are at; what is not a scene is refused.",
      ['inputs', 'configurations'],
      "Any positions of 3 points, or of 2 atoms in a slab region and a molecule's atom, three assignments of elements, default or any bounds, any angles and slider positions.",
      "no test opens a plot.",
      [VIZ], [('simple_view_with_rotate / simple_scene_view / simple_scene_view_with_rotate', VIZ), ('simple_view_widget / simple_scene_widget', VIZ)],
      EXACT + "pyplot and ipywidgets.interact are replaced by recorders: what is handed to them is judged (replays read real figures), not pixels."),
]

NA = [
    ('C91', 'Decahedral and icosahedral Wulff shapes have the requested geometry',
     "The decahedron and icosahedron constructors return particles with the requested facets and size.",
     ['inputs'], "All surface energies and sizes.", "no test builds them.", [WUL], [('Decahedron / Icosahedron wrappers', WUL)],
     "The wrappers call WulffPack methods that the installed WulffPack release does not have, so the code cannot run at all here, and the shapes are computed by that compiled third-party library."),
]
