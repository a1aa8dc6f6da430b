#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
M='src/mesh/Mesh.cc'; MH='src/mesh/Mesh.hh'; S='src/mesh/mesh_simple/Mesh_simple.cc'; SH='src/mesh/mesh_simple/Mesh_simple.hh'
G='src/geometry/Geometry.cc'; P='src/geometry/Point.hh'
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p('C01','Structured brick mesh connectivity is exactly the nx*ny*nz lattice',
  "For every generated 3D block mesh with any positive cell counts, each query relating cells, faces and nodes (faces of a cell with their directions, nodes of a cell, nodes of a face, cells of a face, cells of a node, faces of a node, faces of one cell at a node, cells adjacent through a face or a node) returns exactly the incident entities of the lattice, each once, in the documented standard order where one is documented. Relations in opposite directions are inverses of each other; the two cells of an interior face see it with opposite directions and a positive direction means the face's node order points its normal out of the cell. All ids are in range and the numbers of nodes, faces and cells are those of the lattice.",
  ['inputs','configurations'],'all nx, ny, nz >= 1 and every entity of the resulting mesh',
  'The tests build a few tiny bricks (1x1x1, 2x2x2, 3x3x3) and spot check counts and a few lists; neighbour relations at faces in other directions, unequal dimensions and inverse relations are never compared.',
  [S,SH,M],[('construction of connectivity tables',S+':update_internals_3d_'),('lattice index functions',SH+':xyface_index_ etc.'),('upward/adjacency queries',S+':node_get_faces, node_get_cells, cell_get_face_adj_cells, cell_get_node_adj_cells'),('cached cell-face and face-cell lists',M+':cache_cell2face_info, cache_face2cell_info')],
  [('cell_to_face_ / cell_to_node_ / face_to_node_ / face_to_cell_ / node_to_cell_ / node_to_face_','flat incidence tables of the brick',SH)],
  ['public query methods of the mesh'])
p('C02','1D mesh connectivity and geometry follow the given point list',
  "For every strictly increasing list of node coordinates, the 1D mesh built from it has one node per coordinate and one cell between consecutive nodes: cell i joins nodes i and i+1, every node acts as the face between the cells next to it, directions are -/+ for the left/right face, and all forward, backward and neighbour queries agree with that chain. Cell volumes, centroids and face areas are the Cartesian or spherical formulas of the two end coordinates according to the requested geometry, so cell volumes sum to the volume between the end points.",
  ['inputs','configurations'],'all increasing coordinate lists with >= 2 entries, both geometry types, every entity',
  'One test builds one 1D mesh with equal spacing; unequal spacing, spherical measure, end nodes and inverse relations are not compared.',
  [S,SH,M,G],[('1D tables',S+':update_internals_1d_'),('1D neighbour queries',S+':cell_get_face_adj_cells, node_get_cells, face_get_cells_internal'),('1D measures',G+':segment_get_vol_centroid, face1d_get_area')],(),['public query methods'])
p('C03','Brick node coordinates and cell/face geometry are those of the lattice',
  "In every generated block mesh, node (i,j,k) lies at the uniform lattice point of the requested box, cells have volume dx*dy*dz and centroid at the box centre, faces have the area and centroid of their rectangle, and the normal of a face seen from a cell points out of that cell with magnitude equal to the area. Consequently cell volumes sum to the volume of the box and the outward area vectors of each cell sum to zero. Moving a node changes that node's coordinates and no other.",
  ['inputs','configurations'],'all boxes with x0<x1 etc., all positive cell counts, every entity (exact real arithmetic)',
  'Tests compare a unit cube with a handful of cells, so axis mix-ups and unequal spacing are invisible.',
  [S,M,G],[('lattice coordinates',S+':generate/update of coordinates_'),('coordinate accessors',S+':node_get_coordinates, node_set_coordinates, cell_get_coordinates, face_get_coordinates'),('cell and face geometry',M+':compute_cell_geometry, compute_face_geometry, face_normal')],(),['public geometry queries'])
p('C04','Point arithmetic obeys vector algebra in 1, 2 and 3 dimensions',
  "For points of equal dimension 1, 2 or 3, sum, difference, negation, scaling, division, dot product, cross product, squared length and norm give the componentwise mathematical result (the 2D cross product is the scalar signed area carried in the first component). Results have the dimension of the operands, copies and assignments reproduce dimension and coordinates, in-place operators equal their two-operand forms, and operands are never modified.",
  ['inputs'],'all points of dimension 1..3 and all real scalars (exact real arithmetic)',
  'The tests evaluate a few fixed points; dimension 1 and most operators are not sampled.',
  [P],[('operators and constructors',P+':Point'),('L22, norm',P)],(),['Point operators'])
p('C05','Polygon and polyhedron measures equal the true area, volume and centroid',
  "For any polygon, the reported area, centroid and normal are the sums over the triangles joining its centre to its edges, and for any polyhedron the reported volume and centroid are the moment sums over the tetrahedra joining its centre, face centres and edges (a triangle and a tetrahedron directly); an inverted piece makes the measure negative. For every planar convex polygon, tetrahedron and box these equal the true measures, and they move with the shape under translation and scale with its size.",
  ['inputs'],'all vertex lists of any length (exact real arithmetic)',
  'Tests use a unit square/cube and one or two other shapes; dependence on vertex count, face mix (triangles with larger faces), order and position is not covered.',
  [G],[('polyhedron moments',G+':polyhed_get_vol_centroid'),('polygon moments',G+':polygon_get_area_centroid_normal')],(),['return values'])
p('C06','Containment tests classify strictly inside and outside points correctly',
  "For every simple polygon, a point strictly inside is reported inside and a point strictly outside is reported outside; for every convex polyhedron described by outward oriented faces of any number of nodes, including triangles, the same holds. A mesh's point-in-cell query agrees with the geometric cell.",
  ['inputs'],'all polygons/convex polyhedra and all points not on the boundary',
  'Tests query a cube and a square with a few points; triangular faces and mixed faces are never exercised.',
  [G,M],[('crossing count',G+':point_in_polygon'),('signed volumes per face piece',G+':point_in_polyhed'),('cell query',M+':point_in_cell')],(),['return value'])
p('C07','Regions classify points by definition and models find regions by name or id',
  "A box region contains exactly the points between its two corners in every coordinate (within its tolerance, corners in any order), a plane region the points whose signed offset along the normal vanishes within tolerance, a point region the points equal to it within tolerance, a polygon region the points of its planar polygon or segment; mismatched dimensions are rejected with an error. Region copies keep every defining datum, a region reports the dimension of what it describes, and a geometric model or domain returns exactly the regions and models that were added, in order, finds the first with a given name or id and nothing otherwise, and accepts precisely 2D and 3D domains.",
  ['inputs','histories'],'all corners, normals, points, dimensions, and all sequences of added regions',
  'No test exercises regions or models apart from mesh set tests that cannot run in this build.',
  ['src/geometry/BoxRegion.cc','src/geometry/PlaneRegion.cc','src/geometry/PointRegion.cc','src/geometry/LogicalRegion.cc','src/geometry/LabeledSetRegion.cc','src/geometry/GeometricModel.cc','src/geometry/Domain.cc','src/geometry/Region.cc'],
  [('inside predicates','src/geometry/BoxRegion.cc:inside, PlaneRegion.cc:inside, PointRegion.cc:inside'),('lookups','src/geometry/GeometricModel.cc:FindRegion'),('domain validation','src/geometry/Domain.cc')],(),['inside(), FindRegion()'])
p('C08','Block partition tiles the grid exactly with the requested number of blocks',
  "For every regular 1D, 2D or 3D grid and every requested number of blocks not exceeding the number of cells, the block partitioner returns exactly that many blocks, every block is non-empty in each direction and lies within the grid, blocks do not overlap, and together they contain every cell.",
  ['inputs'],'all dimensions, grid sizes and block counts 1 <= blocks <= cells',
  'The test covers a small table of grid sizes and block counts.',
  ['src/mesh/block_partition.cc'],[('bisection, block table, uneven splitting and compaction','src/mesh/block_partition.cc:block_partition_regular_mesh')],(),['returned start indices and cell counts'])
p('C09','Entity sets stay consistent under every sequence of additions and removals',
  "After creating an entity set and any sequence of adding entities that are not members and removing entities (singly or as lists of distinct entities), the set contains exactly the entities added and not removed since, each once; its owned and ghost lists hold exactly the owned and ghost members and its full list is their union with the owned ones first. With reverse lookup enabled, the index reported for an entity is its position in the full list, and -1 for every non-member.",
  ['histories','inputs'],'all initial contents and all add/remove sequences, with and without reverse lookup',
  'Set tests need a mesh backend that is absent in this build, and sample a few operations without interleaving.',
  ['src/mesh/MeshSet.cc','src/mesh/MeshSet.hh'],[('add/remove','src/mesh/MeshSet.hh:add_entity, rem_entity; MeshSet.cc:add_entities, rem_entities'),('reverse map','src/mesh/MeshSet.hh:index_in_set')],
  [('entityids_owned_, entityids_ghost_, entityids_all_, mesh2subset_','member lists and reverse map','src/mesh/MeshSet.hh')],['entities<>(), index_in_set()'])
p('C10','Set union, difference, intersection and complement are mathematically exact',
  "Merging sets yields exactly the entities in at least one operand, subtracting yields those in the first and in none of the others, intersecting yields those in all operands, and complementing yields the entities of that kind in none of the operands; each result entity appears once, owned entities come from owned and ghosts from ghosts. Operands are left unchanged, including their names.",
  ['inputs'],'all operand lists (one or more sets, overlapping, empty, equal, nested)',
  'The set tests cannot run in this build and sample a few fixed operands.',
  ['src/mesh/MeshSet.cc'],[('merge, subtract, complement, intersect','src/mesh/MeshSet.cc')],(),['contents of the returned set'])
p('C11','Named sets built from regions hold exactly the matching entities',
  "When a mesh with a geometric model builds an entity set from a region name, the set contains exactly the cells, faces or nodes that satisfy the region's definition (cell and face centres or node positions inside a box, entities whose nodes all lie on a plane, the node or containing cell for a point, the labelled entities for a labeled set, and the boolean combination for logical regions). Looking up a set by name and kind returns the set with that name and kind, or none, a query for entity counts or lists agrees with the set's content, and building one set never alters another.",
  ['inputs','configurations'],'all region definitions and meshes, all kinds, all names, any order of queries',
  'The only tests for this need a mesh backend that is absent in this build.',
  [M,'src/mesh/MeshSet.cc'],[('set construction',M+':build_set_from_region, init_sets_from_geometric_model'),('lookup',M+':find_meshset, find_meshset_from_region, get_set_size, get_set_entities')],(),['set queries'])
p('C12','Sides, wedges and corners form a consistent subdivision of every cell',
  "In a mesh built with sides, wedges and corners, each cell's sides, wedges and corners are exactly those that name it as their cell; every side owns two distinct wedges that name it, each wedge's face, edge, node, cell and corner agree with those of its side and corner, and a corner's wedges are those of its cell at its node. Adjacency across the side's middle and across the cell face are involutions (each opposite of an opposite is the original, -1 exactly on the boundary), and per-node wedge and corner lists contain exactly the wedges and corners at that node.",
  ['inputs','configurations'],'all meshes of any size for which these entities can be built, every side, wedge and corner',
  'The tests for sides, wedges and corners need a mesh backend that is absent in this build.',
  [M,MH],[('side, wedge and corner tables',M+':cache_side_info, cache_wedge_info, cache_corner_info'),('accessors',MH+':wedge_get_side, wedge_get_opposite_wedge, wedge_get_adjacent_wedge, side_get_wedge ...')],
  [('side_*_id, wedge_corner_id, corner_wedge_ids','subdivision tables',MH)],['public side/wedge/corner queries'])
p('C13','Sides, wedges and corners partition cell volume and bound it consistently',
  "The volumes of the sides of a cell sum to the cell volume, each wedge has half the volume of its side, and each corner has the sum of its wedges' volumes, so corners also sum to the cell; for valid meshes these volumes are positive. Coordinates and facet normals reported for a side or wedge are those of its face centre, edge or node and cell centre, with the outer facet normal pointing out of the cell.",
  ['inputs','configurations'],'all valid meshes, every side, wedge and corner (exact real arithmetic)',
  'The tests for sides, wedges and corners need a mesh backend that is absent in this build.',
  [M],[('side geometry',M+':compute_side_geometry, side_get_coordinates, side_facet_normal'),('wedge and corner geometry',M+':wedge_get_coordinates, wedge_facet_normal, wedge_volume, corner_volume, compute_corner_geometry')],(),['public geometry queries'])
p('C14','Geometry queries after moving nodes equal a fresh computation after an update',
  "Cached volumes, areas, lengths, centroids and normals always equal what computing them from the current node coordinates gives, once the geometry has been updated after the last coordinate change; asking for recomputation gives the current value at any time. This holds for cells, faces, edges, sides, wedges and corners after any number of moves and updates.",
  ['histories'],'all sequences of node moves, updates and queries',
  'Tests compute geometry once on a static mesh; a second update after movement is never checked.',
  [M],[('cache fill and refresh',M+':update_geometric_quantities, compute_*_geometric_quantities'),('cached readers',M+':cell_volume, face_area, face_normal, cell_centroid, side_volume, wedge_volume, corner_volume')],
  [('cell_volumes, face_areas, side_volumes ...','cached geometry',MH)],['geometry queries'])
p('C15','Entity counts, lists and types agree for every kind and ownership class',
  "For each entity kind, the count reported for owned, ghost, boundary-ghost and all entities equals the length of the corresponding list, the all-list is the owned list followed by the ghosts, no entity is listed twice and every listed entity reports the ownership class of the list it is in. Filtering a neighbour query by ownership class returns exactly the entities of that class from the unfiltered answer, and textual names of kinds and classes correspond one to one to their values.",
  ['inputs','configurations'],'all meshes, kinds and ownership classes',
  'The count and iterator tests need the absent mesh backend; only serial 3D counts for some kinds are sampled.',
  [M,MH,'src/mesh/MeshDefs.hh'],[('list construction',M+':cache_extra_variables, cache_type_info'),('count dispatch',MH+':num_entities, num_cells<> ...'),('class of an entity',M+':entity_get_type'),('names','src/mesh/MeshDefs.hh:Entity_kind_string, Entity_type_string')],(),['num_entities(), iterator lists, entity_get_type()'])
p('C16','Tiles partition the mesh: each entity has exactly one owning tile',
  "When a mesh is built with tiles, each of the processor's own cells is owned by exactly one tile and the tile's other owned nodes, faces, edges, sides, wedges and corners belong to its cells and have that tile as their single master. A tile's ghost cells are exactly the cells of other tiles (or other processors) within the requested number of node-connected layers, its owned and ghost lists are disjoint, its full list is their union with owned first, and counts equal list lengths.",
  ['inputs','configurations'],'all meshes, tile counts, partition methods available (index, block) and halo depths',
  'Tile tests need the absent mesh backend.',
  ['src/mesh/MeshTile.cc','src/mesh/MeshTile.hh',M],[('tile construction','src/mesh/MeshTile.cc:MeshTile'),('partitioning',M+':get_partitioning_by_index_space, get_partitioning_by_blocks'),('master tile maps',MH+':set_master_tile_ID_of_*')],(),['tile lists and master tile queries'])
p('C17','The state registry returns exactly the vector that was registered',
  "After any sequence of adding state vectors, looking one up by name, entity kind, entity type and domain (ANY_KIND and ALL stand for every kind and type) finds the first such vector if one was added and nothing otherwise, and yields the data given for it; registering a vector whose lookup already finds one returns that one and changes nothing. Iteration over all vectors, over those of one kind, and the list of names visit each registered vector exactly once, in order of registration.",
  ['histories','inputs'],'all sequences of additions, lookups and iterations over all kinds, names and value types',
  'All state tests need the absent mesh backend.',
  ['src/statemanager/JaliState.h','src/statemanager/JaliState.cc'],[('registration','src/statemanager/JaliState.h:add'),('lookup','src/statemanager/JaliState.h:find, get'),('per-kind index lists','src/statemanager/JaliState.h:entity_indexes_')],(),['find/get/iterators/names'])
p('C18','Materials and their cells stay mutually consistent',
  "After any sequence of adding and removing materials and adding cells to a material, a cell lists a material if and only if that material's cell set contains the cell, each at most once, material indices are 0..n-1, and the local index of a cell within a material is its position in that material's set. Every multi-material state vector has exactly one value per cell of each material after each such operation, and the values of other materials, and of the cells already in a material, are preserved.",
  ['histories'],'all sequences of material operations on all meshes',
  'All state tests need the absent mesh backend.',
  ['src/statemanager/JaliState.cc','src/statemanager/JaliState.h','src/statemanager/JaliStateVector.h'],[('material bookkeeping','src/statemanager/JaliState.cc:add_material, rem_material, add_cells_to_material'),('vector resizing','src/statemanager/JaliStateVector.h:MultiStateVector')],
  [('material_cellsets_, cell_materials_','materials to cells and cells to materials','src/statemanager/JaliState.h')],['material_cells, cell_materials, multi-material vectors'])
p('C19','State vectors hold one value per entity and copy independently',
  "A state vector has as many values as its domain has entities of its kind and type, initialised from the given value or array in order, and element access reads and writes exactly the addressed value. A copy-constructed vector is independent of its source while assignment makes both share the data, multi-material vectors read the same values whichever of the two storage layouts they were given, and type queries report the stored type.",
  ['inputs','histories'],'all sizes, values, layouts and access sequences',
  'All state vector tests need the absent mesh backend.',
  ['src/statemanager/JaliStateVector.h'],[('univalued storage','src/statemanager/JaliStateVector.h:UniStateVector'),('multivalued storage and layouts','src/statemanager/JaliStateVector.h:MultiStateVector')],(),['operator[], size(), copies'])
p('C20','The mesh factory honours its options and rejects invalid requests',
  "A factory builds a mesh exactly when the request is valid for the chosen framework (positive cell counts, positive extents, matching dimensions, at least two increasing nodes in 1D) and otherwise raises an error without returning a mesh; the mesh contains the entity kinds requested and spans the extents requested. Option setters and getters round trip, including and excluding kinds affects precisely those kinds, and resetting restores every option to its default.",
  ['inputs','configurations','histories'],'all argument values and sequences of option changes',
  'Tests cover a few error paths; option state and 1D equal-spacing construction are not checked.',
  ['src/mesh/mesh_factory/MeshFactory.cc','src/mesh/mesh_factory/MeshFactory.hh'],[('validation','src/mesh/mesh_factory/MeshFactory.cc:create'),('options','src/mesh/mesh_factory/MeshFactory.hh')],(),['create/operator(), option getters'])
p('C21','Error messages accumulate text in order and error policy is obeyed everywhere',
  "An error message object reports the concatenation, in order, of its initial text and everything appended to it, with integers and reals in their usual decimal form. Raising an error (Jali_throw) throws it with its message when the policy is to raise and terminates the process when it is to abort, whichever part of the library raises it, and the policy query returns the last policy set.",
  ['inputs','histories'],'all message fragments and policy changes, all raising sites',
  'Tests set and query the policy in one translation unit and append one or two fragments.',
  ['src/error_handling/errors.cc','src/error_handling/errors.hh','src/error_handling/exceptions.cc','src/error_handling/exceptions.hh'],[('append operators','src/error_handling/errors.cc'),('policy','src/error_handling/exceptions.hh:Jali_throw')],(),['what(), process outcome'])
p('C22','Distributed meshes agree across ranks on ownership and global numbering',
  "In a distributed mesh every entity is owned by exactly one rank, global ids are unique and agree between owner and ghost copies, and ghost layers have the requested depth.",
  ['configurations','schedules'],'all rank counts and meshes','Needs the distributed backend and multiple ranks.',
  ['src/mesh/mesh_mstk/Mesh_MSTK.cc'],[('distribution','src/mesh/mesh_mstk/Mesh_MSTK.cc')])
p('C23','Meshes read from files or generated by the unstructured backend are faithful',
  "A mesh read from an Exodus file, extracted from another mesh or generated by the unstructured backend has the connectivity, sets and coordinates of its source.",
  ['inputs'],'all files and sources','Backend is not built here.',
  ['src/mesh/mesh_mstk/Mesh_MSTK.cc'],[('import, extraction','src/mesh/mesh_mstk/Mesh_MSTK.cc')])
p('C24','Geometric results stay within rounding error of the exact value',
  "Computed areas, volumes, centroids and normals differ from the exact value by no more than a small multiple of machine precision relative to the extent of the shape.",
  ['inputs'],'all double precision inputs','Tests compare with loose tolerances on well scaled shapes.',
  [G],[('accumulation order',G)])
p('C25','Graph partitioners produce complete, balanced partitions',
  "Partitions obtained from the external graph partitioners cover every owned cell once and are balanced within the requested tolerance.",
  ['inputs','configurations'],'all meshes and part counts','The quality of the result is decided inside external libraries.',
  [M],[('METIS / Zoltan drivers',M+':get_partitioning_with_metis, get_partitioning_with_zoltan')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in props: f.write(json.dumps(q)+'\n')
for q in props:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
    n=q['statement'].count('. ')+1
    assert n<=3,(q['id'],n)
