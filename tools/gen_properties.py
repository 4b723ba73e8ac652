#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Source of truth for the property texts."""
import json, os
R="crates/rerecast/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

E_="crates/bevy_rerecast_editor/src/"
p("C01","Heightfield columns are the sorted, disjoint union of everything voxelised",
 "After any sequence of solid pieces has been added to a voxel column, the column holds, bottom to top, exactly the union of those vertical ranges as disjoint, non-touching solid ranges, and no other column changes. The order in which the pieces arrive never changes which voxels are solid; when a piece meets existing ranges, the merged range takes the highest area id among the piece and those ranges, except that an existing range whose top lies more than the merge threshold away from the merged top (judged bottom to top as ranges are absorbed) has no say.",
 ["histories","inputs"],"every sequence of insertions (vertical range, area, column, merge threshold) up to a bounded length",
 "Unit tests insert at most two ranges; overlap, touching, containment, bridging of several ranges and area precedence depend on the whole insertion history.",
 [R+"heightfield.rs",R+"rasterize.rs",R+"span.rs"],[("span insertion and merging",R+"heightfield.rs add_span")],
 ["the span lists of a heightfield after rasterising triangles"],None,[("column span list","linked list of solid ranges of one column",R+"heightfield.rs Heightfield::spans/allocated_spans")])
p("C02","Rasterisation voxelises exactly the cells and heights a triangle occupies",
 "Adding a triangle to a heightfield makes solid, in every grid cell whose interior its ground projection meets, exactly the vertical voxel range spanned by the part of the triangle inside that cell, clipped to the field's bounds and at least one voxel tall. Cells the triangle does not touch are left untouched, whatever the triangle's size, orientation, winding or position relative to the field, including straddling or lying outside it.",
 ["inputs"],"every triangle with corners on a lattice that extends beyond the field on all sides, every field origin and cell size of a bounded set",
 "The only rasterisation test is one recorded scene; clipping cases (vertex on a cell line, vertical or degenerate triangles, triangles crossing the field's border) are input-specific.",
 [R+"rasterize.rs",R+"heightfield.rs",R+"math.rs"],[("polygon clipping per row and column",R+"rasterize.rs divide_poly, rasterize_triangle"),("grid sizing",R+"heightfield.rs HeightfieldBuilder::build")],
 ["heightfield contents after rasterising triangles"])
p("C03","Triangle meshes keep geometry when combined, and only gentle slopes are walkable",
 "Combining triangle meshes keeps every triangle of each part at the same positions, with the same winding and area; the reported bounding box is the tightest box around all vertices. Marking by slope makes exactly those triangles walkable whose upward-facing normal deviates from vertical by less than the given angle, and never changes another triangle's area.",
 ["inputs","histories"],"every sequence of mesh parts up to a bound; every lattice triangle, winding and slope threshold of a bounded set",
 "There are no tests of mesh combination or slope marking; wrong index offsets or winding only show for particular combinations.",
 [R+"trimesh.rs",R+"math.rs"],[("index offsetting",R+"trimesh.rs extend"),("slope test",R+"trimesh.rs mark_walkable_triangles")],["TriMesh fields"])
p("C04","Walkability filters keep exactly the floors an agent can stand on",
 "Of the solid surfaces marked walkable, filtering removes exactly those without the required headroom and those next to a drop, or on a slope, larger than the climb height; it re-admits exactly the unwalkable surfaces that sit at most the climb height above a surface that was walkable before filtering in the same column. Filtering never changes the solid geometry, and combined population of a field applies the same filters after all triangles have been added.",
 ["inputs","configurations"],"every small heightfield (all column contents up to a bound on size, heights, layers) with every agent height and climb of a bounded set",
 "No unit test covers the filters apart from one recorded scene; neighbour and layer combinations are exponential.",
 [R+"pre_filter.rs",R+"heightfield.rs"],[("three filters",R+"pre_filter.rs"),("populate_from_trimesh order",R+"heightfield.rs populate_from_trimesh")],["areas of heightfield spans"])
p("C05","Compacting keeps every walkable floor and links exactly traversable neighbours",
 "Converting a solid heightfield to its open-space form yields exactly one floor per walkable solid surface, in column order, with the correct floor height, clearance (to the next solid above, at most 255 voxels) and area. Two floors of adjacent cells are linked if and only if the common clearance is at least the agent height and the step is at most the climb height (the lowest such floor wins), links are reported with the right neighbour position, and a field with more layers than can be represented is reported as an error rather than crashing or being mislinked.",
 ["inputs","configurations"],"every small heightfield with every agent height and climb of a bounded set, plus columns up to and beyond the layer limits",
 "Tested only through one recorded scene; link rules are a relation over all pairs of adjacent columns.",
 [R+"compact_heightfield.rs",R+"compact_cell.rs",R+"compact_span.rs"],[("span conversion and neighbour search",R+"compact_heightfield.rs into_compact"),("packed links",R+"compact_span.rs")],["cells, spans, links and areas of a compact heightfield"])
p("C06","Erosion removes exactly the floor closer to an obstacle than the agent radius",
 "Eroding by an agent radius makes unwalkable exactly the floors whose walking distance (2 per straight step, 3 per diagonal step, through linked floors) to the nearest floor that is unwalkable or lacks a linked walkable neighbour on some side is less than twice the radius. All other floors keep their area.",
 ["inputs","configurations"],"every small floor plan, including several layers, ledges and all area layouts, with every radius of a bounded set including very large ones",
 "Tested only through one recorded scene with one radius.",
 [R+"erosion.rs"],[("two-pass chamfer distance",R+"erosion.rs erode_walkable_area")],["areas of a compact heightfield"])
p("C07","Area volumes repaint exactly the walkable floor inside them",
 "Marking a convex volume sets the volume's area on exactly the walkable floors whose cell centre lies inside the polygon and whose height lies within the volume's vertical range (in whole voxels, rounded down), and leaves every other floor (including unwalkable ones) unchanged. This holds for any winding, and for volumes partly or wholly outside the field.",
 ["inputs"],"every convex lattice polygon (up to four corners, both windings) in and around small fields, with every vertical range of a bounded set",
 "One recorded volume in one scene.",
 [R+"mark_convex_poly_area.rs",R+"math.rs"],[("footprint clamp and point-in-polygon",R+"mark_convex_poly_area.rs")],["areas of a compact heightfield"])
p("C08","Border distances are exact for every floor",
 "The distance field gives every floor its walking distance (2 per straight step, 3 per diagonal) to the nearest floor on the border of its area, smoothed over the 3x3 neighbourhood where it exceeds two, and reports the largest unsmoothed distance. It is defined for any field, including one without any walkable floor.",
 ["inputs"],"every small floor plan with all area layouts, including layered ones and empty ones",
 "Only one recorded scene; border cases are layout-specific.",
 [R+"watershed_distance_field.rs"],[("two-pass distance and box blur",R+"watershed_distance_field.rs")],["dist and max_distance of a compact heightfield"])
p("C09","Regions partition the walkable floor",
 "Partitioning assigns every walkable floor outside the border strip to exactly one region, except floors of connected pieces smaller than the minimum region size that do not touch the border strip; every region is connected, has a single area type and never lies above itself. Region ids lie between 1 and the reported maximum, border-strip floors carry border ids, unwalkable floors carry none, and running out of region ids is reported as an error.",
 ["inputs","configurations"],"every small floor plan with all area layouts and every border, minimum and merge size of a bounded set, and structured families of larger and layered plans",
 "Only one recorded scene; region growing depends on the whole floor plan.",
 [R+"watershed_build_regions.rs",R+"region.rs"],[("watershed flooding and expansion",R+"watershed_build_regions.rs build_regions"),("merge and filter",R+"watershed_build_regions.rs merge_and_filter_regions")],["region of every span, max_region"])
p("C10","Contours trace every region boundary exactly once",
 "The unsimplified contours contain, for every region, every boundary edge of the region exactly once, in a closed loop with a consistent orientation, labelled with the region (or none) on the other side and with whether the area changes there; only single-floor regions and loops that simplify to fewer than three corners are left out. Corner heights are the highest floor meeting at the corner, and coordinates are relative to the field without its border strip.",
 ["inputs","configurations"],"every small floor plan with all region/area layouts, with and without a border strip",
 "Only one recorded scene.",
 [R+"contours.rs"],[("boundary walk",R+"contours.rs walk_contour_build"),("corner heights",R+"contours.rs get_corner_height")],["raw vertices of the contour set"])
p("C11","Simplified contours stay within the allowed error and meet at portals",
 "Every vertex of a simplified contour is a vertex of its unsimplified loop, in the same cyclic order, and (before edge splitting, which only adds vertices) every unsimplified wall vertex lies within the permitted error of the simplified edge that replaces it. Vertices where the neighbouring region changes are always kept, so two regions that see the same stretch of shared border simplify it to the same segments. Where requested, wall or area edges longer than the maximum edge length are split until they fit or cannot be split.",
 ["inputs","configurations"],"every small floor plan with all region layouts, plus structured long walls, with every error and edge-length setting of a bounded set",
 "One recorded scene with one setting.",
 [R+"contours.rs"],[("Douglas-Peucker simplification and edge splitting",R+"contours.rs simplify_contour")],["simplified vertices of the contour set"])
p("C12","Navmesh polygons are convex and tile each region outline exactly",
 "For every set of outlines that enclose an area and do not cross themselves the polygon mesh is built without failing, every polygon is convex with at least three and at most the configured number of distinct corners in a consistent winding, and refers only to existing vertices. The polygons of a region tile its simplified outline, holes excluded, without gaps or overlaps, and carry that region's id and area. Every per-polygon list has one entry per polygon; only polygons spanning several regions, left where border-strip vertices were removed, carry no region id.",
 ["inputs","configurations"],"every small floor plan with all region/area layouts and all polygon sizes from 3 up, including regions with holes",
 "One recorded scene without holes or thin corridors.",
 [R+"poly_mesh.rs",R+"contours.rs"],[("ear clipping",R+"poly_mesh.rs triangulate"),("polygon merging",R+"poly_mesh.rs get_poly_merge_value/merge_poly_verts")],["PolygonNavmesh fields"])
p("C13","Polygon adjacency is symmetric and complete",
 "Two polygons are neighbours across an edge if and only if they share that edge's two vertices in opposite directions, the relation is symmetric, and every other edge is a solid border. In a mesh built with a border strip, unshared edges lying on the tile's boundary, and only those, are marked as portals to the matching side.",
 ["inputs","configurations"],"every small floor plan with all region/area layouts, polygon sizes and border widths of a bounded set",
 "One recorded scene without a border strip.",
 [R+"poly_mesh.rs"],[("edge matching",R+"poly_mesh.rs build_mesh_adjacency"),("portal marking",R+"poly_mesh.rs into_polygon_mesh")],["polygon_neighbors"])
p("C14","The detail mesh triangulates every polygon completely",
 "Every navmesh polygon has one detail sub-mesh, in polygon order, whose vertex and triangle ranges are contiguous and complete, whose first vertices are the polygon's corners in ground position and whose triangles index only its own vertices, face up and tile the polygon without gaps or overlaps. A triangle edge is flagged as boundary exactly when it lies on the polygon outline, and the documented vertex and triangle limits hold, for every permitted sampling setting including no sampling.",
 ["inputs","configurations"],"every small floor plan and height layout, with every sampling distance and error of a bounded set including zero",
 "One recorded scene with one setting.",
 [R+"detail_mesh.rs"],[("edge tessellation, hull triangulation, Delaunay insertion",R+"detail_mesh.rs build_poly_detail"),("boundary flags",R+"detail_mesh.rs set_tri_flags")],["DetailNavmesh fields"])
p("C15","The detail surface follows the walkable floor",
 "The detail mesh's corners have the polygon's heights, and every added vertex lies at the height of its own region's floor at that ground position or, at the rim, within two voxels of the floor or outline next to it, never at another storey. At every sampled floor position of an ordinarily sized polygon of one region the surface is within the permitted error of the floor. Sampling never moves a vertex outside the polygon's outline.",
 ["inputs","configurations"],"every small height layout (steps, ramps, bumps, stacked storeys) with every sampling setting of a bounded set",
 "One recorded scene.",
 [R+"detail_mesh.rs"],[("height patch and flood fill",R+"detail_mesh.rs HeightPatch"),("error-driven sampling",R+"detail_mesh.rs build_poly_detail")],["DetailNavmesh vertices"])
p("C16","Any static scene yields a navmesh only where the agent fits, without crashing",
 "Building a navmesh from any well-formed triangle scene with any valid settings terminates without a panic, also for empty scenes and for scenes without walkable ground. Every point of the resulting navmesh lies, up to the configured simplification error, over floor that is walkable in slope, headroom and distance to obstacles, and every isolated floor large enough to be kept is covered by the navmesh; an outline that crosses itself may be reported as an error instead.",
 ["inputs","configurations"],"every small scene assembled from boxes, ramps, holes, bridges and walls on a grid, with every configuration of a bounded set",
 "One recorded scene and settings.",
 [R+"heightfield.rs",R+"compact_heightfield.rs",R+"poly_mesh.rs",R+"detail_mesh.rs",R+"config.rs"],[("whole pipeline",R+"lib.rs")],["PolygonNavmesh and DetailNavmesh of a scene"])
p("C17","Navmesh generation is deterministic and independent of placement",
 "Building the same scene twice gives identical results. Moving a scene and its bounds by whole cells moves the navmesh by exactly as much and changes nothing else, and neither unused or reordered vertices nor (when all triangles have one area) the order of triangles or their corners' rotation changes the result.",
 ["inputs","configurations"],"every small scene of the end-to-end family, each of its vertex/triangle orderings and translations of a bounded set",
 "No test compares two runs.",
 [R+"rasterize.rs",R+"heightfield.rs",R+"watershed_build_regions.rs",R+"poly_mesh.rs",R+"detail_mesh.rs"],[("no hidden state, grid-relative arithmetic",R+"*")],["PolygonNavmesh and DetailNavmesh"])
p("C18","Tiles built with a border strip agree with their neighbours",
 "A tile built with a border strip contains navmesh only inside the tile proper, its navmesh coordinates are relative to the tile's own corner, and no vertex that only exists because of the strip remains where it can be removed. Where walkable floor crosses the boundary between two adjacent tiles, both tiles expose portal edges covering that stretch at the same height, and nowhere else do portals of the two tiles meet (up to simplification).",
 ["inputs","configurations"],"every small floor plan split over two adjacent tiles, with every border width of a bounded set",
 "No test builds with a border strip.",
 [R+"poly_mesh.rs",R+"contours.rs",R+"watershed_build_regions.rs",R+"detail_mesh.rs"],[("border regions and border vertices",R+"contours.rs get_corner_height"),("vertex removal",R+"poly_mesh.rs can_remove_vertex/remove_vertex")],["portal edges of both tiles"])
p("C19","Every serialisable navmesh type survives a round trip",
 "Serialising any heightfield, compact heightfield, triangle mesh, polygon navmesh or detail navmesh and reading it back yields an equal value that behaves the same in all later build steps. This holds for text and binary formats alike.",
 ["inputs","histories"],"every value reachable in the bounded build histories, in a text and a binary format",
 "Only one recorded scene is deserialised; nothing is round-tripped.",
 [R+"span.rs",R+"compact_span.rs",R+"poly_mesh.rs",R+"detail_mesh.rs"],[("serde derives",R+"*")],["serialised values"])
p("C20","Editor transport keeps meshes, images and materials intact",
 "Any mesh, image or material sent to the editor arrives with the same vertex attributes, indices, topology, pixel data, sampler, size, format and material parameters; a material's textures keep pointing at the right images (labels, view formats and the asset usage of images are not kept). Deserialising a malformed payload reports an error and never crashes; vertex attributes the transport does not know are dropped, never misread.",
 ["inputs"],"every combination of attribute sets, index widths, topologies and image/material parameters of a bounded set",
 "No test covers the transport.",
 ["crates/bevy_rerecast_editor_integration/src/transmission"],[("serialised mirror types","crates/bevy_rerecast_editor_integration/src/transmission")],["round-tripped assets"])
p("C21","The editor receives every visible object exactly once, with valid references",
 "The answer to an editor request lists exactly the visible objects that opted in, each with its world transform and references to the mesh and material it uses; references always point at the right entry and an asset shared by several objects is sent once. An object whose mesh is not loaded is left out; an object whose material or one of whose textures is not loaded is listed without material. The answer holds the obstacle geometry the current geometry source returns, each piece with its transform; a missing asset store, a missing geometry source or unexpected parameters are reported as errors.",
 ["histories","inputs"],"every small world: all assignments of meshes, materials, visibility and opt-in to a bounded number of objects in every spawn order",
 "No test covers the request handler.",
 ["crates/bevy_rerecast_editor_integration/src/brp.rs","crates/bevy_rerecast_editor_integration/src/lib.rs"],[("index de-duplication","crates/bevy_rerecast_editor_integration/src/brp.rs"),("opt-in observer","crates/bevy_rerecast_editor_integration/src/lib.rs")],["response of the remote method"])
p("C22","Colliders become obstacle geometry at their true place and shape",
 "Every static-body collider contributes triangles that reproduce its shape at its world position and rotation, also when it is a part of a compound collider, and colliders of moving bodies contribute nothing. All contributed triangles start out unwalkable, their winding faces outward, and adding one collider never changes the geometry contributed by another.",
 ["inputs","histories"],"every shape kind, every compound of up to three parts, and every small world of static/dynamic/kinematic bodies with positions and rotations of a bounded set",
 "The only test is for one sphere-like shape at the origin.",
 ["crates/avian_rerecast/src/collider_to_trimesh.rs","crates/avian_rerecast/src/lib.rs"],[("shape conversion","crates/avian_rerecast/src/collider_to_trimesh.rs"),("backend query","crates/avian_rerecast/src/lib.rs")],["TriMesh returned by the backend"])
p("C23","Render meshes become obstacle geometry at their true place",
 "Converting an indexed triangle-list render mesh with 16-bit or 32-bit indices yields exactly its vertices and the triangles it draws, in order and winding, all unwalkable; any other mesh (other topology, no indices, an index count that is not a multiple of three, no three-float positions) yields nothing. The mesh-based obstacle source contributes exactly the objects that have a world transform and a loaded convertible mesh, each with its own current world transform.",
 ["inputs","histories"],"every small mesh (index sequences, widths, topologies) and every small world of objects with transforms of a bounded set",
 "No test covers the conversion.",
 ["crates/bevy_rerecast_core/src/mesh.rs"],[("mesh conversion","crates/bevy_rerecast_core/src/mesh.rs")],["TriMesh returned by the conversion and backend"])
p("C24","Backend selection and navmesh requests follow their history",
 "At every point of a history the geometry source in effect is the one registered last, it is consulted exactly when requested, and it sees the current world. Every navmesh request returns a new, distinct handle.",
 ["histories"],"every interleaving of backend registration, geometry requests, world edits and navmesh requests up to a bounded length",
 "No test covers either.",
 ["crates/bevy_rerecast_core/src/backend.rs","crates/bevy_rerecast_core/src/generator.rs"],[("backend resource","crates/bevy_rerecast_core/src/backend.rs"),("handle reservation","crates/bevy_rerecast_core/src/generator.rs")],["NavmeshAffectorBackend and NavmeshGenerator"])
p("C25","A polygon mesh can be walked like its floor",
 "Two floor cells in the middle of kept floor that are reachable from each other on foot are covered by navmesh polygons connected through neighbour links, and polygons linked with each other cover floors reachable from each other. The navmesh never connects floors separated by a wall, a gap or a drop. Winding floors around a corner without a core and floors that drop deeply within one region are outside this property.",
 ["inputs","configurations"],"every small floor plan including several storeys, ramps and area layouts, with every setting of a bounded set",
 "One recorded scene; reachability is a global property of each plan.",
 [R+"poly_mesh.rs",R+"contours.rs",R+"watershed_build_regions.rs"],[("portal vertices kept during simplification",R+"contours.rs simplify_contour"),("adjacency",R+"poly_mesh.rs build_mesh_adjacency")],["connected components of polygon_neighbors"])
p("C26","Neighbouring polygons of a region meet without a seam in the detail mesh",
 "Along an edge shared by two polygons of one region, below which the floor of that region extends all the way, the detail meshes of both polygons have the same vertices at the same heights, whatever the sampling setting and wherever the two polygons lie, unless the outline of one of them alone comes close to the vertex limit of a polygon.",
 ["inputs","configurations"],"every small floor plan and height layout, with every sampling setting of a bounded set",
 "One recorded scene; a seam needs heights that differ between the two polygons' views of their common edge.",
 [R+"detail_mesh.rs"],[("edge samples taken in the same order from both sides",R+"detail_mesh.rs build_poly_detail"),("height patch per polygon",R+"detail_mesh.rs HeightPatch")],["DetailNavmesh vertices of neighbouring polygons"])
p("C27","The editor shows exactly the scene it loaded and the navmesh it built",
 "After every sequence of loading scenes, building and switching displays, the editor holds exactly the objects of the last scene loaded successfully, each with its mesh, material and place, and its obstacles in their true shape and place; a failed load or build reports an error and changes nothing. A build gives what the library's pipeline gives for exactly these obstacles in world space. Visual objects, obstacle outlines, polygon mesh and detail mesh are displayed exactly while switched on, and after a build they show the new navmesh completely.",
 ["histories","inputs"],"every sequence of loads, failing loads, builds, switches and frames up to a bounded length, and every small scene",
 "The editor has no tests; defects need a certain order of switching and loading.",
 [E_+"get_navmesh_input.rs",E_+"build.rs",E_+"visualization.rs"],[("request and spawning",E_+"get_navmesh_input.rs fetch_navmesh_input"),("pipeline",E_+"build.rs build_navmesh"),("run conditions of the displays",E_+"visualization.rs plugin")],["editor world: entities, components, gizmos, Navmesh resource"])
p("C28","The editor's buttons, switches and camera do what they say",
 "After every sequence of clicks, \"Load Scene\" has opened one dialog, \"x\" has closed it without further effect, \"Load\" has closed it and asked the game exactly once, \"Build Navmesh\" has built once, and each \"Show ...\" button has switched exactly the display it names; every button has the colour of its state (idle, hovered, pressed, disabled). The camera flies and turns only while the cursor is grabbed (right button held, or switched on by M), and the cursor of the focused window is locked and hidden exactly then; apart from that it only comes to rest. It flies in the direction of the keys held relative to its view (E and Q straight up and down, opposite keys cancel) at walking speed, with shift at three times that; each step of the wheel changes the speed by a tenth; after the keys are let go its velocity halves every frame. The mouse turns the view, which never rolls and never tilts beyond straight up or down.",
 ["histories","inputs"],"every sequence of clicks, and every history of keys, buttons, wheel and mouse over several frames, up to a bounded length",
 "The editor has no tests; state is carried over from click to click and from frame to frame.",
 [E_+"ui.rs",E_+"theme",E_+"camera"],[("buttons and dialog",E_+"ui.rs"),("colours",E_+"theme/interaction.rs apply_interaction_palette"),("camera",E_+"camera/camera_controller.rs run_camera_controller")],["clicks sent to the buttons; camera Transform, Window cursor options, button colours"])
p("C29","Floors, cells, ids and polygons read back what is stored in them",
 "After any history of writes to a floor or cell (links to neighbours up to number 62, clearance, height, region, first floor and number of floors), every read gives what was stored there last, and a write changes nothing else. Looking up a column of a heightfield or a cell of a compact heightfield by coordinates gives exactly that column; coordinates outside the field find nothing (or panic where the function says so), never another column. A link leads to the floor it numbers in the neighbouring cell. Iterating a mesh gives every polygon once, in order, with exactly its vertices.",
 ["histories","inputs"],"every history of writes up to a bounded length, every value of each field, every coordinate in and around small fields, every list of polygons up to a bounded length",
 "Unit tests store five links and one height and read each back once; several values share one word, and lookups outside a field are never tried.",
 [R+"compact_span.rs",R+"compact_cell.rs",R+"compact_heightfield.rs",R+"heightfield.rs",R+"poly_mesh.rs",R+"region.rs"],[("packed links and clearance",R+"compact_span.rs set_con, con, set_height"),("lookups",R+"compact_heightfield.rs get_cell_at, cell_at, con_indices; heightfield.rs span_key_at"),("polygon iteration",R+"poly_mesh.rs polygons")],["return values of the accessors"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
