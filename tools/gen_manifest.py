#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
T="explicit-state / stateless model checking: exhaustive enumeration of bounded executions of the real code against a reference model"
CORE={
"C01":"every insertion history up to the bound is executed on the real column code and compared step by step with an interval-union model",
"C02":"every lattice triangle (7^6 to 9^6 corner choices, several fields) is rasterised and compared with exact clipping of the triangle against each cell; tolerance of one voxel only where float rounding at a cell or voxel line is possible",
"C03":"every lattice triangle, winding and slope threshold, and every sequence of mesh parts up to the bound",
"C04":"every small heightfield, agent height and climb; the filters are compared with a direct relational specification",
"C05":"every small heightfield; the compact form is compared with a relational specification of floors and links; columns up to and beyond the layer limits",
"C06":"every floor plan of the families and radii; compared with shortest-path distances on the floor graph",
"C07":"every convex lattice volume and vertical range; compared with exact point-in-polygon tests",
"C08":"every floor plan of the families; compared with shortest-path distances on the floor graph",
"C09":"every floor plan of the families with all border/minimum/merge settings of the set; checked against the definition of a partition into connected single-area regions",
"C10":"every floor plan of the families; all boundary loops of all regions are enumerated by a reference walker on the floor graph and compared with the recorded outlines",
"C11":"every floor plan of the families and simplification setting; each simplified contour is embedded into its outline by exhaustive search and checked for tolerance, kept vertices, edge length and agreement between neighbouring regions",
"C12":"every floor plan of the families and mesh setting, and every simple lattice outline up to eight corners; exact integer comparison of the signed boundary chains of polygons and outlines",
"C14":"every floor plan of the relief and region families with seven mesh and sampling settings; the triangles of every polygon are checked by exact pairing of directed edges, orientation, outline walk and edge flags",
"C15":"the same meshes; every added vertex and every interior and edge sample position compared with the floor of the region (floor plan as ground truth)",
"C16":"every small scene of slabs, prisms and walls on a grid and every small triangle soup through the whole pipeline; the navmesh is compared with an independent walkability computation on the scene's geometry",
"C17":"every scene of the pair families under translations, vertex and triangle orders (all orders of few triangles) and repeated builds; the results are compared with each other",
"C18":"every floor plan of the families cut into two adjacent tiles; the portal edges of both tiles are compared with the floor links crossing the boundary and with each other",
"C19":"every insertion history, every build stage of every floor plan and scene of the families, and all combinations of boundary values; written and read in a text and a binary format, compared field by field and by continuing the build",
"C26":"the meshes of C14; both sides of every edge shared by two polygons of one region are compared with each other",
"C27":"every small scene sent over the loopback interface, and every history of loads, failing loads, builds, switches and frames up to the bound on the editor's own modules, compared with a model of the scene, the navmesh and the displays after every step",
"C28":"every sequence of clicks and every history of keys, mouse buttons, mouse moves and wheel up to the bound on the editor's own user interface and camera, compared after every step with a model of dialog, scene, displays, view and speed",
"C29":"every history of writes to a floor, every value of every packed field, every id, every coordinate in and around every small field, and every list of polygons up to the bound; every read compared with what was stored",
"C25":"every floor plan of the families and setting; connected components of the polygon mesh compared with reachability on the floor graph",
"C20":"every combination of mesh attributes, index widths and topologies, every pair of image and material parameter choices, every assignment of textures for up to two materials, and every single-byte, bit, character, length and truncation fault of encoded payloads; sent and received by the real code and compared field by field",
"C21":"every world of up to three objects over meshes, materials, visibility, opt-in and placement, every short edit history and every combination of missing parts; the real request handler's answer compared with the world",
"C22":"every shape kind with its parameter set, every compound of up to three parts and every small world and edit history; the backend's triangles compared with the shape's geometry (exact for polyhedra; closedness, outwardness, surface distance and volume for curved shapes)",
"C23":"every index sequence, width, topology and attribute layout of small meshes, every world of two objects and every edit history of length three; compared with the mesh's own triangles",
"C24":"every history of registrations, world edits, requests and updates up to the bound; compared with a model of the source in effect, and of the set of live handles",
"C13":"every mesh of the same families; neighbours and portals recomputed from vertex pairs, plus meshes with more than 65535 edges",
}
NOTE="Exhaustive within the stated bounds (no sampling); assumes behaviour outside the bounds follows the same code paths. Trusts the reference model in /verif/%s and the Rust toolchain. "
def main():
    props=[json.loads(l) for l in open('/verif/properties.jsonl')]
    checks=[];na=[]
    for p in props:
        i=p['id']
        if i in CORE:
            checks.append(dict(property=i,quick_cmd=f"/verif/check.sh {i} quick",thorough_cmd=f"/verif/check.sh {i} thorough",technique=T,level="model_checking",level_note=NOTE%('mcbevy' if 'C20'<=i<='C24' else 'mcedit' if i in('C27','C28') else 'mc')+CORE[i]+"."))
        else:
            na.append(dict(property=i,reason="check not built yet"))
    m=dict(version=1,setup_cmd="/verif/setup.sh",checks=checks,not_applicable=na,notes="No hooks in /repo: all checks use the public API. See DESIGN.md.")
    json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
main()
