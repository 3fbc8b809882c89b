"""Per property: how many cases each tier generates, and what counts as non-trivial."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
def known():
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("known: "):
            _, p, i, what = l.rstrip("\n").split(" ", 3); out.append(dict(property=p.split("=")[1], id=i.split("=")[1], what=what, status="known"))
    return out
DOM = "random outline (rectangle, regular, convex, star, rectilinear L/U/T/Z/comb/stairs/spiral/plus, monotone, outlines of lattice cells, winding ones, many-sided ones; optional collinear vertices, clockwise, rotated start, scaled/mirrored/turned/translated, far away, listed closed), 0-3 disjoint holes (polygons, circles), seeds (random, grid, hexagonal, cocircular, clustered, on a line; duplicates; on the boundary)"
PLAN = {
 "P01": dict(quick=48000, thorough=400000, rule=DOM + "; non-trivial when the diagram has more cells than outline vertices"),
 "P02": dict(quick=24000, thorough=150000, rule=DOM + "; non-trivial when there are more generators than outline vertices; every cell is probed near all its corners plus 40 random points"),
 "P03": dict(quick=48000, thorough=400000, rule=DOM + "; one of Voronoi+companion, constrained, conforming, restricted meshes; non-trivial when a mesh has more than 4 elements"),
 "P04": dict(quick=64000, thorough=500000, rule=DOM + " (some seeds outside); non-trivial when there is at least one seed"),
 "P05": dict(quick=64000, thorough=500000, maxlen=800, rule=DOM + " and 1-4 restricted segments between seeds, domain vertices, new points or ends of each other, crossing or not, or on a lattice through seeds, along boundaries, overlapping and repeated; non-trivial when at least one segment is restricted"),
 "P06": dict(quick=64000, thorough=500000, rule=DOM + "; non-trivial when there is a seed or a boundary segment was split"),
 "P07": dict(quick=64000, thorough=500000, rule=DOM + "; non-trivial when a mesh has at least one vertex that is not flagged as boundary"),
 "P08": dict(quick=32000, thorough=250000, rule="sequences of 1-6 holes (polygons, circles, self-made rectangles; inside, crossing the outline, sharing edges, covering, dividing, outside, overlapping or around earlier ones) added to generated outlines, before or after seeds; non-trivial when a hole was listed, cut the outline or was rejected"),
 "P09": dict(quick=48000, thorough=400000, rule="histories of 1-12 seed additions (lists, rules with grids, files), hole insertions, clears and copies on generated regions against a list model; non-trivial when points were added and some of them dropped"),
 "P10": dict(quick=320000, thorough=4000000, rule="all generator rule pairs, 1-12 x 1-12 (some up to 300) points, random boxes, the same generator used several times and copied, and noise rules; non-trivial when there are at least two rows and two columns"),
 "P11": dict(quick=96000, thorough=800000, rule=DOM + "; polygons, regions, holes and boxes probed at vertices, on edges, near edges, near vertex heights and anywhere; non-trivial when points inside, outside and on the border were probed"),
 "P12": dict(quick=128000, thorough=1000000, rule="simple polygons of all outline families under copies, repeated queries, orientation fixes and new point lists; non-trivial when at least three different queries were made during the history, or the outline crosses itself"),
 "P13": dict(quick=320000, thorough=4000000, rule="points and segments on lattices, general, collinear, touching, parallel, crossing; non-trivial when the two segments share a point or are parallel"),
 "P14": dict(quick=24000, thorough=200000, rule="meshes, regions and Triangle inputs of all outline families and hand-built meshes with large indices, printed at precisions 0-15, read back by an independent parser; non-trivial when the printed object has more than the minimal content (over 4 elements, seeds, or over 2-3 map entries)"),
 "P15": dict(quick=8000, thorough=60000, maxlen=500, rule="mesh files made from quadrangulated/triangulated lattices with repeated points, zero- and one-based, extra blanks, plus the library's own output; non-trivial when there are more than 2 elements"),
 "P16": dict(quick=128000, thorough=1200000, maxlen=300, rule="histories of 1-40 operations on up to 4 unique lists of int, double and Point (some with bulk additions) against a sequence model; non-trivial when there were 4 additions, a repeated one and a removal"),
 "P17": dict(quick=96000, thorough=800000, rule="simple polygons of all outline families embedded in larger point lists; non-trivial when there are more than 3 vertices"),
 "P18": dict(quick=24000, thorough=150000, rule=DOM + "; meshed twice: as given, and after a random combination of seed shuffles and repetitions, rotated or reversed listing of the outline and the holes, outside seeds, and a similarity of the plane, also together with the tolerance; non-trivial when there are at least two distinct seeds and the figures were compared"),
 "P19": dict(quick=128000, thorough=1200000, rule="histories of 1-40 operations on segment maps (with colliding hash keys) and point maps (some in bulk) against keyed models; non-trivial when an edge got a second neighbour after at least 4 updates, or a position was repeated"),
 "P20": dict(quick=24000, thorough=150000, rule=DOM + "; histories of 1-8 generator calls of all kinds with changes of the arguments between them, against fresh generators; non-trivial when more than one call was made"),
 "P21": dict(quick=24000, thorough=200000, rule="valid inputs mutated into invalid ones (crossing point lists, missing, truncated, non-numeric, oversized or out-of-range file fields), and their valid originals; non-trivial when something had to be rejected"),
 "P22": dict(quick=320000, thorough=3000000, rule="circles, arcs and circular holes of any centre, radius, grade 3-200 and angle range; non-trivial when the grade is not the default 12"),
 "P23": dict(quick=128000, thorough=1000000, rule="histories of configuration changes and of operations whose outcome depends on them; non-trivial when parameters were set and then used"),
 "P24": dict(quick=192000, thorough=2000000, rule="point sets (random, lattice, circular, collinear runs, repeated) and triangles; non-trivial when there are more than 3 points, or a triangle is tested"),
 "P25": dict(quick=320000, thorough=3000000, rule="each utility function at generated arguments including extremes; non-trivial when the arguments are not zero or empty"),
}
