#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
LIB = "image-palette-recoloring/src/lib.rs"; PAL = "image-palette-recoloring/src/palette.rs"
TRI = "image-palette-recoloring/src/triangle_distance.rs"
HULL = "qhull-rs/src/convex_hull.rs"; DEL = "qhull-rs/src/delaunay.rs"; RAW = "qhull-rs/src/raw.rs"
EXT = "qhull-sys/src/ext.c"
CABI = "image-palette-recoloring-c/src/lib.rs"; CH = "image-palette-recoloring-c/image-palette-recoloring.h"
CLI = "image-palette-recoloring-cli/src/main.rs"
JS = "image-palette-recoloring-web/src/js/index.js"; WW = "image-palette-recoloring-web/src/js/webworker.js"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
NOIMG = "No existing test builds an image: the stable tests only cover the distance helpers and a few hull/triangulation examples."

p("R01", "Reconstructing with the decomposition palette gives the original image back",
  "When every colour of an image lies inside the convex hull of a valid palette, decomposing the image with that palette and reconstructing it with the same palette returns the original image, with every component of every pixel within one level of the original. This holds for every image shape, for images of their own and for views of a part of a larger one (whose other pixels don't matter), for every palette order, and number of palette colours, and for every decomposition made from the same weights.",
  ["inputs", "histories"], "all RGB images and all valid palettes (in any order) enclosing their colours; all sequences of decompositions from one set of weights",
  NOIMG + " The guarantee quantifies over all images and palettes.",
  [LIB, PAL, DEL], ["per-pixel barycentric weights times star coordinates of the hull pixels", "mapping from hull vertices to palette positions"],
  [("weights", "sparse per-pixel weights over the hull pixels of the image")])
p("R02", "Colours outside the palette's hull become the nearest colour of the hull",
  "When a palette's hull does not enclose an image's extreme colours, reconstructing with the decomposition palette replaces each such extreme pixel's colour by the point of the palette's hull that is nearest to it (within one level), whether that point lies on a face, an edge or at a corner. No reconstructed pixel ever leaves the palette's hull by more than one level.",
  ["inputs"], "all images and all valid palettes that do not enclose the image; pixels that are vertices of the image's hull are fixed exactly, the others by containment",
  "The tests check the distance helper on a handful of triangles and never a palette, so neither the choice of facet nor the fallback simplex is reached.",
  [PAL, TRI], ["projection on the closest facet", "solving in the simplex that holds the projected point"])
p("R03", "Recolouring is one linear, convex mix of the palette per pixel",
  "A decomposition gives each pixel non-negative weights over the palette colours that add up to one, the grayscale layers show these weights, and reconstructing with any other palette of the same size mixes that palette's colours with exactly these weights. In particular a replacement palette of one single colour yields that colour everywhere, no component leaves the range spanned by the replacement palette, and changing one palette colour leaves pixels of zero weight alone.",
  ["inputs"], "all images, valid decomposition palettes, replacement palettes and layer numbers",
  NOIMG + " Partition of unity and linearity quantify over every pixel and every replacement palette.",
  [LIB, PAL], ["weight matrix times palette matrix, clamped", "grayscale export of one column"])
p("R04", "Each extreme pixel mixes the darkest palette colour and one opposite face",
  "A pixel whose colour is a vertex of the image's colour-and-position hull is mixed from at most four palette colours: the one nearest to black and the (up to three) colours of one face of the palette's hull, with the barycentric coordinates of the colour (or of its nearest hull point) in that tetrahedron. A pixel that has exactly a palette colour therefore is that layer's pure white and every other layer's black.",
  ["inputs"], "all images and valid palettes, including ties for the darkest colour and faces with more than three colours, where any such choice is accepted",
  NOIMG + " Which tetrahedron a pixel is mixed from depends on the whole palette.",
  [PAL], ["star triangulation of the palette's hull from the colour closest to black"])
p("R05", "Exactly the palettes without redundant colours are accepted",
  "A palette can be used for a decomposition if and only if it has at least four colours, no colour twice, not all colours in one plane, and every colour is a vertex of the hull of all colours. Every other palette, of any length (also empty), is refused with an error value - never by a crash - and refusing one changes nothing for later decompositions from the same weights.",
  ["inputs", "histories"], "all lists of colours of any length, in any order; sequences of accepted and refused palettes on the same weights",
  "No test passes a palette; redundancy is a global geometric condition on all subsets of colours.",
  [LIB, PAL], ["validation before the star triangulation"])
p("R06", "Image sizes, layer counts and size mismatches are reported exactly",
  "Weights and decompositions report the width and height of the image they were made from, a decomposition has as many layers as its palette has colours, and every image it returns has the original's width and height with pixels in the original row-major places and layers in palette order. Asking for a layer that does not exist, or reconstructing with a palette of another size, returns nothing instead of an image, and neither affects any later answer.",
  ["inputs", "histories"], "all image shapes (tall, wide, one pixel more or less), palette sizes and sequences of valid and invalid requests",
  NOIMG, [LIB], ["bounds check on the channel number", "length check on the replacement palette", "row-major pixel addressing"])
p("P01", "A computed palette is always a usable decomposition palette",
  "For every image whose colours do not lie in one plane and all size and error limits, the computed palette has at least four distinct colours, none of them redundant, so that it is accepted for decomposing that image. It has at least the requested minimum number of colours, unless the hull of the image's colours itself has fewer corners.",
  ["inputs", "configurations"], "all images with four or more colours that are not coplanar; all minimum and maximum sizes and error bounds, including zero, negative and unbounded",
  NOIMG + " Clamping after a long chain of collapses is what breaks it, on rare images only.",
  [PAL], ["collapse loop with a validity check of every clamped hull", "rounding and clamping of hull vertices"])
p("P02", "Palette simplification stops where the size and error limits say",
  "For one image, all palettes computed with different limits are stages of one and the same chain of ever smaller palettes. Simplification goes on, whatever the error, while the palette has more colours than the maximum, and beyond that only to stages that have at least the minimum number of colours and whose root-mean-square colour distance to the image's pixels (counting each pixel, zero inside the hull) is within the error bound; it stops at the first stage that is not.",
  ["inputs", "configurations", "histories"], "all images, all combinations of minimum, maximum and error bound",
  NOIMG + " The limits interact along a whole chain of simplification steps.",
  [PAL], ["loop condition, error test and early exits of the collapse loop", "weighted RMS distance of pixels to the clamped hull"],
  [("chain position", "how many edges have been collapsed so far")])
p("P03", "A computed palette encloses the image's colours",
  "Simplification only ever grows the hull: as long as no simplified corner is an imaginary colour (has a component outside 0-255), every colour of the image lies inside the hull of the computed palette, up to rounding of its corners to whole levels. When no simplification takes place at all, the palette consists of exactly the corners of the hull of the image's colours.",
  ["inputs", "configurations"], "all images and limits",
  NOIMG + " Enclosure must hold for every pixel after every possible sequence of edge collapses.",
  [PAL, HULL], ["linear program that places the merged vertex outside all faces it replaces", "consistently outward ordered facet vertices"])
p("P04", "Each simplification step is the cheapest merge of two neighbouring colours",
  "Simplification starts with the hull of the image's colours. Each step merges the two corners of one edge of the hull into a single new corner that lies on the outer side of all faces at the two (of all such points, the one with the smallest sum of distances to the planes of these faces), and of all edges it merges the one for which this adds the least volume; corners that the new one makes redundant disappear too. A corner that becomes an imaginary colour stays imaginary for the following steps and is only clamped in the palette. Simplification goes on until the requested minimum is reached, unless no edge can be merged in this way or the next merge would leave fewer colours than the minimum.",
  ["inputs", "configurations", "histories"], "all images and all minima, without a maximum or error bound; every step of the chain",
  NOIMG + " A wrong choice still yields a valid, enclosing palette; only comparing with all other edges, over a chain of steps, tells.",
  [PAL, HULL], ["choice of the edge by the volume that its merging adds", "the linear program's objective and constraints for each edge", "loop that continues with the unclamped hull"],
  [("the real hull", "corners of the simplified hull, including imaginary ones, of which palettes are rounded and clamped pictures")])
p("H01", "The computed convex hull is the convex hull",
  "For every point set that spans its space, the hull's vertices are exactly the input points that are corners of the set, every facet is a simplex of such vertices whose plane has all input points on or below it, with a unit normal pointing outward and its own vertices on the plane, and the facets together close the surface. The low-level and the high-level interface, and every way of handing over the points, agree on the vertices.",
  ["inputs"], "point sets in 2 to 5 dimensions at every scale and position, with duplicate, collinear, coplanar and cospherical points, in every order",
  "The tests compare a few fixed shapes (a square, a cube, random points in one dimension class) only.",
  [HULL, RAW, EXT], ["wrapping of qhull's facet and vertex lists in flat arrays", "normals, offsets and vertex numbering"])
p("H02", "Hull facets know their neighbours, and 3D facets face outward",
  "The k-th neighbour of a hull facet is the facet on the other side of the ridge opposite its k-th vertex: it shares all the facet's other vertices, and being a neighbour is mutual. In three dimensions the vertices of a facet are listed so that their turning direction always gives the outward normal. In the low-level interface every vertex also knows the facets around it: exactly those it is a corner of, each once. Handles of vertices are equal, and hash alike, exactly if they are the same vertex of the same hull, and every list of vertices, facets and neighbours knows its length.",
  ["inputs"], "point sets in 2 to 5 dimensions as for the hull itself",
  "Existing tests never look at neighbours of hulls, and orientation only through a cube.",
  [HULL, RAW], ["neighbour table construction", "reordering of facet vertices by normal"])
p("D01", "The computed triangulation is the Delaunay triangulation",
  "For every point set that spans its space, the simplices' circumscribed spheres contain no other input point, the simplices cover the hull of the points without overlapping, and the k-th neighbour of a simplex is the simplex across the face opposite its k-th vertex, missing exactly where that face is on the outer boundary. Both interfaces describe this same triangulation, and in the low-level one the simplices around a vertex are exactly those it is a corner of.",
  ["inputs"], "point sets in 2 to 5 dimensions, with duplicate and cospherical points, at every scale and position",
  "The empty-sphere and covering conditions quantify over all pairs of simplices and points; the tests use a few fixed or random sets and check locations only.",
  [DEL, RAW, EXT], ["dropping the upper hull of the lifted points", "neighbour table with holes", "lift options handed to qhull"])
p("D02", "Point location finds a simplex exactly for the points inside the hull",
  "Locating a point reports a simplex if and only if the point is inside the triangulation's hull (up to the tolerance set), the simplex really contains the point, and the barycentric coordinates that come with it add up to one and reproduce the point. The answer does not depend on what was located before, on the start hint or its clearing, on exhaustive versus walking search, or on the searcher it is asked of.",
  ["inputs", "histories"], "all triangulations in 2 to 5 dimensions including those with flat simplices; all points inside, outside, on faces, edges and vertices; all sequences of locations, tolerance and mode changes",
  "The tests ask random points of well-shaped triangulations in one order; degenerate simplices and stale hints are not reached.",
  [DEL], ["walk over neighbours from the start hint", "barycentric solver cache with degenerate simplices", "exhaustive fallback"],
  [("start hint", "simplex at which the next walk starts")])
p("D03", "Low-level point location agrees with exact containment",
  "Locating a point through the low-level interface reports a simplex if and only if the point is inside the triangulation's hull (up to the tolerance given), never one of the helper simplices above the hull, and the reported simplex and barycentric coordinates contain and reproduce the point. The starting hint changes how long it takes, never whether it succeeds. For every simplex that is not flat there is a prepared solver, and it and a solver made of the simplex' corners give the coordinates of any point.",
  ["inputs", "histories"], "as for the high-level search, with and without hints carried from one query to the next",
  "As for the high-level search; the low-level search has no test of its own on points outside or on boundaries.",
  [RAW], ["search with visited set and optional hint", "solver cache keyed by facet"])
p("D04", "Distances to hull planes have the sign and size of the true distance",
  "The signed distance a facet or lifted simplex reports for a point is zero for points on its plane, negative on the hull's side and positive outside, and equals the Euclidean distance to the plane. Hence no input point, lifted to the paraboloid, is outside the plane of any Delaunay simplex, for both interfaces.",
  ["inputs"], "all facets and points, all lifted simplices and lifted points, in 2 to 5 dimensions",
  "No test evaluates a distance to a plane.",
  [DEL, RAW, HULL], ["dot product with normal plus offset", "lifting of points to the paraboloid"])
p("E01", "Degenerate input is refused in an orderly way and does no damage",
  "Point sets that do not span their space (too few points, coinciding, collinear or coplanar ones) and images that have no solid hull are refused by an ordinary, catchable panic or error before any result exists. The process stays usable: whatever is computed afterwards - on this thread or another - is what it would have been without the refused request.",
  ["inputs", "histories", "fault_sequences"], "all degenerate inputs of all entry points, interleaved with well-formed requests in every order",
  "No test hands over degenerate input; qhull reports errors by a non-local jump through state shared by later calls.",
  [EXT, RAW, LIB, PAL], ["error exit of qhull caught and turned into a panic", "release of qhull's memory on the error path"])
p("T01", "Results depend on the arguments only",
  "Every operation is a function of its arguments: repeating it, doing other work in between, or running any number of operations on several threads at the same time - also on shared weights, decompositions, hulls and triangulations - gives the same results as running it alone.",
  ["schedules", "histories", "inputs"], "all interleavings of operations on up to eight threads, over shared and separate objects",
  "The tests run single operations on private objects; races and leftovers of earlier calls do not show.",
  [LIB, PAL, DEL, RAW, EXT], ["one qhull context per hull", "hash maps without influence on results", "shared read-only objects"])
p("C01", "The C interface computes what the library computes",
  "For every sequence of calls through the published C header, the C functions return and write exactly what the library returns for the same image and palettes: sizes, palettes with their length, layers and reconstructed images, a null pointer for refused palettes and zero with an untouched buffer for layers that do not exist. They write exactly the promised number of bytes, and never modify their inputs.",
  ["inputs", "histories"], "all images, palettes, limits and layer numbers that fit the C types; all call sequences that respect the handle rules",
  "There is no test of the C interface, and none that compiles against the header.",
  [CABI, CH], ["translation of pointers and sizes to slices", "copying of results into caller buffers", "parameter lists of the header"])
p("C02", "C handles live exactly from creation to release",
  "Every handle returned by the C interface stays valid and unchanged until its own release, independently of any other handle, of the buffers it was made from and of the order of releases; in particular a decomposition outlives the weights it was made from. Releasing returns all memory, so that any sequence of create and release calls, including refused palettes, leaves the heap as it was.",
  ["histories"], "all interleavings of create, use and release over several handles that respect the rule 'use only between creation and release'",
  "There is no test of the C interface; leaks and dangling references need sequences of calls and an instrumented heap to show.",
  [CABI], ["boxing and unboxing of handles", "palette buffer released with its own length"],
  [("handles", "live weights, decompositions and palette buffers")])
p("L01", "The command line accepts exactly well-formed colour lists",
  "A palette argument is accepted if and only if it is a comma separated list of colours of exactly six hexadecimal digits each, in either case, and then means the RGB colours in the order written. Everything else - empty items, signs, prefixes, blanks, wrong lengths, non-ASCII text - is refused with a non-zero exit status before any image is read or written.",
  ["inputs"], "all argument strings",
  "There is no test of the command line; parsing rules quantify over all strings.",
  [CLI], ["colour list parser"])
p("L02", "Command line runs write the library's results to the right files",
  "Generating a palette prints one line with the library's palette for the image and limits given (4 and 10 colours and an error of 2/255 where none are given; in the same order, as lower-case hexadecimal colours separated by commas), which can be passed back as a palette argument. Recolouring writes the library's reconstruction to the output file and, on request, each layer to a file next to it named after the output file, the layer number and the colour; invalid limits, mismatched palette sizes, refused palettes and unreadable images end in a non-zero exit status without output files.",
  ["inputs", "configurations"], "all images, palettes, limits, flags and output paths",
  "There is no test of the command line.",
  [CLI], ["argument ranges and defaults", "file naming", "error exits"])
p("W01", "The web page never uses, frees twice or forgets a handle of its worker",
  "Whatever the order and timing of the user's actions, image loads and worker answers (also failing ones), the page sends the worker only handles that the worker has created and not yet freed, frees each at most once, and once it is idle keeps no more than the current image's weights and one decomposition of them. The page always comes back to a usable state in which its controls are enabled.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of loading images, both recompute buttons, palette edits and worker answers, with invalid palettes and failing requests",
  "The web page has no tests; the property is about interleavings of asynchronous events.",
  [JS], ["queue that runs one operation at a time", "release of old handles before new ones are requested"],
  [("weights handle", "handle of the current image's weights"), ("decomposition handle", "handle of the current decomposition")])
p("W02", "The web worker balances its buffers and converts pixels faithfully",
  "For every request, whether it succeeds, is refused or throws, every buffer the worker allocates in the module's memory is freed exactly once with its own size and nothing is read or written outside live buffers, even when the memory grows during a call. The module sees exactly the RGB bytes of the RGBA image and palettes it was asked about, and the answer carries exactly the module's bytes back, with opaque alpha.",
  ["histories", "fault_sequences", "inputs"], "all sequences of requests of all kinds and sizes, with every call possibly growing the memory and every computation possibly being refused or throwing",
  "The worker has no tests; leaks show only over many requests, and detached views only when the memory grows at the wrong moment.",
  [WW], ["buffer allocation around each call", "views on the module's memory", "RGBA to RGB packing"])
p("W03", "The web page shows the state its last operation computed",
  "After a palette has been computed, the page shows exactly its colours, in order, in all fields of exactly as many palette entries, and sends those (as edited since) to the worker for every later recolouring; palettes are computed with the limits that are entered; text and colour fields follow each other for every valid colour and ignore invalid text. The original shown is the image picked last (before that the example), every other displayed image is the answer to the latest request for it, and an object URL that is replaced or removed is revoked, once, and not while displayed.",
  ["histories", "inputs"], "all sequences of palettes of varying size, edits of any field with any text, and recolourings",
  "The web page has no tests.",
  [JS], ["resizing of the palette entries", "field synchronisation handlers", "replacement of object URLs"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x, s); assert len(x["title"]) <= 80, x["id"]
    if x["statement"].count(". ") > 2: print("sentences?", x["id"])
print(len(P))
