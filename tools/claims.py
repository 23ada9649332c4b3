TRACE = "Every recorded behavior of the real library is a behavior of the TLA+ specification, over exhaustively enumerated small histories/inputs plus seeded random larger ones; "
CLAIMED = {
 "R01": TRACE + "exact enclosure test per image and palette. Trusts TLC, the trace recorder and the sampling of images (up to 12x11 pixels).",
 "R02": TRACE + "nearest points are exact on the 16-level grid, otherwise decided by the variational inequality; pixels whose extremality is not certain are only checked for containment.",
 "R03": TRACE + "weights are seen through the 8-bit layers, so mixtures are decided up to the rounding of the layers.",
 "R04": TRACE + "any choice of darkest color, supporting face and triangulation of it is accepted.",
 "R05": TRACE + "all lists of up to four corners of the cube (with repetition), sampled 4-subsets of the 3x3x3 grid and random palettes.",
 "R06": TRACE + "all abstract call histories up to depth three after the image, and random ones up to depth twelve.",
 "P01": TRACE + "the redundancy test is exact on the returned colors; images up to a few hundred pixels, all limits.",
 "P02": TRACE + "the chain of stages is recorded from the code itself, its order and the error of each stage are judged exactly by the specification (root-mean-square, within 1/32 of a color level).",
 "P03": TRACE + "enclosure is exact up to the rounding of corners; judged for chains without imaginary corners, as stated.",
 "P04": TRACE + "the specification carries out the simplification itself in fixed point arithmetic with error margins; where the margins leave the choice between merges open (about half of the steps) nothing is demanded of the rest of that chain. Images of up to about 12 colors in general position.",
 "H01": TRACE + "exact integer planes, corners and closure of the surface; all 466+163 spanning subsets of the 3x3 and 2x2x2 grids, samples in 2 to 5 dimensions.",
 "H02": TRACE + "exact, for both interfaces; same point sets as H01.",
 "D01": TRACE + "exact empty-sphere, neighbour, boundary and volume tests on integer points in 2 to 5 dimensions.",
 "D02": TRACE + "exact barycentric coordinates of the reported simplex; every history of three calls plus random ones; for the default tolerance (rounding errors may exceed it) only points clearly inside a simplex have to be found.",
 "D03": TRACE + "as D02, for the raw search with and without hints.",
 "D04": TRACE + "distances are compared with the reported planes and with exact heights over the lifted planes, up to rounding.",
 "E01": TRACE + "whether a request has to be refused is decided by exact rank; all sequences of three good and bad requests, and mixtures on up to eight threads; refused requests must not use up memory. Points at the verge of flatness beyond 8-bit colors are not sampled.",
 "T01": TRACE + "each request's result in a process of its own is the reference; interleavings of threads are those that the machine produces, which is not all of them (the design model Contexts.tla covers all, for qhull's contexts).",
 "C01": TRACE + "results of the Rust interface on the same arguments are the reference; all client histories of four calls over two handles of each kind, and random ones of forty calls; palettes of up to 255 colors.",
 "C02": TRACE + "every block of the library's heap is recorded (Rust allocations with their layout, malloc of qhull), with guard bytes and poisoned quarantine; same histories as C01.",
 "L01": TRACE + "all short argument lists over a small alphabet of options, values and file names, and random longer ones; what a value of an option means is decided by the specification, not by the parser.",
 "L02": TRACE + "pictures, palettes and layers are recomputed from the written files by the library itself (whose own behavior R01-P03 decide); names of files and the printed palette are decided by the specification.",
 "W01": TRACE + "page and worker run unchanged in node; the browser (elements, images, object URLs, messages) and the WebAssembly module are stand-ins. All histories with two user actions and a failure, random ones of sixty steps; the page's design model is checked for all interleavings. A request that throws is assumed to reach the page as an error.",
 "W02": TRACE + "the module's memory is real WebAssembly memory that may grow in every call, with poison around and in freed buffers; only computations throw (not allocations).",
 "W03": TRACE + "shown images, fields and object URLs are judged after every step, the page as a whole whenever it is idle; when requests failed, only handles and URLs are.",
}
NOT_CLAIMED = {}
