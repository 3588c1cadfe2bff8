"""Per-property run settings: PROPS[id]."""
PROPS = {}


def P(pid, rule, **kw):
    PROPS[pid] = dict(rule=rule, **kw)


P("C03", "A case generates a surface, two frames and a bundle of lines, records the bundle before and after the "
         "intersection and judges every ray; it is non-trivial when the label (surface type, hit/miss/borderline "
         "class and counts, or telescope element) has not been seen before.")
P("C04", "A case evaluates sag and normal of one generated (or shipped) surface at up to 60 points and compares each with "
         "the documented equation in long double; non-trivial labels are (surface type and structure) x (argument shape "
         "class), and the inside/outside mix of edge cases.")
P("C05", "A case records one bundle before and after a reflection (bare surface, Mirror element, or an entry of a telescope's "
         "trace log) and judges every ray against the mirrored velocity in long double; labels are (workload, surface type, "
         "share of rays arriving from behind, share newly failed).")
P("C06", "A case records one bundle before and after a refraction and judges every ray against Snell's law at its own "
         "wavelength; labels are (workload, surface type, medium type, class: refracted / total reflection / no index).")
P("C07", "A case runs a chain of transforms (or a history of frame modifications, or one array transform of some layout) and "
         "judges every step against the origin-and-rotation definition in long double; labels are chain length and scale, "
         "array layout, and the sequence of operations of a history.")
P("C08", "A case records the full trace history of a random or shipped system and of a rigidly moved copy (or of the same "
         "rays expressed in another frame) and compares them surface by surface; labels are the system (or number of "
         "surfaces) and how many rays got through.")
P("C09", "A case runs one random sequence of operations on a bundle and on a permutation, partition, duplication, poisoning or "
         "single-ray selection of it and compares complete states bit for bit, following the flags through every step; labels "
         "are (operation, whether rays failed in it / had failed before) and (batching, size, operations).")
P("C13", "A case builds a random nested system (or takes a shipped one), records its trace log and judges every entry against an "
         "independent step through the public element tree, then compares all other forms of tracing with it; labels are number "
         "and types of surfaces, nesting profile, skips, ghost path ends.")
P("C14", "A case traces a bundle through a system, reverses the surviving rays, traces back and compares every element visit with "
         "the way there; labels are the system (or its element types) and how many rays returned.")
P("C10", "A case builds one obscuration (any nesting) and asks it about random, far, corner-aligned and boundary-hugging points "
         "in several argument forms, as a grid, or through rays; every answer more than rounding away from a boundary is compared "
         "with the documented shape in long double; labels are (structure of the nesting, share inside, form).")
P("C11", "A case builds one medium and asks it for indices at hostile wavelengths (nodes, their neighbours, outside, scalars, "
         "nd-arrays), comparing each with the documented formula in long double; labels are (type, argument form, table size and layout).")
P("C12", "A case splits a bundle at one surface or element and judges both outputs against the laws and coefficients, or split-traces a "
         "random or shipped system and compares every reported path, ray and flux with an independent enumeration of all paths and "
         "with explicit path tracing; labels are (surface, failures), (elements, number of paths), telescope.")
P("C15", "A case applies a random sequence of deriving operations to a random tree of named parts (or a shipped telescope) and compares the "
         "complete documented state of original and derived systems with a model that works on plain data, or traces both; labels are "
         "operation sequences, tree size, telescope.")
P("C16", "A case takes one random value of any public type (any nesting) and compares it with rebuilt twins, variants differing in one "
         "parameter, every form of copy, other kinds and its printed form; equality must be exactly sameness of parameters, copies "
         "must hold the same state, behave bit-identically and be independent; labels are (kind, size of the state).")

P("C18", "A case converts a set of field angles (or unit vectors) of one projection and argument form and compares values, norms, shapes "
         "and the way back with the projection's definition in long double, within the rounding of each formula; labels are "
         "(projection, part of the domain, argument form).")

P("C17", "A case generates one bundle (grid, fan, polar, spokes, stop points, field angles or random; explicit settings or taken from a "
         "system) and compares every ray with its documented stop point lifted and moved back in long double; labels are (generator, "
         "way of giving the pattern, counts, stop surface, plane wave or source).")

P("C19", "A case questions one bundle (any speed, scale, wavelength; vignetted, failed and lost rays) for wave vectors, phases, amplitudes "
         "and coherent sums at random points, or follows it through propagations, and compares with the plane-wave definition in long "
         "double within the rounding of the optical path; labels are (size, flags, wavelength scale).")

P("C20", "A case runs one history of selections, joins, copies and in-place operations over several live bundles and compares every live "
         "bundle with plain arrays bit for bit after each step, walks one bundle through the sequence protocol, or constructs one from a "
         "mixture of argument forms; labels are the last operations, size, forms.")

P("C21", "A case runs one analysis function on a shipped, disturbed or synthetic system at a random field point, and compares the result "
         "with a long-double computation from the rays of an own trace (sphere hit times, least squares, quadrature, differences), or adds "
         "a known aberration to a perfect system and looks for it in every decomposition; labels are (analysis, system, settings).")

P("C22", "A case records one bundle before and after crossing a screen (bare, as an element, or in a trace log, either way) and judges every "
         "ray's point, clock, speed, deflection and failure against the documented law with long-double gradients; labels are (workload, "
         "surface type, screen type, how many deflections are resolvable, any of them going up the normal, steepest gradient).")

P("C23", "A case builds one lattice of random dimension, shape and vectors and compares its coordinates with the definition, or computes one "
         "point spread function (direct or Fourier; any size, padding, lattice, reference) of a shipped, disturbed or synthetic system and "
         "compares every sample with a direct coherent sum of own rays at the reported coordinates; labels are (computation, system, sizes, form).")

P("C24", "A case writes one random configuration (piece or whole tree; shared parts, any key order, directly or through a file) from known "
         "objects, builds it and compares every type, frame (composed in long double), medium, surface, obscuration and attribute with an own "
         "reading of the format, and the configuration with its former self; or reads one shipped file the same way and images a star with "
         "it; labels are (kind, size, way of building, depth) or file names.")

P("C25", "A case builds one gridded surface (any size, origin, spacing, direction, subset of derivatives, policy, container, copy) and "
         "compares every node, points on and beside grid lines and between them, both sides of every seam, polynomials, requests and rays "
         "outside with the samples and an own Hermite interpolation in long double; labels are (aspect, sizes, derivatives given, policy).")

P("C26", "A case makes one public call (constructor, generator, query, operation on a bundle, trace, derivation, analysis, drawing, parse) with "
         "data in any container, and compares byte-level snapshots of every argument, of the object and of the shared defaults before and "
         "after; then overwrites the caller's data, or the answer, and looks whether object or answer change; labels are (call, containers).")

P("C01", "A case runs one workload under AddressSanitizer and UndefinedBehaviorSanitizer: numbers in hostile containers, histories of making, "
         "deriving and dropping objects, non-finite and huge values, any number of rays and threads, shapes that fit nothing, and the "
         "workloads of every other monitor; labels are (workload, object or call, containers, sizes or outcome).",
  flavours=["asan", "asan2"],
  technique="AddressSanitizer and UndefinedBehaviorSanitizer on the core (numpy's buffers included), plus comparison of results between two "
            "fill patterns of fresh and freed memory and between containers",
  assumptions=["reads of uninitialised memory are seen through their effect on results under two fill patterns, not directly",
               "numpy keeps freed blocks below 1 kB for itself: a use after free there is seen through changed results only"])

P("C02", "A case makes one set of public calls with one thread and again with several (libgomp; an own pthread OpenMP runtime with random "
         "starts, or one thread at a time in a permuted order; under ThreadSanitizer; from several Python threads) and compares every bit of "
         "every result; labels are (workload, threads, first call, amount of data).",
  flavours=["plain", "shim", "tsan"], threads=4,
  technique="ThreadSanitizer over an instrumented OpenMP runtime, controlled scheduling of thread teams, and bitwise comparison with one thread",
  assumptions=["code outside the core (numpy, the interpreter, the binding glue) is not instrumented",
               "schedules are sampled; ThreadSanitizer reports races of any schedule whose accesses were made without a happens-before edge"])

P("C27", "A case repeats one history (making, using, deriving, copying, pickling and dropping objects of every kind; chains of derivations; calls "
         "that raise; the workloads of other monitors; reading and using shipped telescopes) with the same numbers and compares the live blocks "
         "of the core, the objects and references of the interpreter, open files and threads between batches; labels are (history, kind).",
  flavours=["mem"],
  technique="accounting of every live block of the core (preloaded allocator) and every object and reference of the interpreter over repeated "
            "histories, and weak references",
  assumptions=["what grows in some repetitions only is taken for a cache that fills up"])

P("C28", "A case draws one element, one system (shipped, random, moved, derived) or one trace log (any range of surfaces, any frame, any path), "
         "or plots one pyramid of Zernikes, on axes that record and on real figures, takes every point back to the element in long double and "
         "compares with its documented surface and radii, or with the logged rays; labels are (what is drawn, surface, obscuration, range).",
  technique="online checker over the coordinates handed to recording plot axes and returned by the geometry queries, against a long-double model")

P("C29", "A case makes one object (surface, medium, coating, obscuration, frame, transform, element, compound, lattice) with some spelling of its "
         "arguments (positional head, keywords in any order, defaults left out or not, lists, tuples, arrays), and compares attributes and "
         "behaviour with the stated parameters, never with what the object says of itself; or asks for an object that must be refused; labels "
         "are (kind, positional count, keywords).")

P("C30", "A case repeats recorded calls (generated from seeds: operations on rays, traces, analyses, constructions, questions) after other "
         "calls, refused calls and changed global state, on the same objects, with arrays overwritten in place, on objects at reused "
         "addresses, after attributes were assigned and put back, or in another process, and compares the results bit for bit; labels "
         "are the kinds of calls and of disturbance.",
  technique="runtime monitoring: recorded call results compared bit for bit between histories and processes",
  note="Held on the histories counted in the evidence file, nothing more; coherent sums over rays are compared to rounding.")

P("C31", "A case sends rays and eight close neighbours of each (four displacements of place and direction, both ways, at two step sizes) through "
         "one operation, a chain of operations, a random system (forwards, along ghost paths, backwards) or a shipped telescope, and compares the "
         "six symplectic products and the four clock-against-eikonal derivatives before and after; labels are (operation or elements, surface, "
         "kind of displacement).",
  technique="runtime monitoring: conservation laws (Fermat's principle, etendue) over families of neighbouring rays",
  note="Held on the families counted in the evidence file, to the accuracy of finite differences (about 1e-6); families whose two step sizes disagree are counted but not judged.")
P("C32", "A case makes a mirrored, relabelled, turned-over and rescaled copy of a surface, an aperture, a random system or a shipped telescope (signed "
         "permutations of the axes, power-of-two units), runs the same operation on both and compares the second result with the mapped first; "
         "labels are (operation, kind or telescope, unit changed or not, signs, axes swapped).",
  technique="runtime monitoring: metamorphic comparison of executions under mirror, relabelling and unit symmetries",
  note="Held on the copies counted in the evidence file; rays whose fate rounding decides (edges of apertures, searches that end on an absolute bound) are counted and not compared further.")
P("C33", "A case runs the application without a screen, turns three to nine of its controls one after another and, after each, compares every point, "
         "frame, flag and picture on show with a model that knows only the values of the controls; or asks for sidereal times and changes of "
         "coordinates; labels are the controls turned.",
  technique="online monitor of the state shown by the running application against a model of its controls",
  note="Held on the sessions counted in the evidence file, without a browser: what is handed to the plotting widgets is judged, not pixels; within half a degree of a pole sessions end.")
