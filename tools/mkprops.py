"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
             observe_at=[observe], hook_needed=None)
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "The compiled core never touches memory it does not own",
  "For every sequence of public calls with arguments of the documented kinds (scalars, lists or arrays of any numeric type, stride, alignment, length including empty, and any grid shape; arrays that belong together having agreeing shapes), the compiled core performs no out-of-bounds, use-after-free or otherwise undefined operation and never crashes the interpreter. Objects handed to the core stay valid for as long as any result built from them is in use.",
  ["programs", "inputs"],
  "all sequences of public API calls; all array shapes, dtypes, strides and lengths; all object lifetimes",
  "The tests run an uninstrumented build on well-behaved arrays: an over-read of a few bytes returns a plausible number, and only contiguous float64 arrays of matching length are ever passed.",
  ["src/batoid.cpp", "src/dualView.cpp", "src/medium.cpp", "src/obscuration.cpp", "src/table.cpp", "src/polynomialSurface.cpp", "src/asphere.cpp", "src/rayVector.cpp", "pysrc/*.cpp", "batoid/rayVector.py", "batoid/surface.py", "batoid/medium.py", "batoid/obscuration.py"],
  [("raw addresses of numpy buffers are passed to the core with a length", "batoid/rayVector.py, batoid/surface.py, pysrc/*.cpp"), ("owned copies of coefficient arrays and keep_alive of sub-objects", "src/*.cpp, pysrc/*.cpp")],
  "process under AddressSanitizer/UndefinedBehaviorSanitizer; buffers surrounded by redzones")

p("C02", "Results do not depend on the number of threads or their scheduling",
  "Every operation on rays, surfaces, media and obscurations yields bit-identical results whatever number of threads is used and however they are interleaved; a coherent amplitude sum agrees to floating-point rounding. No two threads ever access the same memory location, one of them writing, without synchronisation.",
  ["schedules", "inputs", "configurations"],
  "all thread counts (fewer or more than rays or cores), all interleavings of the parallel loops, all operations",
  "The suite runs with one fixed thread count and never compares two; a race that loses one update in a thousand passes it.",
  ["src/batoid.cpp", "src/rayVector.cpp", "batoid/global_vars.py", "batoid/trace.py"],
  [("each loop iteration owns exactly one ray index", "src/batoid.cpp"), ("reduction clause of the amplitude sum", "src/rayVector.cpp")],
  "ThreadSanitizer reports; bitwise comparison of complete ray state across thread counts",
  state=[("max threads", "upper bound on threads of every parallel loop", "batoid/global_vars.py")])

p("C03", "Intersection puts each ray on the surface, on its own line, at the right time",
  "After intersecting any surface in any coordinate system, every ray not marked failed lies on the surface (its height equals the surface's sag there), on the straight line it was travelling along, with its clock advanced by exactly the signed travel time and its velocity, wavelength and flux unchanged. Rays whose line does not meet the surface are marked failed and vignetted; a ray that does meet it is not, and no ray silently acquires non-finite coordinates. When a line meets a conic surface several times, the crossing on the sheet through the vertex is the one chosen. (Surfaces without closed form are solved iteratively: for them a meeting line is only promised a solution when the surface is a mild perturbation of a plane or conic, but whatever point is returned is on the surface.)",
  ["inputs", "configurations"],
  "all surface types and parameters, all ray positions, directions (including backward and grazing), speeds, times and surface coordinate systems",
  "The tests shoot paraxial rays from one side at a few random surfaces; the root choice, misses, degenerate coefficients, backward rays and rays starting on the surface are barely sampled.",
  ["src/batoid.cpp", "src/surface.cpp", "src/plane.cpp", "src/sphere.cpp", "src/paraboloid.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/tilted.cpp", "src/sum.cpp", "src/polynomialSurface.cpp", "src/bicubic.cpp", "batoid/trace.py"],
  [("closed-form roots for conics, Newton iteration otherwise", "timeToIntersect in src/*.cpp"), ("failed/vignetted set together when no root is found", "src/batoid.cpp")],
  "ray state before and after every intersect/reflect/refract call")

p("C04", "Sag and normal follow each surface's documented equation",
  "For every surface type and every point of its domain, the height equals the documented equation (plane, tilted plane, sphere, paraboloid, conic, even asphere, annular Zernike expansion, sum of surfaces), and the normal is the unit, upward-pointing perpendicular to that height function. Scalars, arrays of any shape, strided views and broadcastable pairs all give the same pointwise values, and points outside the domain give NaN.",
  ["inputs", "configurations"],
  "all surface parameters (either sign of curvature, any conic constant, any coefficient count), all points, all array layouts",
  "Tests compare a handful of random parameters with formulas in float64 and never check normals against the derivative of the height for composite surfaces.",
  ["src/plane.cpp", "src/tilted.cpp", "src/sphere.cpp", "src/paraboloid.cpp", "src/quadric.cpp", "src/asphere.cpp", "src/polynomialSurface.cpp", "src/sum.cpp", "batoid/surface.py"],
  [("closed-form sag and normal per type", "src/*.cpp"), ("Zernike expansion turned into polynomial coefficient matrices", "batoid/surface.py")],
  "return values of the sag and normal queries")

p("C05", "Reflection obeys the law of reflection",
  "Reflecting rays off any surface leaves each non-failed ray at the point where it intersects the surface, with its velocity mirrored in the tangent plane there: same speed, same tangential component, opposite normal component. Wavelength is unchanged, flux changes only through the reflectivity of a coating passed to the call, and reflecting in a given coordinate system equals transforming first and reflecting afterwards.",
  ["inputs", "configurations"],
  "all surfaces, coordinate systems, incidence angles and sides, speeds, coatings",
  "Tests check a few surfaces at near-normal incidence in their own frame.",
  ["src/batoid.cpp", "src/surface.cpp", "batoid/trace.py", "batoid/surface.py", "batoid/optic.py"],
  [("mirrored velocity from unit normal", "reflect in src/batoid.cpp")],
  "ray state before and after every reflection, alone and inside telescopes")

p("C06", "Refraction obeys Snell's law, sets the new speed, and total reflection fails",
  "Refracting rays leaves each non-failed ray at its intersection point, travelling forward through the surface at speed 1/n2, in the plane of incidence, with n1 sin(theta1) = n2 sin(theta2) for the indices at that ray's own wavelength, whichever side it arrives from. Rays beyond the critical angle, or at a wavelength for which a medium has no index, are marked failed and vignetted; no unfailed ray ever gets a non-finite velocity.",
  ["inputs", "configurations"],
  "all surfaces, media (including dispersive, n1 < n2 and n1 > n2), wavelengths per ray, incidence angles and sides",
  "Tests use rays coming from one side with small angles and mostly constant indices; total internal reflection is never checked.",
  ["src/batoid.cpp", "src/surface.cpp", "src/medium.cpp", "batoid/trace.py", "batoid/optic.py"],
  [("index evaluated per ray wavelength, vector form of Snell's law", "refract in src/batoid.cpp")],
  "ray state before and after every refraction, alone and inside telescopes")

p("C07", "Coordinate transforms are exact, composable, invertible rigid motions",
  "Transforming rays or coordinate arrays between two coordinate systems preserves distances, angles, handedness, times, wavelengths, fluxes and flags, agrees with the origin-and-rotation definition, is undone by the reverse transform, and composes (A to B to C equals A to C). Global and local shifts and rotations of a coordinate system move it as documented, about the documented centre.",
  ["inputs", "histories"],
  "all pairs and chains of coordinate systems, all rotations, rotation centres and shifts, rays or arrays or scalars",
  "Tests check a few random pairs; chains, arbitrary centres in third frames and the agreement of every representation are not enumerated.",
  ["batoid/coordSys.py", "batoid/coordTransform.py", "src/batoid.cpp", "batoid/trace.py", "batoid/rayVector.py"],
  [("origin+rotation stored per system; relative rotation computed per transform", "batoid/coordTransform.py")],
  "coordinates returned by every transform entry point")

p("C08", "Tracing commutes with rigid motions of the whole system",
  "Moving a complete optical system and the incoming rays by the same rotation and translation moves the traced rays by exactly that motion and changes nothing else; equivalently, the frame in which incoming rays are expressed never affects the physical result. Optical path differences, vignetting, failures and fluxes are unchanged.",
  ["inputs", "configurations", "programs"],
  "all optical systems, motions, ray bundles and frames for expressing them",
  "Tests shift or rotate a few named telescopes and compare selected outputs; they never compare whole trace histories under general motions.",
  ["batoid/optic.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/trace.py", "src/batoid.cpp"],
  [("every element carries its own coordinate system and transforms rays into it", "batoid/optic.py, src/batoid.cpp")],
  "recorded trace histories of a system and of its moved copy")

p("C09", "Rays are independent and their failure flags only accumulate",
  "The result for a ray does not depend on which other rays are traced with it: splitting, permuting, duplicating or concatenating a bundle splits, permutes, duplicates or concatenates the results bit for bit. Once a ray is failed or vignetted it stays so through every later operation, every ray that fails is also vignetted, failed rays are never revived and surfaces no longer advance their clocks, and wavelength never changes.",
  ["inputs", "histories", "programs"],
  "all bundles, batch splits and operation sequences",
  "Tests use large uniform bundles and compare aggregates; no test relates two different batchings or follows flags through long histories.",
  ["src/batoid.cpp", "batoid/rayVector.py", "batoid/optic.py", "batoid/trace.py"],
  [("per-ray loop body with failed guard; vignetted or-ed in", "src/batoid.cpp")],
  "complete ray state after each operation of recorded histories",
  state=[("vignetted, failed", "per-ray loss flags", "batoid/rayVector.py")])

p("C10", "Obscurations are exactly their geometric shapes and set operations",
  "A point is contained in a circle, annulus, rectangle, ray, or polygon exactly when (up to rounding of its boundary) it lies inside the documented shape at its documented centre and orientation, and in a negation, union or intersection exactly per Boolean logic of the parts, for any nesting. Point queries, array queries, grid queries and the vignetting of rays all agree, and applying an obscuration only ever adds vignetting.",
  ["inputs", "configurations"],
  "all shape parameters and nestings, all points including far and near boundaries, all grid sizes and spacings",
  "Tests sample random points for a few shapes; grid queries are checked on one square grid with one closed polygon.",
  ["src/obscuration.cpp", "pysrc/obscuration.cpp", "batoid/obscuration.py", "src/batoid.cpp", "batoid/trace.py"],
  [("per-shape contains predicate; crossing-number polygon test", "src/obscuration.cpp")],
  "return values of containment queries and ray vignetting flags")

p("C11", "Media return the documented refractive index at every wavelength",
  "Constant, tabulated, Sellmeier, Sumita and air media return the index given by their documented formulas or by linear interpolation of their table, for scalars and arrays of any shape alike. Table nodes are reproduced exactly, including both ends, and wavelengths outside a table give NaN rather than an invented index.",
  ["inputs", "configurations"],
  "all media parameters, all wavelengths, all table sizes, spacings and input types",
  "Tests compare a few fixed glasses at random interior wavelengths; table ends, integer tables and multi-dimensional queries are not covered.",
  ["src/medium.cpp", "pysrc/medium.cpp", "batoid/medium.py"],
  [("formula per medium class; bracketing search in table", "src/medium.cpp")],
  "return values of index queries")

p("C12", "Coatings and ray splitting conserve and partition flux along every path",
  "Splitting rays at a coated surface (or refractive interface) yields exactly the rays that refracting and reflecting would give, with fluxes multiplied by the coating's transmissivity and reflectivity for the direction of travel. Split-tracing a system forwards returns, for each path it reports, exactly the unvignetted rays above the flux limit that tracing that path explicitly gives, with flux equal to the product of coefficients along the path, every path once, and never more total flux than entered.",
  ["inputs", "configurations", "programs"],
  "all coatings (including direction-dependent ones), systems, flux limits, skipped elements and directions",
  "Tests set the same coating on both sides everywhere and compare positions, never fluxes or the set of paths.",
  ["src/batoid.cpp", "src/coating.cpp", "batoid/coating.py", "batoid/optic.py", "batoid/trace.py"],
  [("work queue of (rays, direction, element)", "traceSplit in batoid/optic.py"), ("flux multiplied per interface", "src/batoid.cpp")],
  "bundles returned by split tracing, their paths and fluxes")

p("C13", "All ways of tracing a system agree with tracing its elements one by one",
  "Tracing a system equals tracing its elements in order, each in its own frame, leaving rays expressed in the last element's frame; the full-history trace records for each surface the incoming and outgoing rays of that same computation and leaves its input untouched; an explicit path listing the (two or more) elements in natural order gives the same result. Elements of a system marked to be skipped take no part in any of these, whether marked at construction or later, and obscurations vignette exactly the rays that land on them.",
  ["inputs", "configurations", "programs"],
  "all systems (nested, with skips, lenses, mirrors, baffles, detectors, screens), both directions, all bundles",
  "Tests check shipped telescopes for a few fields; nesting, skips, duplicates and paths are not combined.",
  ["batoid/optic.py", "batoid/trace.py", "batoid/rayVector.py", "batoid/analysis.py"],
  [("recursive in-order traversal; per-interface history entries", "batoid/optic.py")],
  "trace histories against an independent step-by-step reference tracer")

p("C14", "Light paths are reversible",
  "Reversing the direction of rays that left an optical system (path-difference screens included) and tracing the system in reverse sends every unfailed ray back along its own path to where it started, with opposite direction, restored speed and its clock consistent with the same optical path length. Propagating, positioning or intersecting backwards in time undoes going forwards.",
  ["inputs", "configurations"],
  "all systems of mirrors, refractive surfaces, lenses, baffles and all unvignetted rays",
  "Tests reverse a few telescopes for one field and one wavelength with loose tolerances.",
  ["batoid/optic.py", "src/batoid.cpp", "src/rayVector.cpp", "batoid/rayVector.py"],
  [("media swapped and element order reversed", "batoid/optic.py")],
  "ray state before tracing and after the round trip")

p("C15", "Deriving a modified system changes exactly what was asked and nothing else",
  "Every operation that derives a new system (shifting or rotating it or a named part globally or locally, replacing or perturbing a surface, inserting or removing a part) leaves the original untouched and returns a system in which precisely the named part, and everything inside it, is changed as documented, while all other parts, surfaces, media, obscurations, coatings, names, stop and pupil settings and skip marks are preserved. A stop surface belongs to the part carrying it and moves with it. Names resolve to the part they name, full or unique partial, regardless of other parts' names; unknown or ambiguous names are rejected.",
  ["programs", "configurations", "inputs"],
  "all system trees, names (including prefixes of each other), sequences of modifications",
  "Tests modify a few shipped telescopes whose names never collide and compare by equality that ignores coatings, stops and skip marks.",
  ["batoid/optic.py", "batoid/coordSys.py"],
  [("copy of attributes into a rebuilt tree; dictionary of qualified names", "batoid/optic.py")],
  "attribute trees of the original and derived systems")

p("C16", "Equality, hashing, copying, pickling and printing are consistent",
  "For every public value type, equality is an equivalence (NaN parameters aside) that holds exactly when the objects have the same kind and parameters (for optics: class, surface or parts, obscuration, screen, name, media and frame), equal hashable objects have equal hashes, and a copied, deep-copied or pickled object equals the original, behaves identically, and is independent of it. Printing an object gives an expression that rebuilds an object printing the same (and equal, when numpy prints all digits), and comparing with unrelated objects is false rather than an error.",
  ["inputs", "configurations"],
  "all public value types, parameters and containers of them",
  "Tests build a short list of unequal objects per class; symmetric, transitive, length-mismatched and post-pickle behaviour is not explored.",
  ["batoid/surface.py", "batoid/medium.py", "batoid/obscuration.py", "batoid/coating.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/lattice.py", "batoid/optic.py", "batoid/rayVector.py"],
  [("__eq__/__hash__/__getstate__/__setstate__/__repr__ per class", "batoid/*.py")],
  "results of comparison, hashing, pickling, repr and of behaviour probes on the copies")

p("C17", "Generated ray bundles strike the stop where asked, in phase, at medium speed",
  "Rays made on a grid, polar or spoke pattern, from stop coordinates or from field angles all travel in the requested direction at the speed of light of the initial medium, pass through the requested points of the stop surface, and start in phase on one plane wavefront at the documented distance before the stop (or, for a finite source, start together at the source point). Number, order and weights of rays are as documented, random sampling stays within bounds and is reproducible from its generator.",
  ["inputs", "configurations"],
  "all pattern parameters (counts, extents, spacings, vectors, quadrature), directions, projections, stop surfaces, media, sources",
  "Tests fix a plane stop at the origin in vacuum with near-vertical directions; finite sources, tilted or curved stops and vector spacings are untested.",
  ["batoid/rayVector.py", "src/batoid.cpp", "batoid/utils.py"],
  [("stop points lifted to the stop surface, then moved back to a common wavefront plane", "batoid/rayVector.py")],
  "positions, velocities and times of generated rays")

p("C18", "Field angles and direction cosines convert consistently in every projection",
  "For each supported projection the conversion from field angles to direction cosines yields a unit vector pointing downward per the documented formula, the inverse conversion returns the original angles throughout the projection's domain (its antipode aside), and the six projections agree to first order near the axis. Scalars and arrays of any shape give the same values, and unknown projections are rejected.",
  ["inputs"],
  "all angles in each projection's domain, including zero, tiny and large angles and arrays",
  "Tests check round trips at random moderate angles only.",
  ["batoid/utils.py"],
  [("closed-form projection formulas and their inverses", "batoid/utils.py")],
  "values of both conversions")

p("C19", "Wave quantities follow the plane-wave definition",
  "For every ray, wave number and angular frequency follow from its velocity and wavelength, phase at a point and time equals the plane-wave phase referenced to the ray's own position and time, complex amplitude equals exp(i phase), and the coherent sum equals the sum of flux times amplitude over the rays that have not failed, and are not vignetted when those are to be ignored. Propagating a ray moves it along its velocity to the requested time and leaves its phase everywhere unchanged.",
  ["inputs"],
  "all rays, speeds, wavelengths, points and times",
  "Tests check metre-scale random rays at a few points; batch sizes, failed rays and invariance under propagation are not covered.",
  ["src/rayVector.cpp", "batoid/rayVector.py"],
  [("phase formula scaled by speed squared", "src/rayVector.cpp")],
  "values of phase, amplitude, sum, position and propagation queries")

p("C20", "Ray bundles behave like a sequence of rays",
  "Indexing with any integer, slice, integer array or Boolean mask selects the same rays as the equivalent selection on the underlying arrays, with all attributes and the frame preserved; out-of-range indices fail, and iteration, reversal, length and concatenation agree with indexing. Selections and copies never share later modifications with the original, and broadcasting of scalars and arrays at construction follows array rules.",
  ["inputs", "programs"],
  "all bundles (including empty and single), index kinds, sequences of selections and in-place operations",
  "Tests check only the first ray of integer selections and never modify a selection afterwards.",
  ["batoid/rayVector.py"],
  [("selection of all attribute arrays", "batoid/rayVector.py")],
  "attribute arrays of selections, concatenations and originals")

p("C21", "Wavefront analysis agrees with an independent optical-path computation",
  "Wavefront maps equal the optical path differences, in wavelengths, of the traced rays to the reference sphere centred on the chief or mean image point, zero for the reference ray, with vignetted samples masked; spot positions, pupil-to-image and field-to-image derivatives, Zernike decompositions (direct, quadrature, transverse and double) are consistent with those rays and with each other. Adding a known small aberration to the system adds the corresponding coefficients.",
  ["inputs", "configurations"],
  "all shipped systems and random small telescopes, fields, wavelengths, sampling sizes and references",
  "Tests compare pairs of the library's own functions at a few fields; neither is checked against an independent path-length computation.",
  ["batoid/analysis.py", "batoid/rayVector.py", "batoid/utils.py"],
  [("rays traced to a reference sphere and phases differenced", "batoid/analysis.py")],
  "returned maps, coefficients and matrices against a reference computed from recorded rays")

p("C22", "Optical path screens add exactly their path and deflect by its gradient",
  "Rays crossing a path-difference screen stay at the crossing point, change direction by the gradient of the screen in the two tangential direction cosines, keep their speed, and have the screen's height added to their accumulated path with the documented sign, whichever way they cross. A zero screen changes nothing, deflections beyond grazing are failed, and screens take part in every form of tracing.",
  ["inputs", "configurations"],
  "all screen and carrier surfaces, orientations, incidence directions, both tracing directions and forms",
  "Tests place a few weak screens on plane carriers at normal incidence in one telescope.",
  ["src/batoid.cpp", "batoid/surface.py", "batoid/optic.py", "batoid/trace.py"],
  [("direction cosines shifted by screen gradient in the local tangent frame", "refractScreen in src/batoid.cpp")],
  "ray state before and after each screen")

p("C23", "PSFs and sampled maps carry correct coordinates and normalisation",
  "The coordinates a sampled map reports follow its primitive vectors and centre for any shape and (possibly skewed) vectors, and a computed point-spread function is non-negative, normalised as documented, and equals the squared modulus of the coherent sum over the pupil rays at those coordinates. Direct and Fourier computations agree, to the accuracy of sampling, for even and odd sizes and any padding.",
  ["inputs", "configurations"],
  "all map shapes and vectors, pupil sizes, paddings, fields and wavelengths",
  "Tests use one or two even sizes and compare two library routines on one telescope.",
  ["batoid/lattice.py", "batoid/analysis.py"],
  [("reciprocal lattice vectors and index ranges centred at n/2", "batoid/analysis.py, batoid/lattice.py")],
  "returned arrays and coordinates against direct sums")

p("C24", "Configuration files build exactly the system they describe",
  "Building a system from a configuration produces elements whose surfaces, media, obscurations, coordinate systems and attributes equal those written in the configuration, with nested frames composed and media inherited as documented; the configuration itself is left unmodified, so building twice gives equal systems. Every shipped telescope loads, resolves its file by name, and, where it states a pupil, traces its nominal beam to its detector.",
  ["configurations", "inputs"],
  "all configuration trees of documented keys, all shipped files",
  "Tests load some shipped files; no test relates arbitrary configuration values to built attributes or builds twice from one configuration.",
  ["batoid/parse.py", "batoid/optic.py", "batoid/data"],
  [("recursive parser per configuration type", "batoid/parse.py")],
  "attribute trees of built systems; configuration objects before and after")

p("C25", "Gridded surfaces interpolate their samples smoothly and reject the outside",
  "A bicubic surface reproduces the supplied heights, slopes and cross-derivatives at every grid node, is continuous with continuous slopes across cell boundaries, reproduces polynomials up to cubic exactly when given exact derivatives, and uses differences of the samples when derivatives are omitted. Its normal matches its slope everywhere; outside the grid it yields NaN or zero as configured, and rays missing the grid fail (under the NaN policy).",
  ["inputs", "configurations"],
  "all grid sizes, origins, spacings, samples, derivative choices and out-of-grid policies",
  "Tests compare smooth functions within loose tolerances in grid interiors.",
  ["src/table.cpp", "src/bicubic.cpp", "batoid/surface.py", "pysrc/table.cpp"],
  [("Hermite interpolation on a regular grid", "src/table.cpp"), ("finite-difference derivatives when omitted", "batoid/surface.py")],
  "sag and normal values at, between and outside nodes")

p("C26", "Calls never modify or capture their caller's data",
  "No public constructor or function modifies arrays, lists, dictionaries or objects passed to it, except the ray bundles documented to be transformed in place (which are also returned). Objects keep no view of the caller's arrays (the data array of a sampled map excepted, which the map is a container of): changing those afterwards does not change the object, and changing arrays handed out does not corrupt shared library state or other objects.",
  ["inputs", "programs"],
  "all public constructors, factories, queries and transforms; arrays of any dtype and layout",
  "Tests never modify or re-inspect their arguments after a call.",
  ["batoid/rayVector.py", "batoid/surface.py", "batoid/medium.py", "batoid/obscuration.py", "batoid/coordTransform.py", "batoid/coordSys.py", "batoid/parse.py", "batoid/analysis.py", "batoid/optic.py", "batoid/lattice.py"],
  [("copies taken at construction; in-place work done on copies", "batoid/*.py")],
  "byte-level snapshots of every argument before and after each call")

p("C27", "Dropped objects give everything back",
  "Whatever was built, used, derived, copied, pickled, traced, analysed or refused with an exception, once the program holds none of it any more the memory the core allocated for it is freed, the interpreter keeps no object and no reference to it, and no file or thread stays open: repeating any history does not grow the process, and a chain of derived objects keeps only its last member.",
  ["programs", "schedules"],
  "all histories of public calls, successful or raising, over all kinds of objects",
  "Tests build each object once and end with the process; nothing in them can see what stays behind.",
  ["src/sum.cpp", "src/obscuration.cpp", "src/asphere.cpp", "src/dualView.cpp", "pysrc", "batoid"],
  [("destructors and shared ownership of the core's objects", "src/*.cpp"), ("lifetimes of wrapped objects", "pysrc/*.cpp"), ("lazy attributes and caches", "batoid/*.py")],
  "live blocks of the core's allocations; objects and references of the interpreter; weak references")

p("C28", "Drawings and global ray paths show the model and the rays as they are",
  "The outline of an element (three-dimensional drawing for either plotting interface, mesh, two-dimensional slice) consists of points on its surface, at its place and orientation in global coordinates, between the inner and outer radius given by its obscuration, covering both edges and both meridians; an element without a radius is left out and does not prevent the rest from being drawn; a system's drawing is that of its elements, restricted to the types asked for. The global ray array holds, for any first and last surface and any reference frame, each ray's point entering the first surface and leaving each one, and the number of points up to where it is vignetted; drawn ray paths are those points. A Zernike pyramid shows each coefficient's own values at the given places in its own panel, ordered by radial and azimuthal order. Drawing changes nothing.",
  ["inputs", "configurations"],
  "all elements and systems with their frames, surfaces and obscurations, all traces, ranges of surfaces, frames, and Zernike ranges",
  "The tests of drawing only call it on one shipped telescope and look at no coordinate.",
  ["batoid/optic.py", "batoid/plotUtils.py"],
  [("points from the sag of the surface, moved to global coordinates", "draw3d, get3dmesh, getXZSlice in batoid/optic.py"), ("vertices of every surface of a trace log moved to one frame", "getGlobalRays in batoid/optic.py"), ("grid of panels", "batoid/plotUtils.py")],
  "lines received by recording axes and by real figures; arrays returned")

p("C29", "Objects are what their constructors are told, with the documented defaults",
  "Whichever documented way a surface, medium, coating, obscuration, coordinate system or transform, optical element, compound or lattice is constructed (positional or keyword arguments in any order, optional arguments left out, sequences of any kind, single items or lists), the object holds exactly the stated parameters, the documented default for every parameter left out, and behaves accordingly. Compounds hold their items in order, list the natural light path, and give every item under its full name and every unambiguous partial name, and refuse ambiguous or unknown names. Arguments that describe no object (wrong lengths, empty sums, bad starting powers, unknown policies, different media around a screen) are refused.",
  ["inputs", "configurations"],
  "all constructors, spellings of arguments, subsets of optional arguments, trees of compounds with repeated names",
  "Tests construct each object in one or two spellings and compare with attributes of the object itself.",
  ["batoid/surface.py", "batoid/medium.py", "batoid/coating.py", "batoid/obscuration.py", "batoid/coordSys.py", "batoid/coordTransform.py", "batoid/optic.py", "batoid/lattice.py"],
  [("constructors and defaults", "__init__ of every class"), ("names to items", "itemDict and _names in batoid/optic.py")],
  "attributes and query results of freshly constructed objects")

p("C30", "The same call gives the same result, whatever happened before",
  "Any sequence of public calls gives, for each call, the result the same call gives on its own: repeated, after other calls in any order, after calls that were refused, on objects built anew at reused addresses, on arrays or bundles whose contents were overwritten in place, after attributes of an element were assigned (and after they were put back), with another hash seed, working directory, thread count, numpy error or random state, or in another process. Results are the same bit for bit (coherent sums to rounding), random sampling draws only from the generator given, and no call leaves files behind.",
  ["histories", "inputs", "environments"],
  "all histories of public calls on shared or fresh objects, in one process or several",
  "Each test makes its calls once, in one order, in one process.",
  ["batoid", "src"],
  [("arguments become core objects and views", "batoid/*.py constructors and batoid/trace.py"), ("synchronised views of ray data", "batoid/rayVector.py and src/dualView.cpp"), ("initial guesses, tables and coefficient arrays", "src/*.cpp")],
  "results of every call as plain data, compared bit for bit between histories")

p("C31", "Traced light obeys Fermat's principle and conserves etendue along any path",
  "For light traced through any surfaces, media, plane path-difference screens in vacuum, frames and systems, forwards, backwards or along any path of reflections, neighbouring unfailed rays stay related as light must be: the difference of their clocks equals the optical momentum (index times direction) of the ray times the displacement between them, up to what it was before (wavefronts stay perpendicular to rays), and the symplectic product of any two small displacements of a ray in place and momentum is unchanged (etendue is conserved).",
  ["inputs", "configurations"],
  "all optical systems, paths, rays and pairs of displacements",
  "Tests check single surfaces or reference numbers; no test relates the times and directions that a whole system gives to neighbouring rays.",
  ["src/batoid.cpp", "src/surface.cpp", "batoid/surface.py", "batoid/optic.py", "batoid/rayVector.py"],
  [("directions and clocks after each interaction", "intersect, reflect, refract, refractScreen in src/batoid.cpp"), ("normals and heights of surfaces", "src/*.cpp of the surfaces"), ("order of elements, media and frames", "trace in batoid/optic.py")],
  "states of families of neighbouring rays before and after each trace")

p("C32", "Nothing depends on the unit of length, handedness or the naming of the axes",
  "A copy of a surface, aperture, optical system or telescope, with its rays, that is mirrored in x or y, has x and y exchanged, is turned over along z or is measured in another unit of length gives the mirrored, exchanged, turned-over or rescaled results: heights, normals, intersections, refractions, reflections, path-difference screens, vignetting, traces in every mode, bundles of rays made for it, phases, and spots, wavefronts, Zernike coefficients and derivatives of images. No axis, sign or absolute length is special beyond documented defaults and the rounding of results.",
  ["inputs", "configurations"],
  "all surfaces, apertures, systems, rays, mirrorings and units",
  "Tests use one unit, one handedness and mostly symmetric systems; an error in one sign, one axis or one absolute length passes them.",
  ["src/*.cpp", "batoid/surface.py", "batoid/obscuration.py", "batoid/optic.py", "batoid/rayVector.py", "batoid/analysis.py"],
  [("sag, normal and time to each surface", "src/*.cpp of the surfaces"), ("containment in apertures", "src/obsc*.cpp"), ("bundles", "asGrid, asPolar, asSpokes, fromStop in batoid/rayVector.py"), ("spot, wavefront, zernike, zernikeGQ, dkdu, drdth, huygensPSF", "batoid/analysis.py")],
  "results of paired calls on a system and on its mapped copy")

p("C33", "The interactive view shows what its controls say, whatever was turned before",
  "In the interactive view of the Rubin telescope (batoid.app), after any sequence of changes to its controls: sidereal time is that of the date and longitude; right ascension and declination name the same direction as altitude and azimuth, and each stays while the other follows (the telescope stays where it points as time goes by); stars, constellations, telescope, bearings, rays, focal plane and the axes of every frame are drawn where the controls put them (camera turned by the rotator, telescope about its azimuth and elevation axes, the sky seen from the site), are visible when their box is ticked, and nothing below the horizon is shown when it is clipped; the spot diagram and the wavefront are those of the field angle, rotator angle, detector shift and Zernike perturbation set, with x and y along the axes shown.",
  ["histories", "inputs"],
  "all sequences of control values: dates, directions away from the poles, rotator and field angles, detector shifts, perturbations and tick boxes",
  "No test runs the view.",
  ["batoid/app.py", "batoid/optic.py", "batoid/analysis.py"],
  [("sidereal time and change of coordinates", "lst, eq_to_az, az_to_eq in batoid/app.py"), ("what follows from a control", "RubinCSApp.handle_* and update_*"), ("what is drawn", "RubinCSApp._*_xyz, update_spot, update_wf")],
  "coordinates, visibility, spot offsets and wavefront image held by the drawn objects after every change of a control")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        fh.write(json.dumps(q) + "\n")
print(len(P))
