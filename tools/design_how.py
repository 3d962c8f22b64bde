HEAD = r"""# Solver-based checking of huira

Written by `tools/design.py` from the text in `tools/design_how.py`, the harness files, `known-findings.txt` and `seeded/`. `props_list.py` is the source of properties.jsonl and MANIFEST.json (`./props.py`).

## What is here
* `check.py P [quick|thorough] [entry]`: the runner. It compiles `harness/P*.cpp`, which include only huira's public headers and call its public API (protected members through derived classes), together with the *current* headers of /repo to LLVM bitcode (clang 18), executes each harness entry symbolically with `build/vpse`, replays every counterexample and one witness per entry on the natively compiled harness, and writes `evidence/P.json` (functions encoded, bounds, queries, solver time, what was not covered).
* `engine/`: the symbolic executor `vpse`, written for this task (about 2,500 lines of C++): LLVM IR interpreter with forking paths, bounds-checked byte-precise memory, exceptions, virtual calls, the parts of libc and libstdc++ that are not in headers (`rt.cpp`; streams, paths and a file system in memory: `rt_stream.cpp`), and three deciders.
* `harness/`: `vp.hpp` (inputs, assertions), stand-ins for libraries (`stubs/`: CSPICE, which is absent here, TBB; `embree.hpp`; the FFT and importing libraries), and one or more files per property.
* `tools/`: `seedspec.py` and `mkseeds.py` (planted bugs: build patch, demonstration and confirm them), `try.sh`, `all.sh`, `design.py`.
* `seeded/`: the planted bugs. `known-findings.txt`: repairs and the one defect recorded and not repaired.

## How a property is decided
Inputs are symbolic: reals, bit-vectors, bytes, choices among finitely many alternatives. A branch on them forks; every `vp_check` is a query "path condition and not the assertion", and `unsat` discharges it for all values on that path. All paths within the bounds are executed. Deciders, in order: polynomial normal forms modulo the path's equations (identities such as orthonormality), Z3 in process (linear, nlsat, bit-vectors, floating point), and a portfolio of external solvers (cvc5, two z3 versions) for hard queries. A counterexample is replayed on the natively compiled harness; only one that fails there is a violation.

* *real mode*: double and float are exact reals extended with NaN and the infinities. Rounding is out of scope; the tolerances in the harness are wide enough for it natively. This finds wrong formulas, signs, frames, indices, caches and edge cases; it cannot find loss of precision.
* *fp mode*: bit-precise IEEE-754 and two's complement, for byte parsers, bit tricks and index arithmetic.
* Transcendental functions: sin and cos as a pair with s^2+c^2=1 and exact multiple-angle and sum expansion; sqrt, acos, atan2, exp, log, pow by defining axioms and monotony. What the axioms do not settle is undecided, not passed; a model that is not consistent with the true function does not replay and is not reported.
* Slices: when an assertion stays undecided, or its counterexample does not replay because of an abstracted function, the entry is executed again with most real inputs fixed to generic values, and the solver decides the remaining dimensions. Slices only find counterexamples; they never discharge an assertion.
* Everything undecided, unsupported or dropped is counted in the evidence (`not_covered`). On the unchanged tree all entries of the quick tier complete with none of these.

Memory safety (out-of-bounds, uninitialised and freed memory, division by zero in integers, float-to-integer overflow with `--castcheck`, signed overflow with `--ovf`) is checked on every path of every entry in addition to the assertions.

Checks take 10 to 70 s each (quick). The thorough tier raises time limits and sizes where an entry says so.

## What the tests of the repository cannot reach
They cover rotations and units at sample values. Everything below quantifies over values, histories, layouts, file contents, schedules or random draws, of which a test could only sample some. 109 defects were found in the pinned commit and repaired (`fix:` commits, listed per property); most needed a particular combination: a second use of the same object, an axis convention, a mirrored transform, an exact boundary, a truncated file.

## Common limits
* The ray-tracing, FFT, model-importing and ephemeris libraries, and the schedulers of TBB, are modelled by their documented interfaces; their own code is not executed. The image codecs (libpng, libjpeg-turbo, libtiff, cfitsio) likewise, where used.
* Pieces of parallel work run one after another, in any order. Data races between pieces are visible only as dependence on that order.
* Logging is skipped.
* Spectral types: 3-bin RGB throughout, other bin layouts in C05 and C24.
"""
HOW = {
"C01": "Each constructor is executed on arbitrary axes, angles, quaternions, Euler sequences (all 27, three spellings) and matrices; orthonormality, handedness, the documented active/passive convention, composition, inversion and round trips are polynomial identities over sin/cos pairs, checked against Rodrigues' formula written independently. Invalid and NaN matrices must be refused.",
"C02": "Composition, inversion and application for all positions, rotations, uniform scales, velocities and angular velocities, against the derivative of the moving-frame formula; `to_matrix` against application.",
"C03": "Every declared unit is converted with a symbolic value and compared with its definition as an exact rational; every pair of units of a dimension, literals, mixed arithmetic and comparisons.",
"C05": "All bin values and layouts of up to 8 bins: operations bin by bin, statistics, and integration of sampled curves against an independent trapezoid written over the union of break points.",
"C06": "Aberration against the Lorentz transformation of the photon momentum (a rational function of direction, velocity and gamma), Planck's law and photon energies against their formulas with exp by its functional equation, magnitudes against pow axioms.",
"C07": "The forward models as polynomials (or ratios) in point and all coefficients against the published formulas; removal of distortion by executing the fixed-point iteration on one symbolic coefficient at a time and checking the residual.",
"C08": "Projection, ray casting, field of view, solid angles and lens sampling are executed on the same symbolic camera and point and tied together; oracle is the pinhole equation written from the settings. Four intrinsic configurations incl. both axis conventions, with each distortion.",
"C09": "History is symbolic: every sequence of two (thorough three) of ten settings is executed, then every observable of the camera is compared, for a symbolic point and pixel, with a camera that got the final settings once.",
"C10": "The readout is executed with symbolic light, exposure and settings against the chain of photon energy, efficiency, full well, gain, bit depth; noise with the actual first draws of the library's generator.",
"C11": "Disc sampling is shown to be onto and area preserving (Jacobian via the inverse map) and kernels are summed and compared pixel by pixel with the disc's geometry.",
"C12": "Bit-precise index arithmetic: all coordinates, sizes and wrap modes, including NaN, infinities and values near the integer limits; interpolation weights as polynomials.",
"C13": "The convolution of symbolic images with symbolic or patterned kernels on the direct and on the transform path, each against the definition of convolution; the FFT library is its defining sum with exact roots of unity.",
"C14": "All values of all pixel types (bit-precise for integers), both colour encodings against their definitions with pow axioms.",
"C15": "File bytes are symbolic in each part of the format in turn (header fields, palette, rows, run lengths, truncation); an independent decoder in the harness says which files are valid and what they mean. Memory is the exact size of the file, so any read outside is an error.",
"C16": "As C15 for TGA: every image type, depth, palette and run-length packet.",
"C17": "As C15 for Radiance HDR: header text, flat and run-length scanlines, orientation, exponents.",
"C18": "Colour maps over all depths and normals; the dispatcher on every three-letter extension (symbolic characters), reading files in the in-memory file system and comparing with the readers.",
"C19": "Polygons are clipped with symbolic vertices against a symbolic frustum and both containment and completeness are queried with a symbolic witness point; time intervals in view likewise.",
"C20": "Arcs through symbolic samples: interpolation, spline smoothness, and crossings found against the sign of the plane function at a symbolic time between reported crossings.",
"C21": "Intersection with symbolic radii, origin and direction against the quadric: no hit off the surface, no nearer point missed (a symbolic surface point as witness), normals, texture coordinates, transparency filter, bounds.",
"C22": "The buffers handed to the ray-tracing stand-in are read back, bounds are symbolic, interpolated data against barycentric sums; bad indices refused.",
"C23": "Offsets of ray origins bit-precisely; frames from any normal; reciprocals of directions.",
"C24": "Each reflection model against its published formula, reciprocity, the horizon, and consistency of sample/pdf/evaluate for symbolic directions, parameters and random numbers.",
"C25": "Each sampler's reported density is compared with the Jacobian of its map from the unit square, by exact differentiation through a second execution of nearby inputs or through its inverse in closed form.",
"C26": "Materials with symbolic images and factors, symbolic frames; the shading normal must be the perturbed one, orthonormal frames in every degenerate case.",
"C27": "Lights sampled with symbolic places and random numbers against solid-angle formulas; media against Beer's law and the stated phase functions; the stack of overlapping volumes against a list in the harness, for all sequences of entering and leaving within the bounds.",
"C28": "Catalogue lines with symbolic digits and truncation points, independent parser in the harness; binary catalogues written and read back; proper motion and brightness against their formulas.",
"C29": "CSPICE is a stand-in whose tables are symbolic: what is asked (body, frame, epoch, correction) and how answers are turned into states is compared with the documented meaning; orbits against Kepler's equation.",
"C30": "Histories of settings on a tree of nodes with symbolic states, compared with composition of moving frames written in the harness; every kind of source (manual, SPICE, callbacks, Euler angles), every query.",
"C31": "All histories of up to three additions, renamings and deletions over every kind of object; names and references are compared with a list in the harness.",
"C32": "Irradiances with symbolic places, sizes, albedos and distances against the phase integrals and the H-G system written independently.",
"C33": "A view is built of a scene with symbolic places and motions; what the ray-tracing stand-in was given, and what hits, shading frames and shadow rays come back as, is compared with where things are at the symbolic time. Aberration and light time included.",
"C34": "Images of 2x2 or 3x2 pixels are rendered with the library's path tracer: random numbers are symbolic or scripted, surfaces are planes met analytically, and every pixel is compared with the transport sum written in the harness: emission, background, lights (with multiple importance sampling weights summing to one), transparency, transmission, media, roulette, dynamic sampling, clamping, all auxiliary images.",
"C35": "Points are rendered with symbolic places and brightnesses and total and placed light is compared with the point-spread function, also across tiles, occluders, motion and exposure edges.",
"C36": "The scheduler is symbolic: pieces of work run in every order (within the bounds), system randomness is arbitrary, other renderings come before; results must be identical terms.",
"C37": "The importing library is a stand-in that hands over symbolic meshes, nodes, materials and textures; the scene's view of the loaded model is compared with the description. Texture files exist in the in-memory file system or not.",
"C38": "CFITSIO is a stand-in (harness/fits.hpp) that keeps header cards, converts pixels as CFITSIO was observed to do (truncation, overflow as an error, undefined pixels on request) and can fail at any call. Pixels and keyword numbers are symbolic; written files are read again, also through a second file of another type. Rounding is a fresh variable within half of the argument (`--symround`), so counts are not enumerated.",
"C39": "libpng, libtiff, TurboJPEG and the C file functions are stand-ins (harness/codec.hpp) that keep the samples and header fields they are given, expand palettes and transparency, cut images into rows, planes and tiles and fail at a chosen call. Written images have three arbitrary pixel values, among fixed ones at the ends of the range and an undefined one; their conversion to samples is kept symbolic (the bits of the sample are unknowns tied to the value), so that half a step is decided for all values at once. Foreign files have one arbitrary sample and all others told apart by position, for every layout. Oracle: the image written, or the sample's place in the file by the format's definition. Images larger than an int counts are checked to fail for want of memory rather than to be decoded into less.",
"C40": "Each setting is made through a handle of a scene and directly on a twin, with arbitrary values, and everything observable of the two is compared: a user's sensor class that remembers itself gives the camera's own sensor, a user's aperture class the optics it was asked to blur for; projection, rays and collected light for arbitrary points; images rendered with both; apparent transforms; evaluated materials. Then validity after every order of deletion, with and without the objects being held.",
"C41": "Sequences of messages with symbolic levels, level changes and resizes are logged, and what listeners hear and what is in the written file is compared with a list kept beside. Signals are recorded instead of delivered: the installed handler is called for each crash signal, inside zero to two scopes, with crash handling on, off or on again, once and then again; the check is on the file and on the signal being raised again with its default action. Streams and files are the engine's models.",
"C42": "The commands' own sources run against a server that refuses, breaks off, kills the process or delivers in two pieces, and a disk of limited room; the fault, the file, the folder, what was there before and the options are choices. Files left behind are compared with what the server holds, and the command is run again. The word list of the command line is symbolic over eight words. Every assertion goes to the solver per path, though most values are choices rather than wide symbolic ranges.",
}
TAIL = r"""## False alarms met, and what was changed
* Tolerances: several identities held only in exact arithmetic; tolerances are chosen so that the native replay of any input within the bounds passes.
* C36 first required identical sensor responses; the sensor's noise generator is deliberately one for the process, so the statement is about received light.
* C07: inversion for arbitrary coefficients has no solution near poles and folds; the statement is restricted to mild distortion.
* C02, C37: transforms hold a rotation and a scale, so an unevenly scaled or mirrored parent of a rotated child is not representable; properties say so.

## Looked at and left alone (not claimed, no check relies on them)
Behaviour that seemed questionable but is documented, a matter of design, or outside what exact arithmetic can judge: precision of the solid angle at very long focal lengths; BMP bit masks and the right-to-left bit of TGA are ignored; HDR XYZE is not converted and old-style run-length HDR is not supported; huge declared image sizes allocate before failing; most setters of apertures and sphere lights do not validate; two non-inline functions in headers (`trajectory_arc`, `load_tycho2`); Lambertian evaluation ignores the viewer below the horizon; the medium stack holds 8 and silently drops more; nadir frames are computed in single precision; `visual_magnitude_to_irradiance` mixes photon and energy flux; the inverse of an unevenly scaled transform; uninitialised right ascension in `StarData`; position callbacks ignore the rule about SPICE children; a root frame can still be given Euler angles; an emitter at distance zero; `set_name("")`; unresolved objects find their light by asset and not by instance; points just outside the image lose the wings of their point-spread function; a camera under a scaled frame scales its view; the noise generator of sensors is one for the process; surfaces with a null reflection model block shadow rays unless they transmit; the effective radius of point-spread functions is that of their central bank; textures of models in PNG files without an sRGB chunk, and raw embedded ones, are not linearised; OBJ diffuse colours are ignored; `set_all_bsdfs` on a model with a default material changes the scene's default; `linspace` with one point divides by zero; Harvey-Shack scatter settings are stored but nothing in the renderer uses them; objects still held by the user count as in the scene after the whole scene is destroyed.

## Not covered
Precision (see real mode), performance, the log, `platform/` and `util/paths`, printing of scene graphs, and the codecs themselves.
"""
