prop("C01", "Rotations are proper, follow one convention, and compose and invert",
 "Every rotation built from an axis and angle, a quaternion in either component order, Euler angles, basis vectors or a matrix is a proper orthonormal rotation, turns vectors the way its documented convention says, and agrees with every other representation obtained from it. Composing applies the right operand first, the inverse undoes the rotation, and local-to-parent and parent-to-local constructions are inverse to each other. Malformed sequences, left-handed or degenerate bases, non-unit determinants and non-finite matrices are rejected.",
 "all axes, angles, unit quaternions, Euler sequences, rotation matrices and vectors",
 "tests sample a handful of angles; the convention must hold for every axis, angle and sequence",
 [I+"core/rotation.hpp", M+"core/rotation.ipp"], [("constructors and conversions", M+"core/rotation.ipp")], ["public Rotation API"],
 "Angles in [-7,7] rad; all 27 Euler sequences.")
prop("C02", "Transforms apply, compose and invert consistently, including motion",
 "Applying a composed transform equals applying its parts in sequence, for points, directions, velocities and angular velocities, with the transport term of a rotating parent included. The inverse undoes a transform in position, orientation, scale and motion, and the matrix and ray-tracing-pose exports describe the same map as the transform itself.",
 "all positions, rotations, scales, velocities and angular velocities (uniform scale where the result is composed with a rotation)",
 "no existing test covers transforms; the law quantifies over pairs and triples of arbitrary transforms",
 [I+"core/transform.hpp", M+"core/transform.ipp"], [("composition, inversion, application", M+"core/transform.ipp")], ["public Transform API"],
 "Uniform parent scale where a rotated child is composed; associativity with one arbitrary and two axis rotations.")
prop("C03", "Unit conversions are exact, invertible and dimensionally consistent",
 "Every declared unit converts to and from the SI unit of its dimension by its exact definition, converting between any two units of a dimension preserves the physical value, and arithmetic and comparison across units agree with the arithmetic and comparison of the SI values. Products, quotients and reciprocals carry the right dimension and value, quantities of different dimensions do not interconvert, and NaN is never accepted as a quantity.",
 "all values, all declared units and unit pairs",
 "tests compare some units at sample values; several units, literals and mixed expressions are never exercised",
 [I+"units/units.hpp", I+"units/quantity.hpp", I+"units/spectral_quantity.hpp", M+"units/quantity.ipp", M+"units/spectral_quantity.ipp"], [("ratio and tag scaling", I+"units/quantity.hpp")], ["public quantity API, literals"],
 "Values within [-1e6,1e6].")
prop("C05", "Spectral bins compute band by band and preserve flux",
 "Arithmetic on spectral values acts bin by bin, independently of how the bins were laid out, and a value is reported valid exactly when every bin is finite and not negative. Total, mean and maximum agree with the bins; integrating a sampled curve or an RGB colour over the bins assigns each bin its share and preserves what is covered; malformed layouts and curves are rejected.",
 "all bin values, layouts and sampled curves within the bounds",
 "no test touches spectral values; the laws hold for every layout, value and curve",
 [I+"core/spectral_bins.hpp", M+"core/spectral_bins.ipp"], [("operations and layouts", M+"core/spectral_bins.ipp")], ["public spectral API"],
 "Up to 8 bins; curves with up to 3 samples (thorough: any ordering).")
prop("C06", "Relativistic and radiometric formulas are physically right",
 "Aberration is the Lorentz transformation of light directions: unit directions stay unit, the two observers' directions are inverse to each other, the angle to the motion follows the relativistic formula and speeds of light or more are rejected. Photon energy, black-body radiance, stellar magnitude and V-band conversion and tabulated integration follow their defining formulas in every spectral band.",
 "all directions, velocities below light speed, wavelengths, temperatures and magnitudes within the bounds",
 "no test evaluates the formulas; sign, frame and scale errors hide at slow speeds and common values",
 [M+"core/physics.ipp", I+"core/physics.hpp"], [("aberration, Planck, magnitudes", M+"core/physics.ipp")], ["public physics functions"],
 "Speeds to 0.9 c; exp and pow by their functional equations and bounds.")
prop("C07", "Lens distortion follows its model and undistortion inverts it",
 "The Brown, OpenCV and Owen distortions evaluate their published polynomials with the coefficients the user set, stay finite where a rational model has a pole, and removing the distortion of a mildly distorted point gives the point back within the requested tolerance and a bounded number of steps.",
 "all image points and coefficients within the bounds",
 "no test covers distortion; the models have up to twelve interacting coefficients",
 [I+"cameras/distortion/distortion.hpp", M+"cameras/distortion/opencv_distortion.ipp", M+"cameras/distortion/brown_distortion.ipp", M+"cameras/distortion/owen_distortion.ipp"], [("forward models and their inversion", M+"cameras/distortion/brown_distortion.ipp")], ["public distortion API"],
 "Inversion: one varying coefficient at a time, within 0.02.")
prop("C08", "Camera projection, rays, visibility and light collection agree",
 "A point projects by the pinhole model with the camera's focal length, pixel pitch, principal point, axis convention and distortion, and the ray cast through its image passes through the point; a point is in view exactly if it projects onto the sensor. Each pixel collects light over the solid angle it spans and the aperture projected in its direction. With depth of field, rays start on the aperture and those of one pixel meet at its point of the focal plane, or are parallel when focused at infinity.",
 "all points, pixel positions, focal lengths, f-numbers, focus distances and lens samples within the bounds",
 "no test constructs a camera; the relations tie four independent code paths and caches together",
 [I+"cameras/camera_model.hpp", M+"cameras/camera_model.ipp", I+"cameras/apertures/circular_aperture.hpp", "include/huira_impl/render/frustum.ipp"], [("projection, ray casting, frustum, solid angles", M+"cameras/camera_model.ipp")], ["public camera API"],
 "Sensors of 3x4 pixels in four intrinsic configurations.")
prop("C09", "A reconfigured camera behaves like a freshly configured one",
 "Whatever sequence of focal-length, sensor, intrinsic-matrix, axis-convention, distortion, aperture and focus settings led to a configuration, the camera's rays, projections, field of view, light collection and lens sampling are those of a camera set up once with the final settings. The aperture keeps its physical size until it is set, and a rejected setting changes nothing.",
 "all histories of two (thorough: three) reconfigurations out of ten, every pixel and every point",
 "the state is a set of caches derived from settings; a stale cache shows only after particular histories",
 [I+"cameras/camera_model.hpp", M+"cameras/camera_model.ipp"], [("setters and cached products", M+"cameras/camera_model.ipp")], ["public camera API"],
 "Sensors of up to 3x3 pixels, histories of 2 (thorough 3).")
prop("C10", "A sensor turns received light into counts by its stated parameters",
 "Without noise every reading is the received energy in photons times the quantum efficiency, limited by the full well, divided by the gain and clipped to the range of the bit depth, channel by channel for colour and summed over the bins otherwise; with noise, readings scatter about the same value plus dark current times exposure plus bias by no more than read and shot noise allow. Settings are reported as set, decibel gains follow the 20 dB per decade law, and impossible values are rejected without effect.",
 "all received powers, exposures and sensor settings within the bounds",
 "no test reads a sensor out; saturation, exposure and scale errors show at particular settings only",
 [I+"cameras/sensors/sensor_model.hpp", M+"cameras/sensors/sensor_model.ipp", M+"cameras/sensors/simple_sensor.ipp"], [("readout and settings", M+"cameras/sensors/simple_sensor.ipp")], ["public sensor API, frame buffer"],
 "Noise is checked on the generator's actual first draws against a six-sigma bound.")
prop("C11", "Apertures sample their disc evenly and blur without losing light",
 "Area, diameter and bounding radius of a circular aperture describe the same circle, and lens samples cover exactly its disc, evenly. Every defocus kernel is the whole disc of confusion, of radius aperture radius times focal length times defocus, about the sub-pixel position it stands for, and spreads light without gain or loss; blur below half a pixel is no blur.",
 "all diameters, areas, lens samples and defocus settings within the bounds",
 "no test builds an aperture; the edges of discs and the choice of kernel depend on all values together",
 [I+"cameras/apertures/aperture.hpp", M+"cameras/apertures/aperture.ipp", M+"cameras/apertures/circular_aperture.ipp"], [("kernels and sampling", M+"cameras/apertures/aperture.ipp")], ["public aperture API"],
 "Blur radii up to 2 pixels (thorough: 4); point-spread functions are not covered.")
prop("C12", "Images store, index and sample pixels safely and correctly",
 "An image has the size asked for and invalid sizes are rejected; checked access returns the pixel that was stored and rejects every index and coordinate outside, NaN included. Nearest and bilinear sampling return the right pixel or the bilinear blend of the four around the coordinate for every pixel type, coordinates outside are clamped, repeated or mirrored as asked, and any coordinate whatsoever, infinite or NaN, samples within the range of the pixels without touching memory outside. Sums and channel extraction act pixel by pixel.",
 "all indices, coordinates and pixel values of small images, in every wrap mode and pixel type",
 "no test touches images; out-of-range and non-finite coordinates and non-square sizes are where indexing breaks",
 [I+"images/image.hpp", M+"images/image.ipp"], [("indexing, sampling, wrapping", M+"images/image.ipp")], ["public image API"],
 "Images of up to 3x3 pixels.")
prop("C13", "Convolution is the same linear filter on every path",
 "Convolving an image gives, at every pixel and in every channel, the sum of the neighbours weighted by the kernel about its centre with zeros outside the image, whichever algorithm the kernel's size selects, and a one-pixel kernel just scales. Integer images are rejected and the image keeps its size.",
 "all pixel values or kernel values, for several odd, even, non-square and larger-than-image kernel shapes",
 "no test convolves; padding, centring and orientation errors show only for asymmetric shapes and at borders",
 [I+"images/image.hpp", M+"images/image.ipp"], [("direct and FFT convolution", M+"images/image.ipp")], ["public image API"],
 "Images to 3x2 pixels, kernels to 5x6 and 1x26; the FFT library is modelled by its definition.")
prop("C14", "Pixel values convert between types and colour spaces without loss or overflow",
 "Converting a pixel to floating point and back returns it, the ends of every integer range map to the ends of the real range, values in between round to nearest and keep their order, and values outside, infinite or NaN, are clamped without overflow. Gray is the luminance-weighted mean whatever the pixel type, and sRGB encoding and decoding follow the standard curve, undo each other, and treat images pixel by pixel.",
 "all 8-bit values, all single-precision values, every pixel type",
 "no test converts pixels; rounding and overflow errors sit at single values of the range",
 [I+"images/io/convert_pixel.hpp", M+"images/io/convert_pixel.ipp", I+"images/io/color_space.hpp"], [("conversions", M+"images/io/convert_pixel.ipp")], ["public conversion functions"],
 "16-bit round trips on 4096 values.")
prop("C15", "The BMP reader decodes exactly the valid files and survives the rest",
 "Reading BMP data of any content never touches memory outside it: exactly the files whose declared pixels are all present, in a supported depth, are accepted, everything else is rejected with an error. Accepted files give every pixel's colour and transparency, in the right orientation for either sign of the height, and gray reading gives the mean.",
 "all values of every header field, all pixel bytes of small images, all truncations",
 "no test reads images; parsers fail on hostile headers that no sample file contains",
 [I+"images/io/bmp_io.hpp", M+"images/io/bmp_io.ipp"], [("header validation and decoding", M+"images/io/bmp_io.ipp")], ["in-memory readers"],
 "Files to 86 bytes; header fields vary two at a time.")
prop("C16", "The TGA reader decodes exactly the valid files and survives the rest",
 "Reading TGA data of any content never touches memory outside it: exactly the complete files of supported type and depth are accepted, everything else, including palette indices outside the palette and runs past the end of the data, is rejected with an error. Accepted files, plain or run-length encoded, gray, colour or palette, give every pixel's colour and transparency in the right orientation.",
 "all values of the header fields, all packet, index and pixel bytes, all truncations, within the bounds",
 "no test reads images; run-length and palette parsers fail on hostile data that no sample file contains",
 [I+"images/io/tga_io.hpp", M+"images/io/tga_io.ipp"], [("header validation, run-length and palette decoding", M+"images/io/tga_io.ipp")], ["in-memory readers"],
 "Files to 64 bytes, images to 3x3; fields vary two or three at a time.")
prop("C17", "The HDR reader decodes exactly the valid files and survives the rest",
 "Reading Radiance HDR data of any content never touches memory outside it: exactly the complete files with the signature and a well-formed size are accepted. Every pixel is its mantissas times two to its exponent, in linear light, scanlines are decoded flat or run-length encoded as the format says, and all four row and column orientations end up upright.",
 "all pixel bytes, packet headers, first bytes of a scanline, truncations and single characters of the size line",
 "no test reads images; the encoding of each scanline is decided by its data",
 [I+"images/io/hdr_io.hpp", M+"images/io/hdr_io.ipp"], [("header and scanline decoding", M+"images/io/hdr_io.ipp")], ["in-memory readers"],
 "Images to 3x2 flat, 8-10 x 2 run-length encoded.")
prop("C18", "Visualisation maps and format dispatch are faithful",
 "A depth map shows the nearest depth black, grows linearly to the farthest and shows emptiness white, a normal map encodes each component, and colour images convert to spectra pixel by pixel with the conversion given. The format of an image file follows from its extension, reading a file gives what decoding its bytes gives, in colour and gray, with transparency on request, and unknown or missing files are rejected.",
 "all depths, normals, colours, three-letter extensions and pixel bytes",
 "no test covers them; constant or empty views and unusual names are the failing cases",
 [I+"images/color_map.hpp", I+"images/io/read_image.hpp", M+"images/io/read_image.ipp", I+"images/io/io_util.hpp"], [("maps, dispatch", I+"images/color_map.hpp")], ["public functions"],
 "PNG, JPEG, TIFF and FITS decoding (external libraries) is not covered.")
prop("C19", "Clipping to the field of view keeps exactly what is inside",
 "A direction is inside the field of view if it is on the positive side of every bounding plane. Clipping a triangle yields pieces that lie inside the planes and the triangle, keep its orientation, cover all of it that is inside, and carry the triangle's attributes, interpolated. Clipping an arc yields, in order and apart, exactly the times at which it is inside.",
 "all directions, triangles, plane orientations, straight and parabolic arcs",
 "no test clips; lost or doubled pieces show only for particular positions of vertices and planes",
 [I+"render/frustum.hpp", M+"render/frustum.ipp"], [("polygon and interval clipping", M+"render/frustum.ipp")], ["public clipping functions"],
 "One plane with any triangle, two with four triangle shapes, three with arcs; tolerance 1e-4.")
prop("C20", "Trajectory arcs pass through their samples and lose no plane crossing",
 "An arc through direction samples passes each at its evenly spaced time, is the straight line or parabola through two or three, and through more is the natural cubic spline, smooth inside and held constant outside the exposure. The plane crossings it reports lie within the exposure, in order, on the plane, and every change of side is among them, however slow or uniform the motion.",
 "all samples and times; crossings for all lines and parabolas, and spline shapes of any size",
 "no test builds arcs; closed-form root finding fails for degenerate coefficients that samples rarely hit",
 [I+"render/trajectory_arc.hpp", M+"render/trajectory_arc.ipp"], [("spline and root finding", M+"render/trajectory_arc.ipp")], ["public functions"],
 "One to five samples; spline crossings for eight shapes scaled by any factor in [2.5e-6,1].")
prop("C21", "Rays meet ellipsoids exactly where the surface is",
 "Every hit reported for an ellipsoid is a point of its surface within the ray's extent, the nearest one is found, and where the near side is transparent the far side is. The normal points outwards, perpendicular to the surface; texture coordinates lead back to the hit point with a right-handed orthonormal frame; the bounding box contains the surface.",
 "all ray origins and extents, surface points and hit directions; radii from 0.5 to 2",
 "no test shoots a ray; errors show for particular shapes, sides or tangential rays only",
 [I+"geometry/ellipsoid.hpp", M+"geometry/ellipsoid.ipp"], [("intersection and surface callbacks", M+"geometry/ellipsoid.ipp")], ["callbacks given to the ray tracer and public functions"],
 "Single rays; four shapes and eight directions where both roots are needed; Embree is a recording stand-in; tolerance 1e-3.")
prop("C22", "Meshes give the ray tracer their triangles and interpolate their data",
 "A mesh accepts exactly the buffers whose indices are within the vertices and whose tangents, if any, are one per vertex. The ray tracer is given all its vertices and whole triangles, once, and they stay in place when the mesh is moved. At a hit, position, normal, texture coordinates, colour and tangent frame are the barycentric mean over the hit triangle's vertices, and texture lookups use the same coordinates.",
 "all vertex attributes, indices and barycentric coordinates of small meshes",
 "no test builds a mesh; wrong strides, offsets or weights show only with particular buffers",
 [I+"geometry/mesh.hpp", M+"geometry/mesh.ipp"], [("construction, acceleration structure, interpolation", M+"geometry/mesh.ipp")], ["public mesh API, buffers given to the ray tracer"],
 "Up to 4 vertices and 2 triangles; Embree is a recording stand-in.")
prop("C23", "Secondary rays start off the surface, in a proper frame",
 "The frame built around any unit normal is orthonormal and right-handed. A ray leaving a surface starts on the side the normal points to, moved in every coordinate by its own normal component, by a share of the coordinate far from zero and a fixed distance near it, for every position and normal, in single and double precision. Rays keep their origin, direction and its reciprocal.",
 "all unit normals; all positions up to 1e30, bit for bit",
 "no test offsets a ray; bit tricks fail for particular signs and magnitudes only",
 [I+"render/interaction.hpp", M+"render/interaction.ipp", I+"geometry/ray.hpp"], [("tangent frame, origin offset", M+"render/interaction.ipp")], ["public functions"],
 "One coordinate varies at a time with two fixed.")
prop("C24", "Reflection models follow their laws, are reciprocal and sample what they claim",
 "Each reflection model (Lambert, Oren-Nayar, Lommel-Seeliger, McEwen, Hapke, Cook-Torrance with GGX) evaluates to its published formula, is unchanged when light and viewer are exchanged, is never negative and reflects nothing from or to below the surface. A sampled direction has unit length, lies above the surface, is distributed as the reported density says, and its weight is reflectance times cosine over that density; the pass-through model lets light straight on.",
 "all directions, albedos, roughnesses and random numbers, within the bounds",
 "no test shades; errors in weights and densities only bias the image",
 [I+"materials/bsdfs/bsdf.hpp", M+"materials/bsdfs/cook_torrance_bsdf.ipp", M+"materials/bsdfs/hapke_bsdf.ipp", M+"materials/bsdfs/mcewen_bsdf.ipp", M+"materials/bsdfs/oren_nayar_bsdf.ipp", M+"materials/bsdfs/lambertian_bsdf.ipp", M+"materials/bsdfs/lommel_seeliger_bsdf.ipp"], [("evaluation, sampling, density", M+"materials/bsdfs/")], ["public model API"],
 "One of the two directions from a table for all but Lambert and Lommel-Seeliger; Cook-Torrance laws and samples for tables of directions, roughnesses and random numbers.")
prop("C25", "Directions are sampled with the density they report",
 "Uniform, cosine, power-of-cosine and microfacet (all or visible normals) sampling turn uniform random numbers into unit directions above the surface whose distribution is exactly the density reported with them, for all random numbers. Converting between a surface frame and the world and back is the identity.",
 "all random numbers, roughnesses and orthonormal frames",
 "no test samples; a wrong density only biases the image",
 [I+"materials/sampling_utils.hpp"], [("warps and frame conversions", I+"materials/sampling_utils.hpp")], ["public functions"],
 "Powers 0, 1, 3, 7; visible normals for tables of directions, roughnesses and random numbers; the horizon-weighted sampler is a known finding.")
prop("C26", "Materials evaluate what was set, in a proper shading frame",
 "At a hit, albedo, opacity, metallic, roughness, transmission and emission are each the texture at the hit times its factor, albedo also times the vertex colour, as the last settings or resets say; a material that may be transparent says so. A normal texture perturbs the normal in the tangent frame, scaled by its factor, and the shading frame is orthonormal whatever the tangent. Reflection and sampling are those of the material's model.",
 "all pixels, factors, vertex colours, texture coordinates, normals and sequences of settings",
 "no test evaluates a material; stale defaults and degenerate tangents need particular histories and hits",
 [I+"materials/material.hpp", M+"materials/material.ipp"], [("evaluation and settings", M+"materials/material.ipp")], ["public material API"],
 "Textures of 1x1 and 2x2 pixels, three settings in sequence.")
prop("C27", "Lights and media follow their physics, and nesting is tracked",
 "Samples towards a spherical light fill the cone it is seen in evenly, end on its near surface, carry its radiance and the density one over its solid angle; irradiance falls with the square of the distance and all bins together carry the power given. Media attenuate each band exponentially, scatter after exponential free paths into uniform directions, and never amplify. The active medium is that of the volume entered last and not yet left, in whatever order volumes are crossed.",
 "all positions, radii, powers, coefficients, lengths, random numbers and crossing sequences within the bounds",
 "no test covers lights or media; errors only tint or dim the image",
 [I+"volumes/medium.hpp", I+"volumes/medium_stack.hpp", M+"assets/lights/sphere_light.ipp", I+"volumes/scattering/isotropic_scatter.hpp", I+"volumes/density/constant_density_field.hpp"], [("light sampling and power", M+"assets/lights/sphere_light.ipp"), ("attenuation, free paths, nesting", I+"volumes/")], ["public light and medium API"],
 "Light samples for tables of directions and distances; five crossings of three volumes.")
prop("C28", "Star catalogues keep every star, and stars appear where and as bright as catalogued",
 "Catalogue identifiers pack, order and unpack without loss. A saved catalogue reads back, bit for bit, exactly the stars of known brightness down to the limit asked for, brightest first; damaged files are reported. Each complete Tycho-2 record gives one star with the record's position brought to the year 2000 by its own proper motion, and its published magnitude and temperature; a star's direction follows its motion and its light is the black body's over its solid angle.",
 "all identifiers and field bit patterns, all digits of a record's fields, all orders of magnitudes, all damages within the bounds",
 "no test reads a catalogue; misread columns or a lost star look like any other sky",
 [I+"stars/io/star_catalog.hpp", I+"stars/io/star_data.hpp", I+"stars/io/tycho2_id.hpp", I+"stars/star.hpp", M+"stars/io/load_tycho2.ipp", M+"stars/io/star_catalog.ipp"], [("catalogue files", M+"stars/io/star_catalog.ipp"), ("Tycho-2 records", M+"stars/io/load_tycho2.ipp"), ("direction and brightness", M+"stars/star.ipp")], ["public catalogue and star API, files"],
 "Up to three stars per file, one record per Tycho-2 file beside rejected ones; two digits free per field.")
prop("C29", "Times, ephemerides and orbits are what was asked for",
 "Julian dates in every time scale count days from the year 2000 and convert back, across leap seconds; times order, add and subtract as their epochs do, and intervals sample evenly from start to end. Ephemeris states and frames come back in metres and in the reference axes, failures of the toolkit are reported by the call that failed, and Kepler orbits have the elements given. Nadir frames point along or against the position with the second axis forward in the plane of motion.",
 "all epochs, offsets of time scales, leap seconds, states, frames and elements within the bounds",
 "no test uses times or ephemerides; minutes around leap seconds, eccentric orbits and failing calls are never sampled",
 [I+"core/time.hpp", M+"core/time.ipp", I+"core/interval.hpp", M+"core/spice.ipp", I+"scene/state_callbacks/keplerian_orbit.hpp", I+"scene/state_callbacks/nadir_point.hpp"], [("time scales", M+"core/time.ipp"), ("SPICE calls", M+"core/spice.ipp"), ("orbits and nadir frames", I+"scene/state_callbacks/")], ["public time, interval and SPICE functions, recorded toolkit calls"],
 "CSPICE is modelled (it is not installed): constant offsets between uniform scales, one leap second, any states and frames, errors at any call; intervals of up to five samples.")
prop("C30", "Scene nodes are where and how their settings and parents say",
 "A node's state is its own, moved and turned since the epoch, composed with its parents', including the motion a turning parent gives it; ephemeris states are absolute under any parent; callbacks get and give the state of the moment. Bodies are seen as they were when the light left, and aberrated only by the observer's motion, at the same distance. The last setting decides how a node is driven, queries answer in their own mode only, and rejected settings change nothing.",
 "all positions, velocities, rates, scales, epochs and times, and sequences of settings, within the bounds",
 "no test builds a scene; wrong composition shows only with moving or turning parents, light time or particular histories of settings",
 [I+"scene/node.hpp", M+"scene/node.ipp", M+"scene/frame_node.ipp", I+"core/transform.hpp", M+"core/transform.ipp"], [("state composition, light time, settings", M+"scene/node.ipp")], ["public node API"],
 "Chains of two nodes below the root, uniform scales, spin axes and approach speeds from tables, four settings in sequence; CSPICE is modelled.")
prop("C31", "Scene contents go by unique names and are deleted without trace",
 "Adding an object under a name gives it that name, or the name with a number when another object of its kind has it; looking a name up finds the object that has it now, or fails, whatever was added, renamed and deleted before. Handles are valid while their object is in the scene and refused afterwards. Deleting an asset, geometry or frame removes what is made of it, shows it or lies below it, anywhere, and nothing else.",
 "all names and sequences of additions, renamings and deletions, and all arrangements of instances, within the bounds",
 "no test builds a scene; stale names and dangling references need particular histories",
 [I+"scene/scene.hpp", M+"scene/scene.ipp", I+"scene/name_registry.hpp", M+"scene/name_registry.ipp", M+"scene/frame_node.ipp", I+"handles/handle.hpp"], [("names", M+"scene/name_registry.ipp"), ("deletion", M+"scene/scene.ipp")], ["public scene and handle API"],
 "Three operations, names of one or three bytes, two frames and three instances; the ray-tracing library is a stand-in.")
prop("C32", "Unresolved objects are as bright as their light, size and distances say",
 "An emitter's irradiance is its power over the sphere through the observer. A diffuse sphere reflects its albedo times the light it receives, spread by Lambert's phase function without loss; an asteroid's magnitude follows from its absolute magnitude, slope, phase angle and distances in astronomical units. Only the object's own light counts, where it is when the exposure starts, its absence is reported, and impossible sizes, albedos and powers are refused.",
 "all positions, sizes, powers, albedos, radiances and magnitudes within the bounds",
 "no test renders unresolved objects; a wrong factor or phase only dims a point",
 [M+"assets/unresolved/unresolved_object.ipp", M+"assets/unresolved/unresolved_emitter.ipp", M+"assets/unresolved/unresolved_sphere.ipp", M+"assets/unresolved/unresolved_asteroid.ipp"], [("irradiance", M+"assets/unresolved/")], ["public unresolved-object API"],
 "Directions, phase angles and distances of spheres and asteroids from tables, everything else free; three lights.")

prop("C33", "A camera's view of a scene has everything where it is seen, at every time of the exposure",
 "Everything placed in the scene is in the view once, where it is relative to the camera, turned and scaled as placed, at every sampled time of the exposure, and moves steadily in between, for ray tracing and shading alike. Rays reach the ray tracer as given; a hit is resolved to the point, unit normals and tangents of the surface as it is then, the geometric normal facing the viewer. What is left of light on its way to a point is what the transparent surfaces and the media in between let through, up to the light and no further.",
 "all positions, velocities, scales, hits, times, opacities and transmissions within the bounds",
 "no test builds a view; wrong transforms need moving or unevenly scaled things, several instances or several surfaces",
 [M+"scene/scene_view.ipp", I+"scene/scene_view.hpp", I+"geometry/ray.hpp", M+"render/interaction.ipp"], [("placement", M+"scene/scene_view.ipp"), ("hits", M+"scene/scene_view.ipp"), ("shadows", M+"scene/scene_view.ipp")], ["public SceneView and Scene API, arguments given to the ray-tracing library"],
 "Rotations from a table; up to three times, four instances and three surfaces; the ray-tracing library is a stand-in.")

prop("C34", "Rendered images hold what the light in the scene sends to each pixel",
 "A pixel receives, on average over its samples, the radiance of what its rays see: glowing surfaces, lights, light reflected, transmitted or scattered by surfaces and media towards it, each counted once and weakened by everything on the way, and the background where it is in the world; direct and indirect light add up to all of it. Depths, albedos, normals and ids are those of the nearest surfaces the rays see, and the sky has none. Only the images asked for are made, nothing of earlier renderings is left in them, the sensor reads out what was received, and no pixel is ever not a number.",
 "all albedos, emissions, opacities, media, light powers, sample decisions, bounce and sample counts within the bounds",
 "no test renders an image; a wrong weight needs particular sampling decisions, and only changes brightness",
 [M+"render/renderer.ipp", I+"render/renderer.hpp", I+"render/frame_buffer.hpp", M+"core/physics.ipp", I+"volumes/medium_stack.hpp"], [("path tracing", M+"render/renderer.ipp"), ("images", I+"render/frame_buffer.hpp")], ["public Renderer, FrameBuffer and Scene API"],
 "Images of up to 3 by 2 pixels, up to three samples and bounces, scripted random numbers with every decision taken; camera rotations and places from tables; the ray-tracing library is a stand-in.")

prop("C35", "Stars and unresolved objects shine on the pixels they are on, with all of their light",
 "A point of light gives its irradiance, times the aperture seen from its direction, to the pixel it is on and to no other; out of focus, with a point-spread function or while moving, the same light is spread around or along its way, by how long it is in the frame, with nothing lost where pieces of the image meet. Surfaces hide the points behind them and only those, whether or not a depth image is asked for. Every instance of an object shines from its own distance, and stars are aberrated only in the mode that asks for it.",
 "all irradiances and powers, directions, distances, motions and blurs within the bounds",
 "no test renders points of light; errors are a fraction of a pixel or need edges, seams, occlusion or motion",
 [M+"render/renderer.ipp", M+"cameras/camera_model.ipp", M+"scene/scene_view.ipp"], [("unresolved", M+"render/renderer.ipp")], ["public Renderer, FrameBuffer and Scene API"],
 "Images of 5 by 5 or 70 by 5 pixels, directions, distances and motions from tables, irradiances and powers free.")

prop("C36", "The same view always renders to the same image",
 "Rendering the same view again gives the same received light to the last bit, whatever order the pieces of work are taken in, whatever the system's source of random numbers gives, and whatever was rendered before. Still, the samples of different pixels differ.",
 "all orders of the pieces of work within the bounds",
 "no test renders an image; a race or a shared generator shows only under another schedule",
 [M+"render/renderer.ipp", I+"render/sampler.hpp"], [("tiles", M+"render/renderer.ipp")], ["public Renderer API"],
 "Every order of up to three tiles, two orders of streaks; pieces of work are run one after another, so only interleavings of whole pieces are covered.")

prop("C37", "Models read from files are rendered as the file describes them",
 "A model read from a file has the vertices, normals, texture coordinates (counted from the top of the image), vertex colours, tangents and triangles of the file, each mesh once for every node that uses it and every use of the model, where the nested nodes put it, turned, scaled or mirrored. Its materials have the factors and textures of the file: base colour with opacity, roughness from the green and metalness from the blue channel of one texture, normals and emission, with encoded colours turned into linear light and whatever the file does not say as for new materials. A file that cannot be read is refused and leaves no model in the scene, and a missing material or texture does not keep a model from loading.",
 "all vertex data, node translations, points, material factors and texel values, all wrong mesh, vertex and material indices, all combinations of present and absent attributes within the bounds",
 "no test loads a model; mirrored nodes, shared textures and absent materials are the failing cases",
 [I+"assets/io/model_loader.hpp", M+"assets/io/model_loader.ipp", M+"assets/model.ipp", M+"scene/scene_view.ipp", M+"materials/material.ipp"], [("meshes, nodes, materials and textures", M+"assets/io/model_loader.ipp"), ("where meshes of models are seen", M+"scene/scene_view.ipp")], ["public Scene and SceneView API"],
 "The importing library is a stand-in that hands over its documented structures: what it makes of a file is not covered. 2 meshes of up to 4 vertices, 3 nested nodes, 2 materials, 3x5 texels; mirrored or unevenly scaled nodes only at the leaves.")

prop("C38", "FITS files keep images and their description",
 "An image written to a FITS file of any sample type and read again has the same size and orientation and every pixel within half a count (physical values exactly), also when it was itself read from a file of another sample type or comes from a sensor with more bits than the file; white stays white and undefined pixels stay undefined. Counts are the value times the sensor's range to the nearest, with the range recorded, and unsigned files and files with further axes of length one are read right. All described keywords, comments, history and further keywords come back, no others appear, and any fault of the library is reported with the files closed.",
 "all pixel values, sensor depths, sample types, keyword numbers, presence of keywords, points of failure within the bounds",
 "no test writes or reads a file; other sensor depths, undefined pixels and files made from files are the failing cases",
 [I+"images/io/fits_io.hpp", I+"images/io/fits_metadata.hpp", M+"images/io/fits_io.ipp"], [("pixels and header keywords in both directions", M+"images/io/fits_io.ipp")], ["public FITS reading and writing functions"],
 "The FITS library is a stand-in that keeps cards and converts pixels as documented; rounding to whole counts is over-approximated by any value within half a count.")
prop("C39", "Images written to PNG, JPEG and TIFF come back as written, and foreign files are decoded into place",
 "An image of colours, grey levels or spectra written to PNG or TIFF with 8 or 16 bits and read again has the same size, every colour, grey level and fitting transparency within half a step, the same depth, and in PNG the same colour space and gamma; JPEG is given the pixels to the nearest step and the quality asked for. Files of other programs with palettes, few bits, a transparent colour, grey with transparency, planes, tiles, swapped black and white, other colour codings, single-precision values or any orientation are decoded with every pixel and its transparency in its place, whatever their size. Empty images, other depths, kinds of image that cannot be shown and any fault of a library while reading or writing are reported, with everything closed.",
 "all pixel and transparency values, gammas, sample formats, layouts, orientations, points of failure within the bounds",
 "no test writes or reads an image; 16-bit grey with transparency, tiles at the edge, separate planes, turned images and faults of the decoder are the failing cases",
 [I+"images/io/png_io.hpp", M+"images/io/png_io.ipp", I+"images/io/tiff_io.hpp", M+"images/io/tiff_io.ipp", I+"images/io/jpeg_io.hpp", M+"images/io/jpeg_io.ipp"], [("decoding and encoding of pixels", M+"images/io/png_io.ipp"), ("layouts of samples", M+"images/io/tiff_io.ipp"), ("buffers for the codec", M+"images/io/jpeg_io.ipp")], ["public image reading and writing functions"],
 "The three libraries are stand-ins without compression that follow their documented conventions; arithmetic is over the reals, with conversion to samples constrained to be to a whole number.")
prop("C40", "Handles act on what they stand for, and only on that",
 "A camera, node, material or point of light set through its handle, a copy of it, its parent's child or a handle looked up by name is from then on exactly like one set directly with the same values, in every setting of its sensor, optics, blur, glare, place, motion, turn, scale, ephemeris names, textures, factors and brightness; values are refused exactly when the object refuses them, and every other object stays as it was. What a handle reports is what the object has. Handles of anything deleted, or below something deleted, are not valid and are refused even while someone still holds the object, and a handle gives its object only as the kind it is.",
 "all values of each setting, one or two settings in sequence, every kind of handle, order of deletion and holding",
 "no test uses a handle; a switch turned off again, a rate about body axes, a held object and a parent-to-local turn are the failing cases",
 [I+"handles/camera_handle.hpp", M+"handles/camera_handle.ipp", I+"handles/scene/node_handle.hpp", M+"handles/scene/node_handle.ipp", M+"handles/scene/frame_handle.ipp", M+"handles/material_handle.ipp", M+"handles/assets/unresolved_handle.ipp", I+"handles/handle.hpp", M+"handles/handle.ipp"], [("settings of cameras", M+"handles/camera_handle.ipp"), ("settings of nodes", M+"handles/scene/node_handle.ipp"), ("settings of materials", M+"handles/material_handle.ipp"), ("validity", M+"handles/handle.ipp")], ["public handles of a scene"],
 "The object set directly is the oracle; that it does what is asked is the subject of C08 to C11, C26, C30 and C32. The blur of an aperture is a stand-in, the diffraction pattern being out of reach.")
prop("C41", "The log keeps the most recent messages, and survives a crash",
 "Messages at or above the level set are kept and heard by a listener, in order and with their level, and those below are neither; a listener that fails disturbs nothing. Whatever the log's size is made on the way, what is written out is the most recent messages that fit, each once, in order, on a line of its own that tells its level. A failure that the library reports is logged before it is thrown, and the console shows a level only together with those above it. A crash writes the log, with the signal and what was going on, exactly once, and still ends the process by that signal; with crash handling turned off it ends the process and writes nothing.",
 "all levels and sequences of messages, level changes and resizes within the bound, every crash signal, with handling on, off and on again",
 "no test looks at the log; a shrink after the log has wrapped, a level turned off below another, a nested scope and a crash with handling off are the failing cases",
 [I+"util/logger.hpp", M+"util/logger.ipp", M+"platform/get_log_path.ipp", M+"platform/info.ipp"], [("ring of messages", M+"util/logger.ipp"), ("crash handling", M+"util/logger.ipp"), ("macros", I+"util/logger.hpp")], ["public log functions", "signals"],
 "Threads that log at the same time, and failing to open the file, are outside; file and string streams, the clock and signal delivery are stand-ins. What happens to exceptions nobody catches is not decided.")
prop("C42", "The command-line tool leaves whole catalogues, or says it could not",
 "Whatever becomes of a download (refused, cut off, the process killed, the disk full), every file of the catalogue under its own name is whole, files already there are not lost, and running again completes the rest; success is reported exactly when every file is there. A converted catalogue holds the stars of every file, success is reported exactly when it has been written, and the files it was made from are removed only then, and only if asked. The command named is the one that runs, with the global options before it and its own words after it, and unknown or missing commands are errors. Certificates that the user names are the ones trusted.",
 "every fault at every stage of a download, for chosen files, folders and options; every missing file and too small a disk when converting; every sequence of up to three words on the command line",
 "no test touches the tool; a process killed between two files, a disk that fills on the last write and a folder with a dot in its name are the failing cases",
 ["apps/huira_cli/commands/fetch_tycho2.cpp", "apps/huira_cli/commands/process_tycho2.cpp", "apps/huira_cli/cli.cpp", M+"stars/io/star_catalog.ipp"], [("download", "apps/huira_cli/commands/fetch_tycho2.cpp"), ("conversion", "apps/huira_cli/commands/process_tycho2.cpp"), ("dispatch", "apps/huira_cli/cli.cpp")], ["command functions", "files left", "result of the process"],
 "The server, the file system and the progress bar are stand-ins; parsing of a command's own options (TCLAP) is not decided; a kill is an exception out of the transfer, so buffers are written as the stack unwinds.")
