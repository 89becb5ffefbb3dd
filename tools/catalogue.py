# The property catalogue; exec'd by props.py.
IN = ['inputs']
HI = ['inputs', 'histories']
T_FLOAT = 'The unit tests evaluate a few dozen hand-picked values; the claim is about every representable float, including subnormals, infinities and signed zeros.'

# ---------------------------------------------------------------- types
prop('P01', 'Durations are never NaN and keep saturating arithmetic',
     'A duration built from any sequence of the public operations always reports a number of seconds that is not NaN. '
     'The result of every operation equals the ordinary floating-point result, except that the cases whose floating-point result would be NaN (inf-inf, 0*inf, 0/0, inf/inf) yield an infinite duration.',
     HI, 'all duration values and all finite or infinite scalar factors, hence by induction all operation sequences', T_FLOAT,
     ['ink/types/duration.h', 'ink/types/duration.cc'],
     [('NaN replaced after + - * /', 'ink/types/duration.cc'), ('unit factories and accessors', 'ink/types/duration.h')])
prop('P03', 'Physical distances convert units consistently and compare as lengths',
     'Creating a physical distance from centimetres, inches or metres and reading it back in any unit multiplies by the defined conversion factors (2.54 cm per inch, 100 cm per metre), and arithmetic and comparison act on the length and never on the unit it was built with. '
     'The zero distance is the additive identity, and finiteness is that of the length.',
     IN, 'all float distances and scalars', T_FLOAT,
     ['ink/types/physical_distance.h', 'ink/types/physical_distance.cc'], [('unit factories, operators', 'ink/types/physical_distance.h')])
prop('P02', 'Shared buffers have value semantics; small arrays keep their elements',
     'Writing through one copy of a copy-on-write value is never visible through another copy, reading never copies, and moving or swapping transfers the value. '
     'A small fixed-capacity array built from any sequence of values that fits keeps exactly those values, resizing keeps the common prefix and value-initialises new elements, and equality compares size and the live elements only.',
     HI, 'every sequence of copy, assign, move, read, write and reset operations on copy-on-write handles; every size up to the capacity',
     'Tests run a handful of sequences; aliasing bugs need a particular order of copy, write and read.',
     ['ink/types/internal/copy_on_write.h', 'ink/types/small_array.h'],
     [('reference-counted value with copy on mutable access', 'ink/types/internal/copy_on_write.h'), ('inline array', 'ink/types/small_array.h')])
prop('P04', 'URI parsing accepts exactly the ink grammar and normalises it',
     'Parsing an asset identifier never crashes, and accepts a string only if it has the ink scheme, a lower-case authority, a known asset kind and a well-formed asset name. '
     'An accepted identifier is stored in normal form: printing it and parsing it again gives an equal identifier.',
     IN, 'all byte strings', 'Tests list about a hundred strings; the grammar is over all byte strings.',
     ['ink/types/uri.h', 'ink/types/uri.cc'], [('hand-written recursive parser', 'ink/types/uri.cc')])
prop('P05', 'Iterator ranges expose exactly the wrapped iterators',
     'A range made from two iterators or an iterator pair yields begin and end exactly as given, is empty exactly when they are equal, and for random-access iterators its size is the distance between them. '
     'A default range is empty.',
     IN, 'all iterator pairs into arrays of any length', 'Tests use a few fixed containers.',
     ['ink/types/iterator_range.h'], [('iterator_range, make_range', 'ink/types/iterator_range.h')])

# ---------------------------------------------------------------- geometry values
prop('P10', 'Angles convert, normalise and do arithmetic exactly as documented',
     'Normalising any finite angle gives an equivalent angle in [0, 2pi), normalising about zero gives one in (-pi, pi], and NaN or infinite angles give NaN. '
     'Degree/radian conversions, trigonometric functions, arithmetic and comparisons act on the radian value.',
     IN, 'all float angles and scalars', T_FLOAT, ['ink/geometry/angle.h', 'ink/geometry/angle.cc', 'ink/geometry/internal/jni/angle_jni.cc'],
     [('Mod-based normalisation', 'ink/geometry/angle.cc')])
prop('P11', 'Vector operations and angles between vectors are total and consistent',
     'A unit vector of any non-NaN vector has components in [-1,1], magnitude one, and the same direction and component signs; zero and infinite vectors give the documented axis or diagonal vectors and no input aborts. '
     'Dot product, determinant, perpendicular, sums, scaling and point/vector arithmetic satisfy their algebraic definitions, and the angle between two vectors lies in [0, pi] (signed: [-pi, pi]).',
     IN, 'all pairs of float vectors including subnormal, infinite and NaN components', T_FLOAT, ['ink/geometry/vec.h', 'ink/geometry/vec.cc', 'ink/geometry/point.h'],
     [('prescaled normalisation', 'ink/geometry/vec.cc')])
prop('P12', 'Rectangles stay ordered and contain exactly what they bound',
     'However a rectangle is built from points, centre and dimensions, its minimum never exceeds its maximum on either axis; containment of points and rectangles is the closed interval test; joining gives the exact smallest rectangle containing both operands. '
     'Setters, offsets, scaling, edges, corners and aspect-ratio operations give the documented bounds.',
     IN, 'all float coordinates', T_FLOAT, ['ink/geometry/rect.h', 'ink/geometry/rect.cc'], [('min/max ordering', 'ink/geometry/rect.h')])
prop('P13', 'Envelopes are the exact bounding box of everything added',
     'An envelope built from any shapes, or grown by any sequence of additions, is empty exactly when nothing was added and otherwise is the exact minimum and maximum of all added coordinates. '
     'Resetting empties it, and adding an empty envelope or the same shape twice changes nothing.',
     HI, 'all sequences of additions of points, segments, triangles, rectangles, quads and envelopes', 'Tests add a few shapes.', ['ink/geometry/envelope.h', 'ink/geometry/envelope.cc'], [('running min/max', 'ink/geometry/envelope.h')])
prop('P14', 'Affine transforms compose, invert and apply consistently',
     'Applying a product of two transforms equals applying the right one and then the left one, and an invertible transform followed by its inverse is the identity; non-invertible transforms have no inverse. '
     'Factories for translating, scaling, rotating and shearing act on points as documented, fixed-centre variants leave the centre fixed, and a transform found from three point pairs maps each source to its target; shapes transform corner by corner.',
     IN, 'all transforms and shapes (real arithmetic)', 'Tests check a few dozen matrices; composition and inverse laws quantify over all of them.', ['ink/geometry/affine_transform.h', 'ink/geometry/affine_transform.cc'], [('2x3 matrix algebra', 'ink/geometry/affine_transform.cc')])
prop('P15', 'Quads are normalised and their geometry matches their parameters',
     'However a quad is built or modified, its width is non-negative and its rotation lies in [0, 2pi), and its corners, edges, centre, area and semi-axes all follow from centre, width, height, rotation and shear. '
     'Containment agrees with the corners, and joining a shape yields a quad with the same rotation and shear that contains both.',
     HI, 'all parameter values and all sequences of setters', 'Tests sample a few quads; the cached axes must be right after any sequence of setters.', ['ink/geometry/quad.h', 'ink/geometry/quad.cc'], [('normalising setters, cached axes', 'ink/geometry/quad.cc')],
     state=[('semi_axis_cache_', 'cached semi-axes, dropped by every setter', 'ink/geometry/quad.h')])
prop('P16', 'Segments, triangles and interpolation helpers satisfy their equations',
     'Interpolating along a segment, projecting onto it, and inverse interpolation are mutually consistent, with exact results at the end points of a segment; triangle area, edges, barycentric conversion and containment agree with the signed-area definitions (a triangle contains exactly the convex combinations of its corners). '
     'Numeric interpolation is the affine combination of its ends, exact at the first one, monotonic and between its ends for parameters in [0,1], and its inverse of a value between the ends lies in [0,1]. Segment intersection finds the first common point along each segment exactly when there is one.',
     IN, 'all segments, triangles and parameters', T_FLOAT, ['ink/geometry/segment.h', 'ink/geometry/segment.cc', 'ink/geometry/triangle.h', 'ink/geometry/triangle.cc', 'ink/geometry/internal/algorithms.h', 'ink/geometry/internal/algorithms.cc'], [('Lerp, InverseLerp, barycentric', 'ink/geometry/internal/algorithms.cc')])
prop('P17', 'Shape intersection tests are symmetric and agree with geometry',
     'Asking whether two shapes intersect gives the same answer in either order, every shape intersects itself and any point it contains, and shapes whose bounding boxes are disjoint do not intersect. '
     'In exact arithmetic the answer for points and segments equals existence of a common point, and larger shapes intersect exactly when two of their edges do or one contains a point of the other; with rounding it may differ only for shapes that touch or miss each other by a rounding error.',
     IN, 'all pairs of shapes of every kind', 'Tests list configurations per pair of shape kinds.', ['ink/geometry/intersects.h', 'ink/geometry/intersects.cc', 'ink/geometry/internal/intersects_internal.cc'], [('separating tests', 'ink/geometry/internal/intersects_internal.cc')])
prop('P18', 'Distances between shapes are zero exactly on contact and never too large',
     'The distance between two shapes is non-negative, zero when they intersect, and otherwise the least distance between an edge of one and an edge of the other, whichever shape comes first; for segments that is the least distance of an end of one from the other. In exact arithmetic the distance of a point from a segment is that of its closest point. '
     'Point-to-point distance is the Euclidean one.',
     IN, 'all pairs of shapes', 'Tests list configurations.', ['ink/geometry/distance.h', 'ink/geometry/distance.cc'], [('nearest-feature search', 'ink/geometry/distance.cc')])

# ---------------------------------------------------------------- meshes
prop('P20', 'Mesh formats are accepted only when valid and lay out attributes disjointly',
     'A mesh format is created exactly when it has between one and the maximum number of attributes, unique identifiers, and a suitable two-component position attribute within limits. '
     'In an accepted format every attribute occupies its own disjoint byte range inside the vertex stride, in both packed and unpacked form, and component counts and offsets are consistent.',
     IN, 'all lists of attribute types and identifiers up to the maximum length', 'Tests use a handful of formats.', ['ink/geometry/mesh_format.h', 'ink/geometry/mesh_format.cc'], [('Create, layout accumulation', 'ink/geometry/mesh_format.cc')])
prop('P21', 'Packed attributes and indices unpack to the quantised value they stand for',
     'Packing any in-range attribute value and unpacking it returns a value within half a quantisation step per component, integers that fit the component width are preserved exactly, and packing never writes outside the attribute bytes or disturbs neighbouring components. '
     'Triangle indices of 16 and 32 bits are stored and read back exactly.',
     IN, 'all attribute types, coding parameters and in-range values', 'Tests pack a few values per type.', ['ink/geometry/internal/mesh_packing.h', 'ink/geometry/internal/mesh_packing.cc'], [('bit packing', 'ink/geometry/internal/mesh_packing.cc')])
prop('P22', 'Coding parameters always cover the attribute bounds they were made for',
     'For finite attribute bounds whose extent is representable, coding parameters are finite with positive scale, and every value inside the bounds packs to an unsigned code that fits the component width. '
     'Parameters are rejected for bounds that are missing or whose extent is not finite.',
     IN, 'all finite bounds and all attribute types', T_FLOAT, ['ink/geometry/internal/mesh_packing.cc'], [('offset/scale computation', 'ink/geometry/internal/mesh_packing.cc')])
prop('P23', 'Immutable meshes are only created from consistent data',
     'Creating an immutable mesh fails for mismatched attribute counts or sizes, non-finite values, or triangle indices out of range; on success its counts, positions, indices and bounds correspond to the input data up to quantisation.',
     IN, 'all vertex data up to the explored sizes', 'Tests use tiny hand-made meshes.', ['ink/geometry/mesh.h', 'ink/geometry/mesh.cc'], [('Create validation', 'ink/geometry/mesh.cc')])
prop('P24', 'Mutable meshes store exactly what was written',
     'After any sequence of appends, updates, truncations and clears, every vertex attribute and triangle of a mutable mesh reads back as last written, other vertices and attributes are untouched, and counts match. '
     'Validation reports invalid triangles exactly.',
     HI, 'all sequences of vertex and triangle operations', 'Tests apply a few operations.', ['ink/geometry/mutable_mesh.h', 'ink/geometry/mutable_mesh.cc'], [('byte-buffer storage', 'ink/geometry/mutable_mesh.cc')])
prop('P25', 'Partitioning a mesh keeps every triangle exactly once within the size limit',
     'Splitting triangles into partitions with a vertex limit puts every triangle into exactly one partition, in winding order, with partition-local indices that map back to the original vertices, and no partition exceeds the limit.',
     IN, 'all index buffers of the explored sizes and all limits of at least three', 'Tests use two or three index buffers.', ['ink/geometry/internal/mesh_packing.cc'], [('PartitionTriangles', 'ink/geometry/internal/mesh_packing.cc')])
prop('P26', 'Spatial index queries visit exactly the overlapping elements',
     'A query of the spatial index visits exactly the elements whose bounds overlap the query box, each once, unless the visitor stops early, after which nothing more is visited.',
     IN, 'all element sets and query boxes of the explored sizes', 'Tests use random trees of fixed size.', ['ink/geometry/internal/static_rtree.h'], [('sorted tile recursive packing', 'ink/geometry/internal/static_rtree.h')])
prop('P27', 'Partitioned shapes are only built from consistent groups and outlines',
     'A modelled shape is created exactly when every group has meshes of one format, no mesh is empty, outlines are non-empty and refer to existing vertices, and limits on mesh and group counts hold; its accessors then return the given data. '
     'Bounds, coverage and intersection queries agree with the triangles of the shape.',
     IN, 'all group and outline descriptions of the explored sizes', 'Tests build a few shapes.', ['ink/geometry/partitioned_mesh.h', 'ink/geometry/partitioned_mesh.cc'], [('FromMeshGroups validation', 'ink/geometry/partitioned_mesh.cc')])

# ---------------------------------------------------------------- colour
prop('P30', 'Colours keep their channels through format conversions',
     'Creating a colour treats NaN channels as zero and clamps alpha to [0, 1]; gamma-encoded, linear and premultiplied channels are converted as documented and read back accordingly, and 8-bit channels survive a round trip when opaque or not premultiplied. '
     'No operation on any colour (infinite channels included) yields a NaN channel or an alpha outside [0, 1], and the gamut operations clamp or scale exactly the channels they document.',
     IN, 'all channel values', T_FLOAT, ['ink/color/color.h', 'ink/color/color.cc'], [('RgbaFloat/Uint8 conversion', 'ink/color/color.cc')])
prop('P31', 'Transfer functions and colour-space conversion are inverse and total',
     'Gamma decoding follows the sRGB curve: it keeps sign, fixes zero and one, is non-decreasing and never turns a number into NaN, and encoding is its inverse up to the tiny seam of the standard curve at the threshold. '
     'Converting between colour spaces keeps alpha, is the identity for equal spaces, maps white to white and back again, and the space-to-XYZ matrices describe the primaries, are inverse to each other and transposed by layout.',
     IN, 'all channel values and all colour-space pairs', T_FLOAT, ['ink/color/color_space.h', 'ink/color/color_space.cc'], [('transfer function and matrices', 'ink/color/color_space.cc')])

# ---------------------------------------------------------------- strokes and brushes
prop('P40', 'A stroke input batch only ever holds valid, ordered input',
     'Creating, appending to, or overwriting entries of a stroke input batch succeeds exactly when every input is valid and consecutive inputs have one tool, consistent optional data, non-decreasing time and no duplicate of position and time. '
     'A failing operation leaves the batch unchanged.',
     HI, 'all inputs and all operation sequences', 'Tests try a few invalid inputs; the invariant is over all values and histories.', ['ink/strokes/input/stroke_input_batch.h', 'ink/strokes/input/stroke_input_batch.cc', 'ink/strokes/input/internal/stroke_input_validation_helpers.cc'], [('validation helpers', 'ink/strokes/input/internal/stroke_input_validation_helpers.cc')])
prop('P41', 'A stroke input batch returns exactly the inputs that were stored',
     'Every input read back from a batch equals the one stored at that index, for any combination of optional pressure, tilt, orientation and unit-length data, across append, overwrite, erase, clear and copies. '
     'Copies are independent, and iterating visits the inputs in order.',
     HI, 'all operation sequences and input formats', 'Tests run a few sequences per operation.', ['ink/strokes/input/stroke_input_batch.h', 'ink/strokes/input/stroke_input_batch.cc'], [('strided float storage, copy on write', 'ink/strokes/input/stroke_input_batch.cc')])
prop('P42', 'Brushes are only created and modified with valid size and precision',
     'A brush is created, resized or given a new precision exactly when size and precision are finite and positive and precision does not exceed size; a rejected change leaves the brush as it was. '
     'All accessors return what was set.',
     HI, 'all float sizes and precisions and all setter sequences', T_FLOAT, ['ink/brush/brush.h', 'ink/brush/brush.cc'], [('validation in Create and setters', 'ink/brush/brush.cc')])
prop('P43', 'Brush tips, paints, behaviours and families are validated exactly',
     'A brush tip, paint, easing function or behaviour is accepted exactly when each of its parameters lies in its documented range and behaviour nodes form a well-formed stack program. '
     'A coat has exactly one tip, a family at most ten coats and an identifier of the brush-family kind; an accepted family returns the coats, identifier and input model it was made from, and a coat requires exactly the mesh attributes its behaviours and textures use. '
     'Two of these values compare equal exactly when all their parameters do.',
     IN, 'all parameter values and node lists of the explored length', 'Tests list a few bad values per field.', ['ink/brush/brush_tip.cc', 'ink/brush/brush_paint.cc', 'ink/brush/brush_behavior.cc', 'ink/brush/easing_function.cc', 'ink/brush/brush_coat.cc', 'ink/brush/brush_family.cc'], [('Validate functions', 'ink/brush')])
prop('P44', 'Easing functions hit their end points and stay finite',
     'A valid easing function evaluates as documented at every parameter: step functions have exactly the step heights of their kind, 0 below 0 and 1 from 1 on; piecewise-linear functions interpolate their points, take the value of the last of several points with one x, and extrapolate the first or last segment outside [0,1]; Bezier curves rise along the curve of their control points from 0 at 0 to 1 at 1 and are constant outside. '
     'NaN maps to NaN and, for moderate control values, nothing else does.',
     IN, 'all valid easing functions and all parameters', 'Tests sample a few points per curve.', ['ink/strokes/internal/easing_implementation.cc', 'ink/strokes/internal/easing_implementation.h'], [('per-kind evaluation', 'ink/strokes/internal/easing_implementation.cc')])
prop('P45', 'Modelled tip states always stay inside their documented ranges',
     'Whatever the behaviours compute, including null and overflowing values, each modelled tip property stays in its documented range (finite rotation, slant within a quarter turn, sizes non-negative, percentages in [0,1], hue in a full turn, saturation, luminosity and opacity in range) and is the tip\'s value changed by the combined modifiers of its target. '
     'Behaviour sources measure what they are named for and map into [0,1] as their out-of-range rule says, unavailable values are null, filters, operators, interpolation, damping and targets compute as documented on the top of the stack, and null values propagate.',
     IN, 'all behaviour outputs and input states', 'Tests evaluate a few behaviours.', ['ink/strokes/internal/brush_tip_modeler_helpers.cc', 'ink/strokes/internal/brush_tip_state.cc'], [('clamping in tip-state creation', 'ink/strokes/internal/brush_tip_modeler_helpers.cc')])
prop('P46', 'Stroke vertex labels and margins survive encoding',
     'Every side/forward label category encoded with a margin decodes to the same category and a margin within the encodable resolution, margins are clamped to the encodable maximum, and exterior labels of opposite sides never coincide. '
     'Vertex attributes written to a mesh read back unchanged, clamped to the packable range.',
     IN, 'all labels and margins', T_FLOAT, ['ink/strokes/internal/stroke_vertex.h', 'ink/strokes/internal/stroke_vertex.cc'], [('label encoding', 'ink/strokes/internal/stroke_vertex.cc')])

# ---------------------------------------------------------------- rendering and JNI
prop('P50', 'Bitmaps are valid exactly when their data matches their dimensions',
     'A bitmap passes validation exactly when width and height are positive, its format is known and its pixel data holds exactly width times height pixels, with no overflow for large dimensions.',
     IN, 'all dimensions and data sizes', 'Tests use a few sizes.', ['ink/rendering/bitmap.h', 'ink/rendering/bitmap.cc'], [('ValidateBitmap', 'ink/rendering/bitmap.cc')])
prop('P51', 'Java strings are borrowed and released exactly once',
     'Viewing a Java string acquires one global reference and one character buffer, exposes exactly the characters and length the VM reports, and on destruction releases that same buffer and reference exactly once and in that order. '
     'A null string is viewed as empty and touches the VM not at all.',
     HI, 'all string handles, lengths and VM answers', 'No test covers the JNI glue.', ['ink/jni/internal/jni_string_util.h', 'ink/jni/internal/jni_string_util.cc'], [('RAII view', 'ink/jni/internal/jni_string_util.cc')])

# ---------------------------------------------------------------- outside the family's reach
prop('P60', 'Building a stroke incrementally equals building it at once',
     'Extending an in-progress stroke by any sequence of input increments and then finishing it yields the same mesh as building the stroke from all inputs at once.',
     ['inputs', 'histories'], 'all input sequences and all ways to split them', 'Tests try a few splits.', ['ink/strokes/in_progress_stroke.cc', 'ink/strokes/internal/stroke_shape_builder.cc'], [('incremental extrusion', 'ink/strokes/internal/brush_tip_extruder.cc')])
prop('P61', 'Rendered strokes cover the pixels their geometry covers',
     'Drawing a stroke shades exactly the pixels covered by its geometry with the brush paint.',
     IN, 'all strokes, brushes and transforms', 'Screenshot tests compare a few images.', ['ink/rendering/skia/native/skia_renderer.cc'], [('Skia mesh drawing', 'ink/rendering/skia/native/internal/mesh_drawable.cc')])
prop('P62', 'Concurrent readers of a shape initialise its spatial index once',
     'Any number of threads may query the same shape at once; the lazily built spatial index is built once and every reader sees it complete.',
     ['schedules'], 'all interleavings of readers', 'Tests do not explore schedules.', ['ink/geometry/partitioned_mesh.cc'], [('lazily initialised index under a mutex', 'ink/geometry/partitioned_mesh.cc')])
prop('P63', 'Tessellating a polygon covers it exactly',
     'Tessellating a simple polygon yields triangles that cover its interior exactly and do not overlap.',
     IN, 'all simple polygons', 'Tests tessellate a few polygons.', ['ink/geometry/tessellator.cc', 'ink/geometry/internal/generic_tessellator.h'], [('libtess2 driver', 'ink/geometry/internal/generic_tessellator.h')])

NA = {
 'P60': 'the extruder and modeller are several thousand lines of float geometry over growing containers and an external smoothing library (ink_stroke_modeler, absent here); no contract strong enough to imply mesh equality is within reach of SMT-discharged obligations',
 'P61': 'the result is produced by Skia and the GPU (absent here); there is no code in /repo whose contract could express pixel coverage',
 'P62': 'a schedule property: the sequential deductive verifier has no concurrency model',
 'P63': 'the tessellation is computed by libtess2, which is not in this sandbox; only an assumed contract could state the result',
}
