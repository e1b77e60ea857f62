#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
import os

G, T, B, M, A, S, D, C, U, V, X, I = ('x7/geom/%s.py' % n for n in (
    'geom', 'transform', 'bezier', 'model', 'anim', 'anim_simple', 'drawing', 'colors', 'utils', 'vec_field',
    'testing', 'imagehelp'))
P = []


def prop(id_, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id_, len(title))
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                   hook_needed=None)
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id_, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors))


prop('C01', 'Point and vector arithmetic is closed, exact and side-effect free',
     'For any points and vectors, plain or derived from other points, point-point gives a vector, point+-vector a '
     'point, vector+-vector and scaling a vector, with the coordinates that component arithmetic predicts, while '
     'point+point and vector-point are refused. Length, angle, rotation, unit, normal, dot and cross product, '
     'midpoint, rounding, closeness, equality, truth value, copying and polygon area agree with their Euclidean '
     'definitions, and no operation alters an operand or returns an object that shares state with one. A coordinate '
     'list in any mix of bare numbers, pairs and point objects parses to the same sequence of points, and a malformed '
     'list is refused.',
     ['inputs'], 'all pairs of operands drawn from a coordinate lattice, in every plain/derived representation',
     'Unit tests check one or two operand pairs per operator and only plain operands; sign and operand-order errors '
     'that cancel on symmetric data, and aliasing between operand and result, need all combinations.',
     [G], [('operator overloads and add_vector/sub_vector double dispatch', G), ('BasePoint.parse', G)],
     ['coordinates of results and operands', 'TypeError/ValueError for refused operations'])

prop('C02', 'Derived points and vectors always track the points they depend on',
     'After any sequence of moves of the underlying points, a point placed relative to another, a scaled reflection '
     'of such an offset and a difference vector report, through every accessor and operator, exactly the position '
     'computed from the current positions, through chains of dependencies of any length. A fixed snapshot, a copied '
     'plain point or any arithmetic result taken earlier keeps the value it had when it was taken, whatever moves '
     'later.',
     ['histories'], 'all sequences of moves, restores and offset edits over a shared base point and a dependency '
     'chain, interleaved with snapshots, up to the depth bound',
     'Tests build one relative point and read it once; staleness or detachment appears only after a particular order '
     'of reads and moves.',
     [G], [('PointRelative.xy / PointCalc.xy / VectorRelative.xy evaluate the base on every read', G),
           ('fixed() detaches', G)],
     ['xy(), x, y, v, p, iteration and arithmetic of derived objects'],
     [('base coordinates', 'the mutable coordinates every derived object depends on', G)])

prop('C03', 'Bounding boxes form a consistent algebra of regions',
     'For all boxes, including zero-area boxes and the box without coordinates: union is the smallest box containing '
     'both, intersection is exactly the common region (or no box), growing by a sequence of points in any order yields '
     'the smallest box of those points, and constructing from any two opposite corners, a tuple, another box, or '
     'expanding or shrinking keeps low <= high. Containment, touching and overlapping agree with that common region: '
     'between boxes with area, overlap means common area and touching means contact without common area; containing means the common region is '
     'the contained box. Corners, centre, width, height and area describe the same region, and no query or '
     'combination changes a box it was given.',
     ['inputs', 'histories'], 'all pairs and triples of boxes on a coordinate lattice, all growth sequences up to '
     'the bound',
     'Tests compare a fixed picture of a few boxes; off-by-one comparisons differ only for particular edge or corner '
     'contacts among degenerate boxes.',
     [G], [('BBox', G)], ['coordinates and predicates of results'])

prop('C04', 'Line queries return points that really lie where they claim',
     'For any two lines the reported intersection lies on both, and parallel lines are recognised and never given an '
     'intersection; the closest point lies on the line and no other point of the line is nearer. For any two segments '
     'a reported crossing lies on both at the reported parameters, both within [0, 1], every crossing in the interior '
     'of both is reported, and swapping the segments reports the same point. End points, midpoints, translation and '
     'bounding box of a line all describe the same segment, however the line was constructed, a line of two points '
     'keeps its direction and follows its origin, and all this holds for coordinates of any magnitude.',
     ['inputs'], 'all pairs of segments with end points on an integer lattice, plain and live end points',
     'Tests use two or three line pairs; wrong results need particular relative orientations (axis-parallel, '
     'collinear, touching).',
     [G], [('Line.intersection / segment_intersection / closest', G)], ['returned points and parameters'])

prop('C05', 'A transform is the matrix product of its history; push/pop restores it',
     'After any sequence of translations, scalings, rotations (either sense, about the origin or a point), '
     'compositions on either side, resets, assignments and nested push/pop or with-blocks, a transform maps every '
     'point as the product of those operations in order, and each pop (also when the block raises) restores exactly '
     'the mapping that was pushed. Popping or entering a block with nothing pushed is refused. Copies, and transforms '
     'used as arguments, never change when another transform does, and mapping one point, a list of points or tuples, '
     'or a flattened list gives the same coordinates.',
     ['histories'], 'all operation sequences up to the depth bound over a transform, a copy of it and a composed '
     'argument, in lockstep with an independent matrix-stack model',
     'Tests apply one operation at a time to a fresh transform; aliasing between the stack, copies and arguments '
     'shows only in longer interleaved histories.',
     [T], [('pre_dot_eq/post_dot_eq', T), ('push/pop/__exit__', T), ('copy/set_matrix', T)],
     ['mapped points', 'EmptyStackError'],
     [('matrix', 'current mapping', T), ('stack', 'saved mappings', T)])

prop('C06', 'Un-transforming undoes transforming after any history of changes',
     'At every moment of any history of transform changes and un-transform queries, un-transforming a transformed '
     'point gives the point back, singly and in lists, so no earlier inverse survives a change of the transform. '
     'Decomposing a transform into an axis-parallel outer part and the rest composes back to the same mapping, the box-to-box mapping takes each '
     'corner of the source box to the same corner of the target (or, when keeping the aspect ratio, to the centred '
     'largest box that fits), the canvas mapping sends model up to screen up with the requested zoom and offset, and '
     'widths scale by the mean of the axis scales.',
     ['histories'], 'all sequences of mutating operations interleaved with inverse queries up to the depth bound; '
     'all box pairs and parameters on a lattice',
     'Tests query the inverse right after one change of a fresh transform; a stale cached inverse needs query, '
     'change, query again, for each kind of change.',
     [T], [('inverse cache invalidation', T), ('simplify', T), ('scale_bbox', T), ('canvas_fit', T)],
     ['untransform results'], [('cached inverse', 'must match the matrix', T)])

prop('C07', 'Sampled curve paths lie on the curve, reach its ends and join up',
     'For any control points and any number of steps, the sampled path has one point per step plus one, starts and '
     'ends exactly at the curve ends, and every sample lies on the cubic at its evenly spaced parameter, in both '
     'output formats. A path through several control points follows every segment once, in order, without gaps or '
     'repeated joints, ends where it began exactly when it is closed, and equals sampling after mapping the control '
     'points.',
     ['inputs'], 'all control-point configurations on a lattice x step counts x open/closed x transforms',
     'The sampling and path functions have no effective tests (stubs) and joints are only visible for particular '
     'point counts and closedness.',
     [B, M], [('bez', B), ('bez_path', B), ('ElemCurve.paths', M)], ['returned coordinates'])

prop('C08', 'Splitting a curve or adding control points never changes its shape',
     'Splitting a curve at any parameter yields two pieces that together retrace the original with matching position '
     'and tangent at the split, leaving the original untouched. Adding a control point to an element, any number of '
     'times, whether the element is open or closed and whatever its transform, adds exactly one control point, keeps '
     'every existing anchor in order and of its kind (a very smooth one may become smooth) and leaves the drawn curve '
     'unchanged.',
     ['inputs', 'histories'], 'all control-point configurations on a lattice x split parameters; all sequences of '
     'additions interleaved with copies and transforms up to the bound',
     'Tests add one point to one closed curve; errors depend on which segment is longest, wrap-around and '
     'closedness.',
     [B, M], [('bez_split (de Casteljau)', B), ('ElemCurve.add_one', M)], ['sampled curve points'])

prop('C09', 'Curve intersections lie on both curves; self-crossing loops retrace it',
     'Every reported intersection of two curves lies on both curves at the reported parameters, as points or as '
     'parameters, and of two curves that meet only in transversal crossings every one is reported once; the joint of '
     'consecutive curves is reported only on request. A closed curve without self-crossings is reported as such, and otherwise the replacement loops '
     'together retrace exactly the original curve, each joins up, and they meet only at crossings, which are sharp corners.',
     ['inputs'], 'all pairs of curves from a lattice family; all closed curves of the family with 2..4 control points',
     'Tests cover two pictures; missed or duplicated pieces depend on where the crossings fall relative to segment '
     'boundaries.',
     [B], [('bez_intersect_new', B), ('bez_self_intersect / BziGraph', B)], ['returned points, parameters, loops'])

prop('C10', 'Transforming, copying and reversing control points keeps their geometry',
     'Transforming a control point by a linear mapping moves its anchor and both handles exactly as the mapping moves '
     'those three locations; a non-linear mapping moves the anchor exactly and keeps smooth handles opposite and '
     'collinear (of equal length when very smooth) and sharp handles exactly mapped. Reversing swaps the handles, '
     'reversing a list twice gives the list back and reversing retraces the same curve backwards; copies, fixed '
     'copies, rounding and restoring give equal values, never change the source, and share no coordinates with it '
     'afterwards. The bounding box of a control point is the smallest box of its anchor and handles.',
     ['inputs', 'histories'], 'all control points on a lattice x kinds x mappings; all copy/edit/restore sequences up '
     'to the bound',
     'Tests check one smooth control point; kind-specific behaviour under non-linear mappings and aliasing after '
     'restore are not exercised.',
     [B], [('ControlPoint.transform/restore/copy/fixed/reversed', B)], ['anchor and handle coordinates, kind'])

prop('C11', 'Transforming an element and drawing it equals drawing it transformed',
     'For every element kind (curve, rectangle, rounded rectangle, ellipse, group, element with holes), every '
     'internal transform and nesting, the outline, control outline and curve conversion of the element transformed by '
     'a mapping are the same shapes as those of the original drawn under that mapping, in any number of successive '
     'transformations. Flattening a group into transformed elements, converting to curves, and asking the enclosing '
     'group give the same shapes. The transformed element keeps name, pen, brush, closedness and hidden state, and '
     'the original and the mapping are left unchanged.',
     ['inputs', 'programs'], 'all element kinds x internal transforms x nestings x mappings (and mapping pairs) of '
     'the alphabet',
     'The outline, control outline and curve conversion tests of this repository fail or are stubs; transformations '
     'are tested for one small rotation only.',
     [M, T, D], [('Elem.transform overrides', M), ('draw_space', M), ('simplify', T), ('iter_elems_transformed', M)],
     ['paths, control paths, curve conversions'])

prop('C12', 'Drawing, measuring and traversing never change model or transform',
     'Drawing, taking outlines or bounding boxes, converting, dumping, displaying, listing or transforming elements '
     'any number of times and in any order leaves the model, the drawing transform and its stack exactly as they '
     'were, also when the operation raises or a traversal is abandoned half way. Each element listed by a deep '
     'traversal is paired with the transform of its enclosing groups, whether the listing is consumed step by step or '
     'collected. Repeating an operation gives the same result, and hidden groups contribute nothing to a drawing.',
     ['histories', 'fault_sequences'], 'all sequences of read-only operations up to the bound on every model of the '
     'alphabet, with a failure injected at every element position and traversals abandoned at every position',
     'Tests call one operation on a fresh context and never look at the context afterwards; leaks need a second '
     'operation, a failure or an early stop.',
     [M, D, T], [('with draw_space / push..pop', M), ('iter_elems', M), ('shadow_draw try/finally', D)],
     ['drawing transform before and after', 'model equality'])

prop('C13', 'Bounding boxes contain everything that is drawn',
     'For every element kind, internal transform and nesting, every point of the drawn outline, with and without an '
     'outer mapping, lies inside the reported bounding box; the box is exact for axis-aligned rectangles, ellipses '
     'and rounded rectangles and is the union of the member boxes for groups. The centre is the centre of that box, '
     'an element with holes is bounded by its outside shape, and resizing a box-shaped element through its internal '
     'box makes it report that box.',
     ['inputs', 'programs'], 'all element kinds x internal transforms x nestings of the alphabet',
     'Tests compare a recorded box for a few elements without nesting.',
     [M, G], [('bbox / bbox_int overrides', M), ('ControlPoint.bbox convex hull', B)], ['bbox() against paths()'])

prop('C14', 'Copies are independent, and restoring undoes every later edit',
     'A copy of any element or group equals the original, an identity transform of it draws the same, and no later '
     'sequence of edits to either, including moves of points, control points, transforms, colours, members and names, is visible in the '
     'other. Restoring an element from a copy makes it equal the state at the time of the copy again, any number of '
     'times from the same copy, and the two remain independent afterwards. A restore that cannot be carried out is '
     'refused.',
     ['histories'], 'all sequences of copy, edit and restore operations up to the depth bound for every element kind',
     'Tests copy or restore once and never edit afterwards, so aliasing between copy and original stays invisible.',
     [M, B, T], [('copy/restore/fixed overrides', M), ('ControlPoint.restore', B), ('Transform.copy', T)],
     ['equality and outlines of both objects after each step'])

prop('C15', 'A dumped model reloads to an equal model that draws the same',
     'Executing the dump of any model or single element builds an element that equals the original (names, pens, '
     'transforms, points, hidden flags, nesting and drawing order included) and draws the same; dumping the reloaded '
     'model gives the same text. Dumping does not change the model, repeated output of one dump context gives the same '
     'text, shared pens and transforms are written once with distinct values never merged, and the textual form of '
     'points, vectors, boxes, transforms, control points, pens and brushes evaluates to an equal value.',
     ['programs'], 'all models built by the construction operations up to the bound, including nested groups and '
     'holes, with and without shared variables',
     'Tests compare the dump text with a recording and never execute it; fields lost in the text go unnoticed.',
     [M, G, T, B, C], [('dump / dump_elem / DumpContext', M), ('__repr__ of value types', G)],
     ['exec of the dump output'])

prop('C16', 'Group names stay unique, and every listed element can be looked up',
     'After any sequence of additions and replacements, with or without automatic renaming, the names in a group are '
     'unique and free of dots, every member carries the name it is stored under, nothing added is lost or replaced '
     'silently, and members are drawn in the order in which they were added. Every element of a deep listing is listed '
     'once, under the dotted path that, looked up from the top, yields that very element; unknown paths are refused. '
     'Named points follow the same rules.',
     ['histories'], 'all sequences of add/rename/replace operations up to the depth bound with colliding names, in '
     'lockstep with an ordered-map model, including nested groups and holes',
     'Name handling has no tests; collisions need particular sequences of names.',
     [M], [('Group.add/lookup/iter_elems/add_pt', M), ('ElemWithHoles.lookup/iter_elems', M)],
     ['group contents, lookup results and KeyError/ValueError'])

prop('C17', 'Replacing an element swaps exactly the matching ones, wherever they are',
     'Replacing an element throughout a model replaces every occurrence of it at any nesting depth, including inside '
     'elements with holes, returns the number replaced, keeps its place in the drawing order, and leaves all other '
     'elements as the same objects; if nothing matches, the model is unchanged and the count is zero. Replacing back '
     'gives the original model, and a replacement refused because of a name conflict leaves the model unchanged.',
     ['histories'], 'all replace sequences up to the bound over all models of the alphabet',
     'Replacement in groups has no tests.',
     [M], [('Group.replace', M), ('ElemWithHoles.replace', M)], ['model contents before and after'])

prop('C18', 'Rectangles, ellipses and rounded rectangles have their ideal geometry',
     'For any two opposite corners in any order, the outline of a rectangle passes through exactly its four corners, '
     'the outline of an ellipse stays within 0.03 percent of the inscribed ellipse and touches all four sides, and '
     'the outline of a rounded rectangle consists of the straight sides joined by quarter circles of the requested '
     'radius, tangent to the sides, with the radius limited to half the shorter side and never leaving the rectangle. '
     'Outlines close, and control outlines and curve conversions describe the same shapes.',
     ['inputs'], 'all corner pairs on a lattice x radii including zero, exact half and excessive values',
     'Geometry constructors are tested by stubs only.',
     [M, B], [('make_ellipse_cps / make_rounded_rect_cps', M), ('ElemP1P2.points', M)], ['paths, control paths'])

prop('C19', 'Offset outlines lie at the requested distance on the requested side',
     'Offsetting a closed outline moves every straight side whose handles lie along it to a parallel at exactly '
     'the requested distance, inward for a positive and outward for a negative amount, whatever the direction in which the outline was drawn and '
     'whatever its transform. Smooth anchors move perpendicularly by that distance, offsetting a circle changes its '
     'radius by it (to within a twelfth of it), offsetting by zero gives the same outline, and offsets of opposite '
     'sign are on opposite sides even at very sharp corners, where the movement is limited. '
     'The number of control points, their kinds, pen and closedness are kept and the original is left unchanged.',
     ['inputs'], 'all simple lattice polygons as straight-handled curves, circles and smooth outlines x offsets x orientation '
     'x transform',
     'The offset test checks a recorded picture for one curve.',
     [M], [('ElemCurve.offset / offset_pt', M)], ['control points of the offset element'])

prop('C20', 'Animated positions depend only on the current time, never on the history',
     'After any sequence of updates, forwards, backwards or repeated, an animated point is at the position its '
     'animation prescribes for the last time only: linear animations go from the original to the target position (per '
     'axis where given), sinusoidal ones go to the target and back, circular ones keep the given radius about the '
     'original position with the given frequency and offset, generic ones follow the given function of time, origin '
     'and point. A holder updates all its animations, in the order added, and other points, targets and the remembered '
     'origin never move.',
     ['histories'], 'all sequences of update times up to the depth bound for every animation kind and mix in a holder',
     'The animation module has no tests.',
     [A], [('Animation.orig remembered position', A), ('update overrides', A)], ['coordinates after each update'])

prop('C21', 'Morphs show the source at 0, the target at 1, and restore the model',
     'A morphing element shows the shape of the source at 0 and of the target at 1 (for several steps, of each step '
     'at its time, and the first or last shape outside the range) and the straight interpolation of corresponding '
     'control points in between (corresponding in their order, closed curves morphed in several steps starting at '
     'the lower left unless told otherwise), depending only on the last time, even when the curves have different numbers of '
     'control points or the morph was hidden in between. The source and target shapes, their other users and the rest '
     'of the model are unchanged, the morph takes the place of the source in the model, and restoring puts the source '
     'back. A source that is not in the model, or (for a single target) unequal curves when adjustment is not allowed, is refused.',
     ['histories'], 'all sequences of update times, hides and restores up to the depth bound over all source/target '
     'combinations of the alphabet',
     'The morph classes have no tests.',
     [A, M], [('Morph / MorphMultiStep update', A), ('add_one', M), ('Group.replace', M)],
     ['control points of the morph element, model contents'])

prop('C22', 'Drawing contexts compose layers without touching the background image',
     'Whatever is drawn, in any order and with or without shadows, the image given as background keeps its pixels, '
     'unpainted pixels of the composed image equal the background, and painted ones show the drawing over the shadow '
     'over the background. Shapes, lines and polygons appear where the drawing transform maps them, in their colours, '
     'filled or stroked with the pen width (scaled when so requested), later ones on top. Cropping returns exactly '
     'the mapped region (in whole pixels, fractions dropped), composing twice gives the same image, a drawing that raises leaves the context usable, and '
     'frames built for a time do not depend on frames built before.',
     ['histories', 'fault_sequences'], 'all sequences of drawing operations up to the bound on a small canvas, with '
     'failures injected during shadow drawing',
     'The drawing module has no tests.',
     [D, A, M], [('DrawingContext.image / shadow_draw / crop_to_pixels', D), ('Elem.draw', M), ('Builder', A)],
     ['pixels of the composed image'])

prop('C23', 'A simple animation renders one frame per step at the right time and place',
     'For any number of steps and time range, the animation calls the drawing function once per frame, at evenly '
     'spaced times from the first to the last time inclusive, and keeps exactly one image per frame, in order, '
     'each showing only what was drawn for its own time on the background colour. The drawing box is mapped onto the '
     'whole image with up pointing up, for any box and image size.',
     ['configurations'], 'all combinations of step counts, time ranges, image sizes and drawing boxes of the alphabet',
     'The module has no tests.',
     [S, T], [('SimpleAnimation.animate / next_step / finish_step', S)], ['frame count, call times, pixels'])

prop('C24', 'Pens and brushes behave as immutable values',
     'Building a pen-and-brush from a colour, a colour and width, a pen, a brush or nothing gives the documented '
     'stroke and fill, equal specifications compare equal and different ones unequal. Replacing pen, width or brush '
     'changes only what was named, in a new object, for single styles and for whole style sets, and giving both pen '
     'and width is refused. The stroke width is the pixel width for positive widths and scales with the transform '
     'otherwise, and every shape kind of a standard style set has the documented stroke and fill in draft and '
     'production, unknown kinds being refused.',
     ['inputs', 'histories'], 'all constructor argument combinations and replace sequences of the alphabet up to the '
     'bound',
     'The colour module has no tests.',
     [C], [('Pen/PenBrush/PensByShape constructors and replace', C)], ['properties, equality'])

prop('C25', 'Arcs, circles and path helpers produce points where they promise',
     'Every point of a generated arc or circle is at the given radius from the centre, arcs start and end at the '
     'given angles and sweep in the requested direction with evenly spaced points, and an arc between two points '
     'passes through both on the side requested and is refused when it cannot exist. Crosses and plus signs have '
     'their arms at the given radius; rotating, translating and converting paths keep order and length and move each '
     'point exactly; the smallest rotation between two angles has magnitude at most 180 degrees and, added to the '
     'source, gives the target direction.',
     ['inputs'], 'all combinations of angles on a grid over several turns, radii, centres, directions and steps',
     'Tests check two or three angle pairs; wrap-around errors need particular combinations.',
     [U], [('arc / arc2p / circle / min_rotation / path_*', U)], ['returned coordinates'])

prop('C26', 'Vector fields interpolate exactly and move points by the interpolated value',
     'At every mesh node a field returns the stored vector, between nodes the bilinear interpolation of the '
     'surrounding ones, and a field that is linear in position is reproduced everywhere, also outside the mesh. '
     'Mapping a single point, a list of points or a control-point anchor moves it by exactly the interpolated vector, '
     'however it is called. Copying, scaling, normalising and smoothing give new fields with the promised values '
     '(scaled components, largest magnitude one, neighbourhood mean) and never change the original field or share its '
     'values.',
     ['inputs', 'histories'], 'all one-hot and linear fields on small meshes x query points of the lattice; all '
     'copy/scale/normalise/edit sequences up to the bound',
     'Tests look up a few points of one field.',
     [V, T], [('VectorField.interp_coords / transform_np_pts', V), ('Mesh', V)], ['looked-up and mapped coordinates'])

prop('C27', 'Recorded test data round-trips and approximate matching honours tolerance',
     'Any nesting of geometric values, elements and traversal listings that the test support can record evaluates '
     'back to equal data. Approximate comparison of points, vectors and control points accepts two values exactly '
     'when every coordinate is within the requested tolerance (places or delta) and reports a difference otherwise, '
     'and explaining a mismatch never fails and only excuses differences that are numerically negligible. Recorded '
     'images and plots match exactly when all their pixels agree, and matching a plot restores the plot settings.',
     ['inputs'], 'all values of the alphabet, pairwise perturbed at, below and above each tolerance',
     'The support code is tested on a handful of equal values only.',
     [X], [('PicklerExtensionGeom', X), ('ExtendedMatcher*', X)], ['eval of recorded text, verdicts'])

prop('C28', 'The group builder builds exactly the group its calls describe',
     'After any sequence of builder calls the built group contains exactly the described shapes, in order and with '
     'the given geometry, each with the pen and brush of its shape kind (explicit, default of the builder, or given '
     'directly) and closed exactly when asked or, for curves, when filled; nested builders inherit styles, share no '
     'state and appear inside their parent. Named points can be found again under their names and hiding a builder '
     'hides its group. Rotating a shape about its centre adds a copy turned about the centre of its bounding box and '
     'leaves the original in place. A table of pens gives a black pen for every kind that was not specified.',
     ['histories'], 'all builder call sequences up to the depth bound in lockstep with a reference description',
     'The builder has no tests.',
     [M, C], [('GroupBuilder', M), ('PensByShape', C)], ['contents of the built group'])

prop('C29', 'Timing functions have the promised shape for every time',
     'Interpolated timing curves pass through every given key and are linear in between and constant outside, ramps '
     'stay at their end values outside the ramp and rise or fall linearly inside, and periodic ones equal the '
     'sine or cosine of frequency times a full turn times the time plus the offset in degrees, scaled and shifted, '
     'repeating with their period. Interpolations given a pair of times treat each axis separately, combining two '
     'functions applies each to its axis, hiding yields nothing exactly below the threshold, and no function remembers earlier calls.',
     ['inputs', 'histories'], 'all parameter combinations of the alphabet x a grid of times, evaluated in different '
     'orders',
     'The animation module has no tests.',
     [A], [('Animation.interpolate / ramp_* / periodic / sin_cos / xy / hide_if', A)], ['returned values'])

prop('C30', 'Frames prepared for output keep size, order, crop and hard transparency',
     'Building an animation yields one frame per step, each showing the model at that fraction of the animation on '
     'the base image, which never changes. The common bounding box of the frames contains every non-empty pixel of '
     'every frame and nothing more, also when some frames are empty; scaling and cropping apply to every frame in '
     'order, scaling down yields the requested size with only fully opaque or fully transparent pixels; composing over a colour '
     'leaves opaque pixels unchanged and shows the colour through transparent ones.',
     ['inputs', 'configurations'], 'all small frame sets of the alphabet (pixels opaque, translucent or clear) x '
     'scales x crops',
     'The module has no tests.',
     [A, D], [('Builder.build_all/max_bbox/scaled/resize_for_gif', A), ('bbox_max', D)], ['frame sizes and pixels'])

prop('C31', 'Saved animations show the frames they were made of',
     'An animation that is saved can be read back: it shows every frame in order, each for the duration divided by the '
     'number of frames (or the given display time), again and again, cropped to what can be seen in any frame plus a '
     'margin of 16 pixels within the image (unless cropping is switched off) and at half size (simple animations: '
     'as they are), with the colours of the frames and clear where they have the colour of the upper left corner that the frames share; frames with nothing to see can be '
     'saved too. The palette made for a set of frames has all their colours, or the 256 most frequent; converting a '
     'frame shows the same colours and makes clear exactly the pixels of the colour of its upper left corner. Saving '
     'and converting leave the frames as they were.',
     ['inputs', 'configurations'], 'all small frames and frame sequences of the alphabet x crops x durations x ways of '
     'saving, numbers of colours around 256',
     'The modules have no tests.',
     [A, 'x7/geom/imagehelp.py', 'x7/geom/anim_simple.py'], [('Builder.make_palette/save_animation/run, rgb_to_transparent', A),
     ('palette_image, rgb_to_transparent, rgba_to_transparent, image_fix_palette', 'x7/geom/imagehelp.py'),
     ('SimpleAnimation.save_animation', 'x7/geom/anim_simple.py')], ['saved files, palettes and pixels'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as fh:
        for p in P:
            fh.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
