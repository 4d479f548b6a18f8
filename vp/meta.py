"""What each property says, where it is anchored, and what its check covers.
tools/gen.py writes properties.jsonl and MANIFEST.json from this table; vp/driver.py copies
bounds/outside into the evidence."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, bounds, outside, note, observe=(), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      bounds=bounds, outside=outside, note=note, observe=list(observe), **kw))


P('P01', 'Blending a dab keeps every pixel a valid premultiplied 15-bit colour',
  'Given a tile pixel whose alpha is at most 32768 and whose colour channels are at most its alpha, every dab blend operation '
  '(normal, eraser, lock-alpha, colorize, posterize and the pigment variants of the first three) leaves alpha at most 32768 and every channel at most the alpha. '
  'None of them divides by zero, converts an out-of-range float to an integer or writes outside the pixels it was given.',
  ['inputs'], 'every valid pixel, dab colour, dab alpha, posterize level, mask value and opacity (all 16 bit values in range), one pixel per call',
  'the tests blend a few strokes and only look at timing or at a rendered file; the input space of one pixel alone is about 2^120',
  ['brushmodes.c', 'helpers.c', 'fastapprox/fastpow.h'],
  [('fixed point compositing', 'brushmodes.c draw_dab_pixels_BlendMode_*'), ('luminosity clipping', 'brushmodes.c set_rgb16_lum_from_rgb16'),
   ('spectral mixing', 'helpers.c rgb_to_spectral / spectral_to_rgb')],
  'one pixel, all values: alpha 0..32768, channels 0..alpha, colour 0..32768, mask 1..32768, opacity 0..32768, dab alpha 0..32768, posterize level 1..128. '
  'fastpow is replaced by its contract (positive finite, within 8 percent of a power), which its own job discharges on the real fastpow over the argument range used.',
  'the three colour-within-alpha obligations of the eraser pigment mode and one 0/0 obligation of the lock-alpha pigment mode are usually not decided by any solver within the time limit '
  '(reported under undecided/unconfirmed); runs of several pixels are P03',
  'bounded only by the size of the buffer (one pixel); all 16 bit values are symbolic; float operations of the pigment modes are relaxed to exact real arithmetic with rounding error terms')

P('P02', 'Alpha-preserving blends never change alpha; painting never lowers it',
  'A lock-alpha (plain or pigment), colorize or posterize blend leaves the alpha of every pixel exactly as it was and leaves a fully transparent pixel fully transparent. '
  'A normal blend (plain or pigment) never lowers the alpha of a pixel by more than one unit of rounding.',
  ['inputs'], 'every valid pixel, dab colour, posterize level, mask value and opacity',
  'no test compares alpha before and after a dab; the claim is over all 16 bit pixel/colour/mask/opacity combinations',
  ['brushmodes.c', 'helpers.c'], [('alpha-preserving blends', 'brushmodes.c draw_dab_pixels_BlendMode_LockAlpha*, _Color, _Posterize')],
  'one pixel, all values as P01', 'the eraser modes (their alpha rule is in P04); float-to-int range obligations are assumed here and decided by P01',
  'exhaustive over 16 bit values for one pixel')

P('P03', 'A blend touches exactly the masked pixels, each on its own',
  'A blend over a run-length encoded mask changes only the pixels the mask covers: skipped pixels and the memory on both sides of the buffer stay bit-identical. '
  'For the non-pigment modes each covered pixel gets exactly the value it gets when it is blended alone with the same mask value, colour and opacity.',
  ['inputs'], 'every skip/cover pattern of three pixels, with all pixel, mask, colour and opacity values',
  'tests render whole strokes and never look at the pixels between; the patterns times values cannot be sampled',
  ['brushmodes.c'], [('mask decoding', 'brushmodes.c, the while(1) loops over mask')],
  'three pixels, all 8 skip patterns (pigment modes: 3 patterns; colorize: 4 in quick, 8 in thorough), all 16 bit values',
  'longer runs; skips of more than 3 pixels', 'bounded at three pixels; values unrestricted')

P('P04', 'Blend modes compute the over operator and respect opacity limits',
  'A normal blend gives mask*opacity of the dab colour over the pixel, an eraser blend the same with the colour weighted by the dab alpha, and a lock-alpha blend mixes the dab colour scaled by the pixel alpha, each within rounding. '
  'A non-pigment blend of zero opacity changes nothing; full opacity replaces the pixel (with the colour, or with transparency when the dab alpha is 0). '
  'The pigment variants follow the same alpha rule and, on a transparent pixel, give the plain dab colour.',
  ['inputs'], 'every valid pixel, dab colour, dab alpha, mask value and opacity',
  'the tests have no oracle for a blended value at all',
  ['brushmodes.c'], [('compositing formulas', 'brushmodes.c draw_dab_pixels_BlendMode_*')],
  'one pixel, all 16 bit values; tolerance 2.5 units (3.5 for eraser and lock-alpha); pigment modes from opacity 150 up', 'colours of the pigment modes on non-transparent pixels (a design choice without an exact oracle); colour results of colorize and posterize (P01 bounds them)',
  'oracle is the exact over operator over the reals')

P('P07', 'The tile operation queue is a lossless FIFO per tile',
  'Operations queued for a tile come out in the order they were queued, each exactly once, whatever is queued for other tiles and however far away those are. '
  'Every tile with pending operations is listed as dirty, once, and no other tile that was never queued is. '
  'Freeing a queue releases everything still in it.',
  ['histories', 'inputs'], 'every history of up to 5 add/pop calls on two tiles with symbolic coordinates, including those that grow the map and those where every tile is already dirty',
  'the tests never use the queue directly and only with strokes on one small surface: histories that make the map grow between operations, or that fill the dirty list, are not reached',
  ['operationqueue.c', 'fifo.c', 'tilemap.c'], [('grow on demand', 'operationqueue.c operation_queue_resize / operation_queue_add'), ('dirty list', 'operationqueue.c operation_queue_add'), ('fifo', 'fifo.c')],
  'two tiles a, b with coordinates in -2..1 (map starts at 2x2 with HEAVY_DEBUG, 20x20 without and coordinates at its edge); 1 + 3..4 operations; the full-dirty-list case with 3 operations',
  'tile coordinates whose magnitude makes the map larger than 40x40; allocation failure', 'reference log in the harness is the oracle; all memory accesses are checked')

P('P08', 'The tile map keeps one slot per tile index and copies losslessly',
  'A tile map of size n covers exactly the indices -n..n-1 in both directions and gives each its own slot inside its storage. '
  'Copying a map into a larger one keeps every item at its index and adds nothing, and freeing with items frees each item once.',
  ['inputs', 'configurations'], 'every pair of indices, map sizes 1..3',
  'tests reach indices near 0 only', ['tilemap.c'], [('index arithmetic', 'tilemap.c tile_map_get_offset'), ('copy', 'tilemap.c tile_map_copy_to')],
  'sizes 1, 2 (quick) and 3 (thorough); indices in +-100000; items: pointers', 'larger maps; item sizes other than a pointer',
  'all indices symbolic; bounded map size')

P('P09', 'Every pixel a dab can touch is queued and reported dirty',
  'When a visible dab is drawn, it is queued, with its position and size unchanged, exactly once for the tile of every pixel whose centre is within radius + 0.5 of it in both axes. '
  'The dirty area reported when the transaction ends contains all those pixels.',
  ['inputs'], 'every dab position and radius in the bounds and every pixel near it',
  'tests use a few strokes and check no tile boundaries; the failing inputs are dabs that only just reach into the next tile or lie at negative coordinates',
  ['mypaint-tiled-surface.c', 'operationqueue.c', 'tilemap.c', 'mypaint-rectangle.c'], [('tile range', 'mypaint-tiled-surface.c draw_dab_internal'), ('dirty box', 'mypaint-tiled-surface.c update_dirty_bbox')],
  'position +-50 (thorough +-100), radius 0.1..24 (thorough 40), all floats; pixel +-500', 'larger dabs and coordinates',
  'positions and radii are symbolic floats; float rounding is modelled by error terms')

P('P10', 'Invisible dabs change nothing; visible dabs are queued with valid parameters',
  'A dab whose radius is below 0.1, or whose opacity or hardness is not positive, or whose softness is 1 or more, reports an unmodified surface, queues nothing, dirties nothing and touches no tile. '
  'Every other dab reports a modified surface and is queued with opacity, hardness, softness, colour, alpha, lock, colorize, posterize, posterize levels and paint ratio clamped to their valid ranges, whatever the caller passed.',
  ['inputs'], 'every value of the 17 dab parameters in and far outside their ranges',
  'callers in the tests pass valid values only', ['mypaint-tiled-surface.c'], [('early return and clamps', 'mypaint-tiled-surface.c draw_dab_internal')],
  'all parameters symbolic floats, up to 1000 outside their range; position 20..40, radius up to 5', 'NaN and infinite parameters',
  'all 17 parameters symbolic at once')

P('P11', 'Rectangle expansion gives exactly the smallest covering rectangle',
  'Expanding a rectangle to include a point or another rectangle gives the smallest rectangle containing both, for any signs and order of coordinates, and an empty rectangle becomes exactly what was added. '
  'The rectangle that was added is not modified, and a copy is equal to and independent of its original.',
  ['inputs'], 'every rectangle and point with coordinates and sizes up to 10^6',
  'no test calls these functions directly', ['mypaint-rectangle.c'], [('expansion', 'mypaint-rectangle.c mypaint_rectangle_expand_to_include_point / _rect')],
  'coordinates and sizes up to 10^6, exact integer arithmetic, overflow checked', 'coordinates near the limits of int', 'complete within the coordinate range')

P('P26', 'Dirty rectangles of a transaction contain everything drawn in it',
  'The rectangles reported when a transaction ends contain every pixel that any dab of the transaction, mirrored copies included, can touch, however many rectangles the caller has room for. '
  'Nothing is written outside the caller\'s array, nothing drawn means nothing reported, and a following empty transaction reports nothing.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'], 'every mix of visible and invisible dabs (up to 2), symmetry type and line count, room for 0..70 rectangles, failed allocation of the per-symmetry boxes',
  'the tests pass one rectangle and no symmetry, and never an allocation failure', ['mypaint-tiled-surface.c', 'mypaint-symmetry.c', 'mypaint-rectangle.c'],
  [('dirty boxes', 'mypaint-tiled-surface.c update_dirty_bbox, tiled_surface_end_atomic_2, prepare_bounding_boxes')],
  'two dabs, or one dab with symmetry (types 0..4 with 2..6 lines; 20..40 lines for the box merging); room for 0,1,2,3,8,60,70 rectangles',
  'all line counts', 'positions and sizes symbolic; symmetry parameters enumerated')

P('P30', 'A dab is split into the right blend operations with the right weights',
  'Rendering a queued dab runs each blend operation at most once per tile, with opacity equal to the dab opacity times the share of that mode: normal (1-lock)(1-colorize)(1-posterize), lock-alpha lock(1-colorize)(1-posterize), colorize, posterize, each of the first two divided between additive and pigment by the paint ratio. '
  'A dab with alpha below 1 uses the erasing operations instead of the normal ones, a fully transparent dab never paints on locked pixels, and the dab colour and alpha are passed on unchanged. '
  'Each tile is requested once for writing and given back once, when the transaction ends.',
  ['inputs', 'configurations'], 'every opacity and colour, and every combination of lock, colorize, posterize, paint in {0, 0.25, 1} and alpha in {0, 0.5, 1}',
  'the tests only use ordinary brushes; combinations such as partial lock with partial paint are never drawn', ['mypaint-tiled-surface.c'], [('mode dispatch', 'mypaint-tiled-surface.c process_op')],
  '3^4 x 3 combinations of the ratios; opacity and colour symbolic; blend functions replaced by recorders; 8x8 pixel tile', 'other values of the ratios',
  'opacity/colour symbolic; ratios enumerated')

P('P12', 'The fixed tiled surface stores every tile separately and ignores the outside',
  'Every tile that contains pixels of the surface has its own storage: a new one holds valid pixels, writes to it persist and change no other tile. '
  'A request outside the surface gets a scratch tile that reads as fully transparent, whatever was written to it before. '
  'The surface keeps the size it was created with for any positive width and height, reports a failed allocation of its pixels instead of crashing, and releases all its memory when its last reference is dropped.',
  ['inputs', 'histories', 'fault_sequences'], 'every pair of tile requests (coordinates +-100) on every surface size, every size up to 2^30 for the allocation, every failing allocation of tile memory',
  'the one test creates one surface and draws in it; partial edge tiles, requests outside and large sizes are not reached',
  ['mypaint-fixed-tiled-surface.c', 'mypaint-surface.c', 'mypaint-tiled-surface.c'], [('tile lookup', 'mypaint-fixed-tiled-surface.c tile_request_start'), ('scratch tile', 'tile_request_end / reset_null_tile'), ('allocation', 'mypaint_fixed_tiled_surface_new')],
  'tiles of 2x2 pixels with surfaces of 1..5 by 1..5 pixels; three requests; creation with 64x64 tiles for all widths and heights in 1..2^30', 'other tile sizes; failing allocations other than those of the pixels and of the scratch tile',
  'tile coordinates and sizes symbolic')

P('P14', 'A mapping is its base value plus the piecewise linear curves of its inputs',
  'The value of a mapping is its base value plus, for every input that has points, the straight line through the two points around the input value; beyond the ends the first or last segment is continued and a vertical step has the value of its first point. '
  'A mapping without points is constant, and which inputs have how many points, the points themselves and the base value read back as they were set after every history of changes.',
  ['inputs', 'histories'], 'every input value, base value and point set with 2 or 3 (thorough: 4) points, and every history of 3 changes of the number of points (0, 2, 3 or 64) on two of three inputs',
  'tests only load brushes; no value of a mapping is compared with anything', ['mypaint-mapping.c'], [('interpolation', 'mypaint-mapping.c mypaint_mapping_calculate'), ('bookkeeping', 'mypaint_mapping_set_n / set_point')],
  '2..3 points (thorough 4): y values, input and base value symbolic on 5 spacings of x, or x coordinates symbolic on 3 shapes of y; 3 inputs', 'curves with more points (only read back), x and y free at the same time',
  'tolerance 1e-4 for float rounding')

P('P06', 'A dab mask is well formed and has the documented falloff',
  'The mask rendered for a dab covers each pixel of the tile at most once and ends inside its buffer, its values are at most 32768 times (1 - softness), and no pixel further from the centre than the radius (plus the antialiasing margin of small dabs) is covered. '
  'For a radius of 3 or more every pixel gets the documented opacity: piecewise linear in the squared elliptical distance, 1 at the centre, the hardness at a squared distance equal to the hardness, 0 at the radius, with the ellipse rotated by the given angle and squeezed by the aspect ratio.',
  ['inputs'], 'every horizontal position (and a set of vertical positions, radii, hardnesses, softnesses, aspect ratios and angles)',
  'no test looks at a mask; wrong masks show as faint artefacts at particular sub-pixel positions',
  ['mypaint-tiled-surface.c'], [('mask rendering', 'mypaint-tiled-surface.c render_dab_mask, calculate_rr, calculate_rr_antialiased, calculate_opa')],
  'one pixel (3x3 pixels for two hard dabs), x symbolic over +-8 (+-4 for small dabs), 2 (thorough 6) y values for 4 (6) dab shapes with radius >= 3, 1..3 (thorough 6) for 3 small ones',
  'both coordinates free at once, other shapes; the exact opacity of dabs with a radius below 3 (only range and extent are decided)', 'tolerance 3/32768; positions symbolic in x only')

P('P16', 'Smudge buckets are separate, bounds-checked and cleared by a reset',
  'Setting or reading a smudge bucket succeeds exactly for indices from 0 to the number of buckets of the brush minus one; a refused call changes nothing. '
  'A bucket holds exactly what was last written to it, never what was written to another one, and the range of used buckets reported is the range of the buckets written (from outside or by painting) since the last reset, which clears them all. '
  'A dab of a smudging brush uses only the bucket its setting selects (rounded and limited to the existing ones), takes the colour sampled from the surface into it and passes the smudged alpha on to the surface.',
  ['histories', 'inputs'], 'every history of two set/reset calls with bucket indices in +-1000 and all values, and every value of the bucket setting in -6..9 for a dab',
  'no test uses smudge buckets', ['mypaint-brush.c'], [('bucket access', 'mypaint-brush.c mypaint_brush_set_smudge_bucket_state / get_smudge_bucket_state / fetch_smudge_bucket'), ('reset', 'mypaint-brush.c brush_reset')],
  '0 or 3 buckets; two operations, each followed by a query of any index; one smudging dab with any preset states, canvas colour and alpha (0 or 0.001..1)', 'other numbers of buckets; spectral smudging', 'indices and values symbolic')

P('P17', 'Brush settings, curves and states are separate, read back, and have unique names',
  'Changing the base value or a curve of one setting, or one state, changes that one only, and each reads back as it was set. '
  'A brush set to its defaults has for every setting the documented default value and no dynamics but opacity by pressure, whatever it was before. '
  'Every setting and input is described, its default lies in its range, its internal name leads back to it, and a name that is not exactly one of the internal names is not found.',
  ['inputs', 'histories'], 'every setting with every value (-10..10), and every string that differs from an internal name in one place',
  'the tests load two brushes and read nothing back', ['mypaint-brush.c', 'mypaint-brush-settings.c', 'mypaint-mapping.c', 'brushsettings.json'],
  [('settings', 'mypaint-brush.c mypaint_brush_set_base_value / set_mapping_point / set_state / from_defaults'), ('names', 'mypaint-brush-settings.c mypaint_brush_setting_from_cname, mypaint_brush_input_from_cname')],
  'a setting and its successor changed, one curve and one state per path, from a new or a default brush; names: one character replaced (or the name cut or continued by one)', 'longer histories (P14 has those of one mapping); other strings', 'setting symbolic, all others compared')

P('P21', 'Colour space conversions stay in range and undo each other',
  'Converting a colour from RGB to HSV or HSL gives hue, saturation and value or lightness in 0..1, with the value equal to the largest channel and the lightness to the middle of the largest and the smallest, and converting back gives channels in 0..1 equal to the original ones.',
  ['inputs'], 'every RGB colour (HSV ranges); every value of the middle channel for all orders of the channels and a grid of the other two (round trips)',
  'no test converts a colour', ['helpers.c'], [('conversions', 'helpers.c rgb_to_hsv_float, hsv_to_rgb_float, rgb_to_hsl_float, hsl_to_rgb_float')],
  'HSV ranges: all three channels symbolic; round trips: one channel symbolic, 2 (HSV) or 1 (HSL) x 2 values of the others (thorough 3 x 4) in all 6 orders; the middle and smallest channel equal or at least 0.00001 apart',
  'HCY conversions (not used by the library)', 'tolerance 0.0003 for the round trip')

P('P22', 'Angle arithmetic is congruent and in range',
  'The arithmetic modulus of a number lies between 0 and the modulus and differs from the number by a whole multiple of it, for negative numbers too. '
  'The smallest angular difference of two angles lies within half a turn and leads from the first to the second, and a difference of less than half a turn is found unchanged.',
  ['inputs'], 'every angle in +-10000 degrees', 'the tests never pass negative or wrapped angles', ['helpers.c'], [('angles', 'helpers.c mod_arith, smallest_angular_difference')],
  'angles in +-10000, moduli 360, 180 and 256', 'larger angles (float precision)', 'tolerance 1e-6 of the magnitude')

P('P13', 'Symmetry repeats a dab at exactly the prescribed places',
  'With symmetry switched on, a dab is drawn once per copy the symmetry type prescribes - mirrored at the vertical, horizontal or both lines through the centre, turned around the centre, or both for the snowflake - at the mirrored or turned position with the ellipse angle mirrored or turned alike and everything else unchanged, and no other dab is drawn. '
  'A changed centre, angle, type or number of lines takes effect with the next transaction, however little changed, and not before; switched off, or without memory for the transformations, the dab itself is drawn.',
  ['inputs', 'histories'], 'every dab position of a region beside the centre, all symmetry types with up to 5 lines (rotation) or 3 lines (snowflake), and changes of the symmetry before, inside and between transactions',
  'the tests never enable symmetry', ['mypaint-symmetry.c', 'mypaint-matrix.c', 'mypaint-tiled-surface.c'],
  [('transformations', 'mypaint-symmetry.c mypaint_update_symmetry_state'), ('matrices', 'mypaint-matrix.c'), ('copies', 'mypaint-tiled-surface.c draw_dab')],
  'dab x and y symbolic in 40 by 80 pixels beside a fixed centre, dab angle 37 degrees, 5 symmetry angles, one tile of 1024 pixels', 'dabs on the symmetry lines, centres other than (500, 531), more lines than 5 (thorough 7)',
  'positions to 0.01 pixels, angles to 0.02 degrees')

P('P29', 'Every dab is rendered exactly once per tile and in drawing order',
  'However drawing calls are grouped into transactions, and whatever colours are sampled in between, every dab is blended exactly once into every tile it touches and the dabs of a tile in the order of the calls; sampling a colour sees all dabs drawn before. '
  'Tiles are written only between a request and its end, and every request is ended. A tile the backend cannot provide loses what was queued for it then, but nothing drawn later, and no memory.',
  ['histories', 'fault schedules'], 'every history of 2 (thorough: 3) dabs on two neighbouring tiles, each followed by nothing, a transaction boundary with all tiles available or one of them failing, or a colour sampling, and a last dab',
  'the only drawing tests use one transaction per stroke on a surface whose tiles never fail', ['mypaint-tiled-surface.c', 'operationqueue.c', 'fifo.c', 'tilemap.c'],
  [('flush', 'mypaint-tiled-surface.c process_tile, mypaint_tiled_surface_end_atomic, get_color'), ('queue', 'operationqueue.c')],
  'tile size 8, two tiles anywhere in -3..3, dabs in either tile or over both', 'parallel rendering of tiles, failing tiles while sampling', 'exact')

P('P05', 'A sampled colour is the weighted average of the canvas',
  'Sampling returns colour and alpha between 0 and 1; on a uniformly coloured area it returns that colour and alpha, it is never darker, lighter, more opaque or more transparent than everything under the sample, and fully transparent pixels do not contribute to the colour. '
  'Every tile under the sample is requested read-only and given back, no other tile is touched.',
  ['inputs'], 'every colour (or alpha) of every pixel under the sample, for a set of positions (inside a tile and across two), radii, alphas and sampling patterns, by additive sampling and by the legacy method',
  'no test samples a surface with known content', ['mypaint-tiled-surface.c', 'brushmodes.c'],
  [('sampling', 'mypaint-tiled-surface.c get_color'), ('accumulation', 'brushmodes.c get_color_pixels_accumulate, get_color_pixels_legacy')],
  'tile size 8; one channel (or alpha) of all pixels symbolic within symbolic limits; 3 positions, 4 radii below 3, 3 alphas; random sampling patterns none (thorough: every 4th, all)', 'spectral sampling (paint above 0), larger radii',
  'tolerance 0.002 (0.012 for dim areas)')

P('P18', 'Dabs are spread evenly along the stroke however it is split into events',
  'A brush that draws n dabs per radius (or per second) places the dabs of a straight stroke at equal distances (or times) and nowhere else, however the way is split into motion events, with the pressure interpolated linearly in between; what is left over of a distance is carried on to the next event. '
  'After each event the state of the brush is that of the event (position, pressure, tilt). A reset, the first event of all and a pause of more than five seconds start a new stroke at the new place without drawing. '
  'The stroke is never split before it has run for a few moments, always when it has gone on for long, and a brush that is fed positions far outside the canvas neither draws at an invalid position nor keeps an invalid state.',
  ['inputs', 'histories'], 'every way of splitting a stroke of fixed length into two or three events, every pressure and time of the events, and every position beyond the accepted range',
  'the tests replay recorded strokes and compare performance or one rendered image', ['mypaint-brush.c'],
  [('stroke', 'mypaint-brush.c mypaint_brush_stroke_to_internal'), ('spacing', 'mypaint-brush.c count_dabs_to, update_states_and_setting_values'), ('dabs', 'mypaint-brush.c prepare_and_draw_dab')],
  'at most three events after the first two, straight horizontal strokes, up to a dozen dabs', 'coordinates between 1e8 and 1e10 and NaN tilt (deliberate asserts), smoothing, curved strokes', 'tolerance 0.01 pixels')

P('P19', 'The settings of a brush decide the parameters of its dabs',
  'A dab has the opacity given by the product of the two opacity settings, limited to 0..1, the hardness and softness limited to 0..1, the radius given by the exponential of its setting limited to 0.2..1000, and the lock-alpha, colorize, posterize, eraser and paint-mode values of their settings. '
  'Asking for a minimal fade-out keeps the optical radius and yields at least that fade-out; an offset moves the dab by exactly that much, at most 3240 pixels; snapping puts it on the nearest pixel; linearised opacity makes overlapping dabs add up to the opacity asked for. '
  'Colour changes yield valid colours, and the angle of an elliptical dab is relative to the view.',
  ['inputs'], 'every value of the setting in question within (and beyond) its range',
  'the tests use fixed brushes and never look at dabs', ['mypaint-brush.c', 'helpers.c'],
  [('dab parameters', 'mypaint-brush.c prepare_and_draw_dab'), ('offsets', 'mypaint-brush.c directional_offsets'), ('settings', 'mypaint-brush.c update_states_and_setting_values')],
  'one dab of an otherwise plain brush; one to four settings symbolic per path, linearised opacity with 5 opacities x 2 dab densities, radii from 7 settings', 'dynamics by inputs (P14), random variation, speed offsets',
  'tolerance 0.0001 (opacity, colours), 0.01 pixels')

P('P15', 'Loading a brush takes over exactly what its description says and never crashes',
  'Loading a version 3 description sets the base value and the curves of every setting it names to the values given, in whatever order they are given, and leaves all others as they were. '
  'A setting with an unknown name or a missing, malformed or unusable part (wrong type, single point, more than 64 points, descending points) is refused without a crash and without touching any other setting; '
  'a description without settings, of another version or of a wrong kind is refused as a whole and changes nothing. The description is freed exactly once.',
  ['inputs', 'fault schedules'], 'every value and every point of a description of two settings and two curves, and every place of it replaced by each kind of JSON value or left out',
  'the tests load two well-formed brush files', ['mypaint-brush.c', 'mypaint-mapping.c', 'mypaint-brush-settings.c'],
  [('loading', 'mypaint-brush.c mypaint_brush_from_string, update_brush_from_json_object, update_brush_setting_from_json_object')],
  'two settings, two curves of up to 3 points (65 for the limit), 14 places, 8 kinds of values', 'the parser of json-c (a stand-in builds the parsed tree and enforces its preconditions), numbers beyond +-100', 'exact')

P('P20', 'Random variation follows the random numbers and stays within its limits',
  'A brush without random settings draws the same dabs whatever the random numbers. Jitter moves a dab by the Gaussian number of its random numbers times the radius and the setting, at most 3.47 times that, and nothing else; '
  'the radius varies by the same kind of number on its logarithmic scale within 0.2..1000, larger dabs becoming less opaque in proportion to their area and smaller ones not more opaque; tracking noise moves the cursor likewise. '
  'The random input of the dynamics takes a new number for every dab.',
  ['inputs', 'schedules of random numbers'], 'every sequence of random numbers in 0..1 (jitter, noise, inputs, limits)',
  'the tests use the fixed sequence of one seed', ['mypaint-brush.c', 'helpers.c'],
  [('jitter', 'mypaint-brush.c prepare_and_draw_dab'), ('noise', 'mypaint-brush.c mypaint_brush_stroke_to_internal'), ('Gaussian', 'helpers.c rand_gauss')],
  'one dab (three for the random input), radius 1 or e, 4 amounts of jitter; exact radius and opacity for three sequences of equal numbers and every opacity', 'the random number generator itself (its numbers are the symbolic inputs)', 'tolerance 0.002 per unit')

P('P25', 'Surfaces and brushes live while referenced; calls reach the backend unchanged',
  'A surface is destroyed exactly when its last reference is dropped, and a brush or fixed surface stays usable until then and leaves no memory behind. '
  'Drawing, sampling, saving and the borders of a transaction call the corresponding method of the backend exactly once with exactly the arguments given and return its answer; methods that are optional may be missing.',
  ['histories', 'inputs'], 'every history of 8 (brushes and fixed surfaces: 5) reference changes, every argument value',
  'the tests never share a surface or brush', ['mypaint-surface.c', 'mypaint-brush.c', 'mypaint-fixed-tiled-surface.c', 'mypaint-tiled-surface.c'],
  [('interface', 'mypaint-surface.c'), ('lifetime', 'mypaint-brush.c mypaint_brush_ref / unref; mypaint-fixed-tiled-surface.c free_simple_tiledsurf')],
  'one object; arguments in +-100000', 'reference counts shared between threads', 'exact')

P('P27', 'Geometric transformations compose in the given order',
  'Rotating, reflecting or translating a transformation gives one that first does what the old one does and then turns (clockwise or counterclockwise), mirrors (at the line through the origin with that angle) or moves the point; the old one is not changed.',
  ['inputs'], 'every point and every translation in +-1000, after four transformations',
  'the tests never use a transformation', ['mypaint-matrix.c'], [('transformations', 'mypaint-matrix.c')],
  '4 transformations, 4 (thorough 8) angles', 'other angles', 'tolerance 0.004')

P('P31', 'Tiles rendered in parallel do not interfere',
  'When the dirty tiles of a transaction are processed by several threads, every tile gets the same pixels as with one thread, whatever the schedule.',
  ['schedules'], 'every interleaving of the threads that process the dirty tiles', 'tests run with whatever schedule happens', ['mypaint-tiled-surface.c', 'operationqueue.c'],
  [('parallel loop', 'mypaint-tiled-surface.c mypaint_tiled_surface_end_atomic')], 'none', 'all', '')
P('P32', 'The random number generator is repeatable and uniform in [0, 1)',
  'Two generators with the same seed give the same sequence, whatever other generators do in between, and every number lies in [0, 1).',
  ['inputs', 'histories'], 'every seed', 'one seed is used', ['rng-double.c'], [('generator', 'rng-double.c rng_double_set_seed, rng_double_next')], 'none', 'all', '')

NOT_APPLICABLE = [
  dict(property='P31', reason='the loop is parallel only with OpenMP, which the build does not enable; the outlined OpenMP regions and the runtime calls are outside the sequential symbolic executor, and a model of the schedule would not be the real code'),
  dict(property='P32', reason='seeding runs 36 rounds with a data-dependent branch per seed bit over exact 52-bit floating-point sums: a symbolic seed gives 2^30 paths, and the executor bounds floating-point results by rounding intervals, which cannot decide bit-exact sums'),
]
