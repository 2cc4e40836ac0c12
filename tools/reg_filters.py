from registry import P, J, PROPS
RO = 'src/core/reorderfilters.cpp'

P('F01', 'Reordering filters deliver exactly the documented frames',
  'Trim, Reverse, Loop, Interleave, SelectEvery, Splice, DuplicateFrames, DeleteFrames and FreezeFrames accept exactly the documented arguments, report the resulting length, and output frame n is the documented input frame, for every n; durations and frame rate change only where documented. Only existing input frames are requested, and frames are not requested repeatedly by filters that declare they never do so.',
  ['inputs'], 'every clip length, every frame number and every argument value (symbolic 32 and 64 bit integers), for up to three clips or list entries',
  'Tests use short clips and usual arguments; off-by-one and overflow mistakes appear at boundaries, in the last cycle or near the largest clip length.',
  [RO], [('frame mapping', RO + ': the getframe functions'), ('argument checks', RO + ': the create functions'), ('duration helpers', 'include/VSHelper4.h: muldivRational')],
  [J('reorder', 'h_trim', 'all lengths and arguments', covers=['mapped', 'same', 'refused']), J('reorder', 'h_reverse', 'all lengths', covers=['mapped']),
   J('reorder', 'h_loop', 'all lengths and counts', covers=['refused', 'mapped'], time=200), J('reorder', 'h_loop', 'six lengths, all counts and frame numbers', covers=['refused', 'mapped'], fixlen=1)] +
  [J('reorder', 'h_interleave', 'two clips of any lengths, extend=%d' % x, covers=['mapped', 'refused'], extend=x) for x in (0, 1)] +
  [J('reorder', 'h_interleave', 'three clips of up to 511 frames, extend=%d' % x, covers=['mapped'], extend=x, clips=3, maxlen=511, time=200) for x in (0, 1)] +
  [J('reorder', 'h_interleave', 'three clips of any lengths, extend=%d' % x, covers=['mapped', 'refused'], extend=x, clips=3, tier='thorough', time=1500) for x in (0, 1)] +
  [J('reorder', 'h_select', 'cycle of %d, two offsets, any length' % c, covers=['mapped', 'refused'], cycle=c, time=200) for c in (2, 3, 4)] +
  [J('reorder', 'h_select', 'cycle of 3, three offsets, up to 511 frames', covers=['mapped', 'refused'], cycle=3, num=3, maxlen=511, time=200), J('reorder', 'h_select', 'cycle of 5, three offsets, any length', cycle=5, num=3, tier='thorough', time=1500),
   J('reorder', 'h_selcycle', 'every cycle size', covers=['mapped', 'refused']), J('reorder', 'h_splice', 'up to three clips of any lengths', covers=['mapped', 'refused'])] +
  [J('reorder', e, 'up to %d entries, any values, any length' % k, covers=['mapped', 'refused'], num=k, tier=t, time=tm) for e in ('h_dup', 'h_del', 'h_freeze') for k, t, tm in ((2, 'quick', 120), (3, 'thorough', 600))],
  outside='more clips, offsets or list entries; clips of different formats')
SF = 'src/core/simplefilters.cpp'
GEOF = 'formats and frame sizes are those of the listed jobs (frames of a few pixels per side, 36 for turning with SIMD); argument checks are decided for all dimensions'
# formats: 0 Gray8, 1 YUV420P8, 2 YUV422P16, 3 RGBS, 8 YUV410P8, 9 Gray16
P('F02', 'Geometry filters put every pixel where documented and refuse impossible areas',
  'Crop, CropAbs, AddBorders, StackVertical, StackHorizontal, FlipVertical, FlipHorizontal, Turn180, Transpose, Turn90 and Turn270 accept exactly the documented arguments (areas inside the frame, subsampling restrictions, sizes that fit into a clip), report the resulting dimensions, format and length, and every output pixel is the documented input pixel or border color; field order and other frame properties are kept or adjusted as the moved lines require. Frames too small for a fixed area are errors, never out-of-bounds accesses.',
  ['inputs'], 'every 64 bit argument value and every clip dimension for the argument checks; all frame contents, frame numbers and properties for the pixel mapping',
  'Offsets near the integer limits, odd offsets with subsampling and sizes that are not a multiple of a SIMD block occur in no test.',
  [SF, 'src/core/kernel/transpose.cpp', 'src/core/kernel/x86/transpose_sse2.cpp'], [('bounds checks', SF + ': cropVerify, addBordersVerify, stackCreate'), ('pixel movement', SF + ': the getframe functions; kernel/transpose')],
  [J('geo', 'h_crop_args', 'all arguments and dimensions; %s, format %d%s' % (('Crop', 'CropAbs')[a], f, ', variable size' if v else ''), covers=['accepted', 'refused'], abs=a, fmt=f, var=v) for a, f, v in ((0, 0, 0), (0, 1, 0), (1, 8, 0), (1, 2, 1))] +
  [J('geo', 'h_crop', 'all areas in a small frame; %s, format %d%s' % (('Crop', 'CropAbs')[a], f, ', variable size' if v else ''), covers=['pixels'] + (['outside'] if v else []), abs=a, fmt=f, var=v) for a, f, v in ((0, 1, 0), (0, 3, 0), (1, 2, 1), (1, 8, 0))] +
  [J('geo', 'h_borders_args', 'all arguments and dimensions, format %d%s' % (f, ', variable size' if v else ''), covers=['accepted', 'refused'], fmt=f, var=v) for f, v in ((0, 0), (8, 0), (1, 1))] +
  [J('geo', 'h_borders', 'all borders up to %d, any color=%d, format %d%s' % (m, c, f, ', variable size' if v else ''), covers=['pixels'], fmt=f, color=c, var=v, max=m) for f, c, v, m in ((1, 1, 0, 4), (2, 1, 0, 4), (9, 0, 1, 3), (6, 1, 0, 2), (3, 0, 0, 1), (8, 0, 0, 4))] +
  [J('geo', 'h_stack_args', '%d clips of any dimensions and lengths' % k, covers=['accepted', 'refused'], vertical=v, clips=k) for v in (0, 1) for k in (2, 3)] +
  [J('geo', 'h_stack', 'three clips, format %d' % f, covers=['pixels'], vertical=v, fmt=f) for v in (0, 1) for f in (1, 3)] +
  [J('geo', 'h_turn', 'mode %d, format %d, %dx%d, cpu level %d' % (m, f, w, h, cpu), covers=['pixels'] if m < 3 or not v else [], mode=m, fmt=f, w=w, h=h, cpu=cpu, var=v)
   for m, f, w, h, cpu, v in ((0, 1, 6, 4, 0, 1), (1, 1, 6, 4, 0, 1), (1, 2, 6, 3, 0, 0), (1, 3, 5, 3, 0, 0), (2, 1, 6, 4, 0, 0), (2, 3, 5, 3, 0, 0), (3, 1, 36, 36, 1, 0), (4, 2, 20, 11, 1, 0), (5, 3, 9, 6, 1, 0), (5, 1, 20, 34, 1, 0), (4, 1, 6, 10, 0, 0), (3, 2, 6, 5, 0, 0), (5, 3, 5, 7, 0, 0), (3, 0, 6, 4, 0, 1))],
  outside=GEOF)
P('F03', 'Fields are separated and woven in the right order',
  'SeparateFields shows the lines of each field in the order given by _FieldBased or else tff, marks the field, removes _FieldBased, halves durations if asked to, doubles the length and frame rate and refuses clips it cannot split; DoubleWeave interleaves two consecutive fields by their _Field marks or else tff and marks the result. If the order cannot be known the frame is an error.',
  ['inputs'], 'all frame contents, property values (any 64 bit integer, absent or of another type), clip lengths and frame numbers',
  'Conflicting, partial or unusual field properties and last frames are not exercised by tests.',
  [SF], [('field order decision', SF + ': separateFieldsGetframe, doubleWeaveGetframe')],
  [J('geo', 'h_sepfields_args', 'any height and length, format %d' % f, covers=['accepted', 'refused'], fmt=f) for f in (0, 1, 8)] + [J('geo', 'h_sepfields_args', 'variable size', covers=['refused'], var=1)] +
  [J('geo', 'h_sepfields', 'format %d' % f, covers=['pixels', 'unknown'], fmt=f) for f in (0, 1, 2)] + [J('geo', 'h_weave', 'format %d' % f, covers=['pixels', 'unknown'], fmt=f) for f in (0, 1, 2)],
  outside='_FieldBased of the very last woven frame (it shows one field twice); ' + GEOF)
P('F04', 'Planes are extracted and combined without change',
  'ShufflePlanes and SplitPlanes accept exactly planes that exist and fit together, derive the output format, subsampling and length from them, and every output plane equals the chosen input plane of the same frame number (the last one beyond the end of a shorter clip); properties come from prop_src or the first clip. A shorter clip, whose last frame is requested again and again, is not declared as requested once only.',
  ['inputs'], 'every clip dimension, length and 64 bit argument value; all frame contents',
  'Plane sizes near the limits, uneven subsampling and clips of different length are not covered by tests.',
  [SF], [('plane selection', SF + ': shufflePlanesCreate, shufflePlanesGetframe, splitPlanesCreate')],
  [J('geo', 'h_shuffle_args', 'formats %d %d %d, %d clips, %d planes, any dimensions' % (f, f1, f2, k, np), covers=['accepted', 'refused'] if ok else ['refused'], fmt=f, fmt1=f1, fmt2=f2, clips=k, planes=np, time=200)
   for f, f1, f2, k, np, ok in ((0, 0, 0, 1, 1, 1), (1, 0, 0, 1, 1, 1), (1, 0, 0, 1, 3, 1), (0, 0, 0, 3, 3, 1), (1, 8, 0, 2, 2, 1), (0, 1, 9, 3, 3, 0), (9, 5, 5, 2, 3, 0))] +
  [J('geo', 'h_shuffle', 'formats %d %d, %d clips, family %d' % (f, f1, k, cf), covers=['pixels'], fmt=f, fmt1=f1, clips=k, cf=cf, div=dv) for f, f1, k, cf, dv in ((1, 0, 1, 3, 1), (1, 16, 2, 3, 2), (11, 11, 1, 1, 1), (0, 0, 3, 3, 1), (9, 2, 2, 3, 1), (3, 3, 3, 2, 1), (0, 0, 3, 3, 2))] +
  [J('geo', 'h_split', 'format %d' % f, covers=['pixels'] if f else [], fmt=f) for f in (0, 1, 2, 3, 8)],
  outside=GEOF)
MF, KM = 'src/core/mergefilters.cpp', 'src/core/kernel/merge.cpp'
KX = ['src/core/kernel/x86/merge_%s.cpp' % x for x in ('sse2', 'avx2', 'avx512')]
CPU = ('scalar code', 'SSE2 code', 'AVX2 code', 'AVX-512 code')
FN = { 0: 'Gray8', 1: 'YUV420P8', 2: 'YUV422P16', 3: 'RGBS', 4: 'YUV444P10', 5: 'GrayH', 6: 'Gray32', 7: 'GrayS', 8: 'YUV410P8', 9: 'Gray16', 10: 'Gray12', 11: 'RGB24', 12: 'YUV444PS', 13: 'YUV440P8', 14: 'YUV420P10', 15: 'RGBH', 16: 'YUV444P8', 17: 'YUV444P16' }
EX = dict(exact=1)
def simd(f, c): # wide enough for more than one vector
    return { 0: 70, 1: 70, 2: 40, 9: 40, 4: 40, 10: 40, 7: 18, 5: 34, 16: 70, 17: 40, 11: 70, 3: 18 }[f] if c else 8
P('F05', 'Merge, MaskedMerge and PreMultiply compute the documented averages',
  'Merge outputs the weighted average of both clips rounded to nearest (the clips themselves for weights 0 and 1), MaskedMerge the average weighted by the mask or, when premultiplied, the sum of the second clip and the weighted first clip clamped to the format, PreMultiply the value scaled around the black level of its range; for integer, half and single precision formats and with scalar, SSE2, AVX2 and AVX-512 code alike. Planes not listed are copied from the first clip, frames beyond the end of a shorter second clip or mask use its last frame, and exactly matching clips, masks and weights are accepted. Half precision samples convert exactly to float and to the nearest value back.',
  ['inputs'], 'all pixel values of 8 bit formats, all values of one 16 bit clip against selected values of the others, all conversions between half and float; all frame numbers and lengths',
  'Rounding errors of the division by 255 or 65535, signed overflow in vector code and lane order mistakes show only for particular combinations of values and positions.',
  [MF, KM, 'src/core/float16_helper.h'] + KX, [('kernels', KM + ' and kernel/x86/merge_*.cpp'), ('argument checks and plane selection', MF)],
  [J('merge', 'h_merge_args', 'Merge: eleven formats of either clip, three sizes and variable, any length', covers=['accepted', 'refused'], mode=0)] +
  [J('merge', 'h_weights', 'up to five weights of any double value, %s' % FN[f], covers=['accepted', 'refused'], fmt=f) for f in (0, 1)] +
  [J('merge', 'h_masked_args', 'MaskedMerge: %s with eleven formats of the other clips' % FN[f], covers=['accepted', 'refused'], fmt=f, tier=t) for f, t in ((1, 'quick'), (5, 'quick'), (0, 'thorough'), (16, 'thorough'), (7, 'thorough'))] +
  [J('merge', 'h_premul_args', 'PreMultiply: eleven formats of either clip', covers=['accepted', 'refused'])] +
  [J('merge', 'h_merge', 'Merge %s, all pixels, eleven weights' % FN[f], covers=['pixels'], fmt=f, w=w, h=h) for f, w, h in ((1, 8, 2), (2, 4, 1), (4, 2, 1))] +
  [J('merge', 'h_merge', 'Merge Gray8, all pixels, eleven weights, %s' % CPU[c], covers=['pixels'], fmt=0, w=70, h=1, cpu=c) for c in (1, 2, 3)] +
  [J('merge', 'h_merge', 'Merge Gray16, all pixels of one clip against six of the other, eleven weights, %s' % CPU[c], covers=['pixels'], fmt=9, w=40, h=1, cpu=c, pin=1) for c in (1, 2)] +
  [J('merge', 'h_merge', 'Merge %s, five weights, %s' % (FN[f], 'all pixels' if not c else 'exactly representable results, ' + CPU[c]), covers=['pixels'], fmt=f, w=w, quarter=1, cpu=c, **(EX if c else {})) for f, c, w in ((5, 0, 2), (7, 0, 2), (7, 1, 9), (7, 2, 18), (5, 2, 18))] +
  [J('merge', 'h_masked', 'MaskedMerge Gray8, all pixels, premultiplied=%d, %s' % (p, CPU[c]), covers=['pixels'], fmt=0, w=70, h=1, cpu=c, premultiplied=p, range=p) for c in (0, 1, 2, 3) for p in (0, 1)] +
  [J('merge', 'h_masked', 'MaskedMerge Gray16, all pixels against six values of the second clip and six of the mask, premultiplied=%d, %s' % (p, CPU[c]), covers=['pixels'], fmt=9, mfmt=9, w=w, h=1, cpu=c, premultiplied=p, range=p, pin=1) for c, w in ((0, 2), (1, 18), (2, 18), (3, 34)) for p in (0, 1)] +
  [J('merge', 'h_masked', 'MaskedMerge %s mask %s planes and locations' % (FN[f], FN[m]), covers=['pixels'], fmt=f, mfmt=m, w=w, h=h, planes=1, **k) for f, m, w, h, k in ((1, 1, 4, 2, dict(cloc=1)), (16, 16, 4, 2, dict(first=1)), (16, 0, 4, 2, {}), (17, 17, 2, 1, dict(pin=1)))] +
  [J('merge', 'h_masked', 'MaskedMerge YUV444P10, premultiplied', covers=['pixels'], fmt=4, mfmt=4, w=2, h=1, pin=1, premultiplied=1)] +
  [J('merge', 'h_masked', 'MaskedMerge %s, exactly representable results, premultiplied=%d, %s' % (FN[f], p, CPU[c]), covers=['pixels'], fmt=f, mfmt=f, w=w, h=1, cpu=c, premultiplied=p, exact=1, qt=40) for f, c, w in ((7, 0, 2), (7, 1, 9), (7, 2, 18), (5, 0, 2), (5, 2, 18)) for p in (0, 1)] +
  [J('merge', 'h_masked', 'MaskedMerge %s, all pixels and masks, premultiplied=%d' % (FN[7], p), covers=['pixels'], fmt=7, mfmt=7, w=1, h=1, premultiplied=p, tier='thorough', time=400) for p in (0, 1)] +
  [J('merge', 'h_premul', 'PreMultiply %s' % FN[f], covers=['pixels'], fmt=f, range=1, w=w, h=1, pin=1 if f == 17 else 0) for f, w in ((0, 4), (16, 4), (11, 4), (17, 2), (5, 2), (7, 2))] +
  [J('merge', 'h_premul', 'PreMultiply GrayH, exactly representable results, AVX2 code', covers=['pixels'], fmt=5, w=18, cpu=2, exact=1)] +
  [J('merge', 'h_halftofloat', 'all 65536 half values', covers=['checked']), J('merge', 'h_floattohalf', 'all 2^32 float values', covers=['normal', 'subnormal'])],
  outside='NaN masks; subsampled formats with a single-plane mask (they need the resize plugin, which this build leaves out); rounding of float results in vector code; weights other than the listed ones for pixel values (all weights are covered by the argument check)')
P('F06', 'Differences are exact and can be added back',
  'MakeDiff and MergeDiff compute clip a minus or plus clip b around the middle value, clamped to the format; MakeFullDiff stores the difference in one more bit without clamping and MergeFullDiff adds it back, so that adding a full difference to the second clip always gives the first clip again, and a plain one whenever it was not clamped. Output format, planes, properties and accepted clips are as documented, at every CPU level.',
  ['inputs'], 'all pixel values of both clips in every listed format, all frame numbers',
  'Clamping at the ends of the range, lane order and widening mistakes need particular pairs of values.',
  [MF, KM] + KX[:2], [('kernels', KM + ': vs_makediff_*, vs_mergediff_*, vs_make/mergefulldiff_*'), ('formats', MF + ': makeFullDiffCreate, mergeFullDiffIsCompatibleVideoInfo')],
  [J('merge', 'h_merge_args', '%s: eleven formats of either clip, three sizes and variable, any planes argument' % n, covers=['accepted', 'refused'], mode=m) for m, n in ((1, 'MakeDiff'), (2, 'MergeDiff'), (3, 'MakeFullDiff'), (4, 'MergeFullDiff'))] +
  [J('merge', 'h_diff', '%s %s, %s' % (n, FN[f], CPU[c]), covers=['pixels'], fmt=f, w=simd(f, c), h=1, cpu=c, mode=m) for m, n in ((1, 'MakeDiff'), (2, 'MergeDiff')) for f in (0, 9, 4, 7) for c in (0, 1, 2)] +
  [J('merge', 'h_diff', '%s %s, any planes' % (n, FN[f]), covers=['pixels'], fmt=f, planes=1, mode=m) for m, n, f in ((1, 'MakeDiff', 1), (2, 'MergeDiff', 2))] +
  [J('merge', 'h_diff', '%s %s' % (n, FN[f]), covers=['pixels'], fmt=f, mode=m) for m, n in ((3, 'MakeFullDiff'), (4, 'MergeFullDiff')) for f in (0, 1, 4, 9, 2, 7)] +
  [J('merge', 'h_diff', '%s GrayH, %s' % (n, CPU[c]), covers=['pixels'], fmt=5, mode=m, cpu=c, w=w, **(EX if c else {})) for m, n in ((1, 'MakeDiff'), (2, 'MergeDiff'), (3, 'MakeFullDiff'), (4, 'MergeFullDiff')) for c, w in ((0, 2), (2, 18))] +
  [J('merge', 'h_roundtrip', 'round trip %s, full=%d' % (FN[f], x), covers=['pixels'], fmt=f, full=x) for f in (0, 4, 9, 2) for x in (0, 1)],
  outside='frames larger than a few vectors')
LF, GF, KG = 'src/core/lutfilters.cpp', 'src/core/genericfilters.cpp', 'src/core/kernel/generic.cpp'
P('F07', 'Lookup tables map every sample to its entry',
  'Lut outputs, for every sample, the table entry of its value (the last one for values above the range of the format), Lut2 the entry y * 2^bits(clipa) + x, with tables given as lists or functions, in the requested integer or float format; planes not listed are passed on. Exactly the documented arguments are accepted: one table of the right length with values in range, formats and dimensions that fit together, and planes that can be passed on unchanged.',
  ['inputs'], 'every sample value of every pixel (also above the range), every table value in the argument checks, every frame number and clip length',
  'A wrong lane order, clamp or table index shows for particular values only; the AVX-512 code needs a CPU and tables of a size that tests do not use.',
  [LF, 'src/core/kernel/x86/lut_avx512.cpp'], [('table construction and lookup', LF + ': lutGetframe, lut2Getframe, funcToLut, lutCreateHelper'), ('vector code', 'kernel/x86/lut_avx512.cpp')],
  [J('lut', 'h_lut', 'Lut %s to %d bits%s, %s' % (FN[f], b, ', function' if fn else '', CPU[c]), covers=['pixels'], fmt=f, bits=b, w=w, h=h, cpu=c, planes=pl, func=fn) for f, b, w, h, c, pl, fn in
   ((0, 8, 10, 2, 0, 0, 0), (1, 8, 4, 2, 0, 1, 0), (1, 16, 4, 2, 0, 1, 0), (1, 32, 4, 2, 0, 1, 1), (10, 8, 4, 1, 0, 0, 0), (9, 16, 2, 1, 0, 0, 0), (9, 32, 2, 1, 0, 0, 0), (0, 8, 130, 1, 3, 0, 0), (0, 10, 10, 1, 3, 0, 1), (4, 12, 2, 1, 0, 1, 1), (9, 8, 4, 1, 0, 0, 0))] +
  [J('lut', 'h_lut_args', 'Lut: eleven formats, three sizes and variable, %s' % t, covers=['accepted', 'refused'], planes=p, tier=ti, time=400) for p, t, ti in ((1, 'any set of planes, listed bit depths', 'quick'), (0, 'any planes and bits arguments', 'thorough'))] +
  [J('lut', 'h_lut_tables', 'Lut: tables and functions of several lengths with values in and out of range', covers=['accepted', 'refused'])] +
  [J('lut', 'h_lut2_args', 'Lut2: eleven formats of either clip, %s' % t, covers=['accepted', 'refused'], planes=p, time=200) for p, t in ((0, 'three sizes and variable'), (1, 'any set of planes'))] +
  [J('lut', 'h_lut2', 'Lut2 %s %s to %d bits, %s%s' % (FN[f], FN[g], b, CPU[c], (', all pixels', ', selected values of the first clip', ', selected values of the second clip')[pin]), covers=['pixels'], fmt=f, fmt2=g, bits=b, w=w, h=h, cpu=c, pin=pin, func=fn, planes=pl, tier=t, time=tm) for f, g, b, c, pin, w, h, fn, pl, t, tm in
   ((0, 0, 8, 0, 0, 2, 1, 0, 0, 'quick', 120), (1, 1, 9, 0, 1, 2, 2, 0, 1, 'quick', 120), (0, 0, 32, 0, 1, 2, 1, 0, 0, 'quick', 120), (0, 0, 8, 0, 2, 2, 1, 1, 0, 'quick', 120), (10, 0, 16, 0, 1, 3, 1, 0, 0, 'quick', 120), (10, 0, 16, 3, 1, 17, 1, 0, 0, 'quick', 120), (0, 10, 8, 3, 2, 17, 1, 0, 0, 'quick', 120), (10, 0, 16, 3, 2, 17, 1, 0, 0, 'thorough', 400), (0, 10, 10, 3, 1, 17, 1, 0, 0, 'thorough', 900))],
  outside='tables that are not the ones the jobs use (each is injective enough to tell entries apart); Lut2 tables of exactly 20 bits with the AVX-512 code for two 16 bit clips')
PT = ('Invert', 'InvertMask', 'Limiter', 'Binarize', 'BinarizeMask', 'Levels')
P('F08', 'Point filters map every sample as documented',
  'Invert, InvertMask, Limiter, Binarize, BinarizeMask and Levels map every sample of the selected planes as documented for integer, half and single precision formats, with per-plane arguments (the last given value is used for the following planes, the documented default otherwise), centered chroma for float YUV except for masks, and samples above the range treated like the maximum. Values outside the range of the format, more values than planes, inconsistent limits and unsupported formats are refused.',
  ['inputs'], 'every sample value of every pixel, every double as an argument value, every set of planes, every frame number',
  'Rounding at the ends of ranges, per-plane defaults and unusual values (just below zero, NaN) are not sampled by tests.',
  [GF], [('sample mapping', GF + ': InvertOp, LimitOp, BinarizeOp, levelsGetframe, levelsCreate'), ('argument handling', GF + ': getPlanePixelRangeArgs, getPlaneFloatArgs')],
  [J('point', 'h_invert', '%s %s%s' % (PT[m], FN[f], ', variable format' if v else ''), covers=['unsupported' if f == 6 else 'pixels'], fmt=f, mask=m, var=v, planes=pl, w={5: 2, 15: 1}.get(f, 4)) for f, m, v, pl in ((0, 0, 0, 0), (10, 1, 0, 0), (9, 1, 1, 0), (1, 0, 0, 1), (12, 0, 0, 1), (12, 1, 0, 0), (5, 0, 0, 0), (6, 0, 1, 0), (15, 1, 1, 0))] +
  [J('point', 'h_point_args', '%s: eleven formats, three sizes and variable, planes argument' % PT[k], covers=['accepted', 'refused'], fn=k) for k in range(6)] +
  [J('point', 'h_point_values', '%s: every double, %s' % (('Limiter min', 'Limiter max', 'Binarize v0', 'Binarize threshold', 'BinarizeMask v1')[k], FN[f]), covers=['accepted'], arg=k, fmt=f) for k, f in ((0, 0), (1, 9), (1, 7), (0, 7), (3, 10), (4, 9), (2, 5), (2, 0), (0, 4))] +
  [J('point', 'h_limiter', 'Limiter %s, selected limits' % FN[f], covers=['pixels'], fmt=f, w=w, more=x) for f, w, x in ((0, 4, 1), (9, 4, 0), (1, 2, 0), (12, 1, 0), (5, 1, 0), (10, 2, 1))] +
  [J('point', 'h_binarize', '%s %s, selected values' % ('BinarizeMask' if m else 'Binarize', FN[f]), covers=['pixels'], fmt=f, w=w, more=x, mask=m) for f, w, x, m in ((0, 4, 1, 0), (1, 2, 0, 0), (12, 1, 0, 0), (12, 1, 0, 1), (5, 1, 0, 0), (10, 4, 0, 1))] +
  [J('point', 'h_levels', 'Levels %s, selected ranges, gamma %s' % (FN[f], (1, 2, .5, 1.7)[g]), covers=['pixels'], fmt=f, w=w, gamma=g, planes=pl, exact=1 if f in (5, 7) else 0, tier=t) for f, w, g, pl, t in ((0, 4, 0, 0, 'quick'), (0, 4, 3, 0, 'quick'), (10, 1, 1, 0, 'quick'), (1, 2, 2, 1, 'quick'), (7, 2, 0, 0, 'quick'), (5, 2, 0, 0, 'quick'), (9, 1, 3, 0, 'thorough'), (4, 1, 3, 1, 'thorough'))] +
  [J('point', 'h_levels_args', 'Levels %s: every double for %s' % (FN[f], 'min_in and max_in' if b else ('', '', 'min_out', 'max_out', 'gamma')[k]), covers=['accepted', 'refused'], fmt=f, arg=k, both=b) for f, k, b in ((0, 0, 1), (9, 0, 1), (7, 0, 1), (0, 4, 0), (10, 2, 0), (5, 3, 0))],
  outside='NaN samples in Limiter and Binarize; gamma other than 1 for float formats (a library function); rounding differences of 1e-5 of the range in Levels')
