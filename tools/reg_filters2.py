from registry import P, J
from reg_filters import FN, CPU, GF, KG
KX = 'src/core/kernel/x86/generic_impl.h'
SPN = ('Minimum', 'Maximum', 'Median', 'Deflate', 'Inflate', 'Prewitt', 'Sobel')
W = {0: (20, 20, 36, 70), 9: (12, 20, 20, 36), 10: (12, 20, 20, 36), 7: (6, 12, 20, 36), 5: (6, 6, 20, 36)}  # more than two vectors of the widest code


def sp(op, fmt, cpu, w=None, h=4, **kw):
    fl = fmt in (5, 7, 12, 3)
    if op >= 5 or fl or op == 2: kw.setdefault('lat', 2)
    if fl: kw.setdefault('exact', 1)
    if fmt == 5 and cpu < 2: kw.setdefault('spot', 1)
    d = {0: 'all samples arbitrary', 2: 'every sample one of four values'}[kw.get('lat', 0)]
    if kw.get('spot'): d = 'two samples of four values each'
    if kw.get('num'): d = 'all finite samples'; kw.pop('lat', None); kw.pop('exact', None)
    return J('spatial', 'h_gradient' if op >= 5 else 'h_spatial', '%s %s, %s, %s%s%s' % (SPN[op], FN[fmt], CPU[cpu], d, ', selected thresholds' if kw.get('th') else ', selected scales' if kw.get('sc') else '', ', selected coordinates' if kw.get('co') else ''),
             covers=['pixels'], op=op, fmt=fmt, cpu=cpu, w=w or W[fmt][cpu] if fmt in W else 8, h=h, **kw)


P('F09', 'Neighbourhood filters compute every sample from its 3x3 surroundings',
  'Minimum, Maximum, Median, Deflate, Inflate, Prewitt and Sobel output for every sample of the selected planes the documented function of its 3x3 neighbourhood, with rows and columns repeated at the edges, for every supported format and instruction set: the limited minimum or maximum of the selected neighbours, the exact median, the rounded mean of the eight neighbours if lower or higher, the nearest sample to scale * sqrt(gx^2 + gy^2). Other planes are passed on, nothing outside the planes is read or written, planes smaller than 4x4, unsupported formats and values out of range are refused.',
  ['inputs'], 'every sample of full planes for the integer minimum, maximum, deflate and inflate; four arbitrary values per sample for the others; every double as threshold or scale; every set of planes',
  'Each filter exists in scalar and three vector versions per sample type with separate code for edges and ends of rows; a wrong lane, edge or sign bit affects few samples of particular values and sizes.',
  [GF, KG, KX], [('scalar code', KG), ('vector code', KX), ('arguments', GF + ': genericCreate, checkPlaneDims')],
  [sp(op, f, c, **kw) for op in range(5) for f, c, kw in ((0, 0, {'w': 5}), (9, 0, {'w': 4}), (0, 1, {}), (0, 2, {}), (0, 3, {}), (9, 1, {}), (10, 2, {}), (9, 3, {}), (7, 0, {}), (7, 1, {}), (7, 2, {}), (7, 3, {}), (5, 0, {'w': 4}), (5, 2, {}), (5, 3, {}))] +
  [sp(op, f, c, th=1, **kw) for op in (0, 1, 3, 4) for f, c, kw in ((0, 0, {'w': 4}), (9, 1, {}), (0, 2, {}), (10, 3, {}), (7, 2, {}), (5, 3, {}))] +
  [sp(op, f, c, co=1, **kw) for op in (0, 1) for f, c, kw in ((0, 0, {'w': 4}), (9, 1, {}), (7, 2, {}), (0, 3, {}), (5, 2, {}))] +
  [sp(op, 1, 0, w=8, h=8, planes=1) for op in (0, 2, 6)] + [sp(0, 7, 0, w=4, num=1)] +
  [sp(op, f, c, sc=5, **kw) for op in (5, 6) for f, c, kw in ((0, 0, {'w': 4}), (9, 0, {'w': 4}), (0, 1, {}), (9, 1, {}), (0, 2, {}), (10, 2, {}), (0, 3, {}), (9, 3, {}), (7, 0, {'w': 4}), (7, 1, {}), (7, 2, {}), (7, 3, {}), (5, 0, {'w': 4}), (5, 2, {}), (5, 3, {}))] +
  [J('spatial', 'h_spatial_args', '%s: seven formats, five widths and heights, every set of planes' % SPN[k], covers=['accepted', 'refused'], op=k) for k in range(7)] +
  [J('spatial', 'h_spatial_args', '%s: any planes argument' % SPN[k], covers=['accepted', 'refused'], op=k, sym=1) for k in (0, 5)] +
  [J('spatial', 'h_spatial_values', '%s %s: every double%s' % (SPN[k], FN[f], ', up to ten coordinates' if k < 2 else ''), covers=['accepted', 'refused'], op=k, fmt=f) for k, f in ((0, 0), (1, 9), (3, 7), (4, 10), (5, 0), (6, 7), (0, 5))] +
  [J('spatial', 'h_spatial_var', '%s %s: clips of variable size' % (SPN[k], FN[f]), covers=['accepted', 'refused'], op=k, fmt=f) for k, f in ((5, 1), (1, 2), (2, 13))],
  outside='NaN and infinite samples; rounding differences of 1e-6 in the gradients; planes wider than 70 or higher than 8')


def cv(n, fmt, cpu, w, h, mode=0, **kw):
    N = int(n ** .5)
    if fmt == 5 and (mode or n > 9 or cpu < 2): kw.update(px=100, py=100, ox=min(4, w), oy=3)
    else: kw.setdefault('px', N if not mode else n if mode == 1 else 3); kw.setdefault('py', N if not mode else n if mode == 2 else 1)
    return J('conv', 'h_conv', '%s %s, %s, %dx%d' % (('%dx%d' % (N, N), 'horizontal %d' % n, 'vertical %d' % n)[mode], FN[fmt], CPU[cpu], w, h), covers=['pixels'], n=n, fmt=fmt, cpu=cpu, w=w, h=h, mode=mode, **kw)


def ss(n, fmt, cpu, w, h, **kw): return J('conv', 'h_sep', 'separable %d %s, %s, %dx%d' % (n, FN[fmt], CPU[cpu], w, h), covers=['pixels'], n=n, fmt=fmt, cpu=cpu, w=w, h=h, px=n, py=n, **kw)


CX = 'src/core/kernel/x86/convolution_impl.h'
P('F10', 'Convolution computes the weighted sum of every neighbourhood',
  'Convolution outputs for every sample of the selected planes sum(coefficient * sample) / divisor + bias over the square, horizontal or vertical window of any supported size, mirrored at the edges, rounded to the nearest integer for integer formats, made positive without saturate, and clamped to the format; hv and vh apply a vertical and then a horizontal pass. A divisor of 0 means the sum of the coefficients, or 1 if that is 0. All instruction sets agree, nothing outside the planes or buffers is read or written, and exactly the documented matrices, modes, values and plane sizes are accepted.',
  ['inputs'], 'an arbitrary sample at every position relative to the window (8 bit: all values, 10 to 16 bit: all values, float: 256 values), selected coefficients, biases and divisors, every double as a coefficient, bias or divisor in the argument checks',
  'There are separate kernels for each size, shape, sample type and instruction set with overflow bounds of their own; mistakes show at the edges, for extreme coefficients or for rows of particular lengths.',
  [GF, KG, CX, 'src/core/kernel/x86/square_impl.h'], [('scalar code', KG + ': conv_plane_square, conv_scanline_h, conv_scanline_v, conv_plane_x'), ('vector code', 'kernel/x86: square_impl.h, convolution_impl.h, generic_impl.h'), ('arguments', GF + ': genericCreate')],
  [cv(n, f, c, *wh, **kw) for n in (9, 25, 49, 81, 121) for f, c, wh, kw in ((0, 0, (12, 6), dict(cfg=4)), (9, 0, (6, 4), dict(kind=1, bg=2)), (7, 0, (6, 5), dict(cfg=2)), (0, 1, (20, 6), dict(cfg=4)), (0, 2, (36, 6), dict(cfg=4)), (0, 2, (37, 13), dict(kind=1, bg=3)), (9, 2, (19, 5), dict(kind=3, bg=2)), (7, 2, (20, 5), dict(cfg=2)), (0, 3, (70, 6), dict(cfg=2)), (0, 3, (33, 13), dict(kind=1, bg=3)), (9, 3, (36, 5), dict(kind=3, bg=2)), (7, 3, (36, 5), dict(cfg=2)), (10, 3, (36, 4), dict(kind=4)), (5, 2, (8, 5), dict()), (0, 2, (4, 4), dict(kind=2, cfg=3)), (0, 3, (4, 4), dict(kind=0)))] +
  [cv(9, f, c, w, h, **kw) for f, c, w, h, kw in ((9, 1, 12, 4, dict(kind=1, bg=2)), (7, 1, 12, 4, dict(cfg=2)), (5, 0, 4, 4, dict(cfg=2)), (5, 2, 8, 4, dict(cfg=3)), (5, 3, 20, 4, dict()), (0, 0, 8, 5, dict(kind=6, ox=3, oy=3)), (1, 0, 8, 8, dict(planes=1, kind=2)))] +
  [cv(n, f, c, *(wh if m == 1 else (wh[1], wh[0]) if wh[0] < 32 else (wh[0], max(n, 4))), mode=m, **kw) for m in (1, 2) for n in (3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25) for f, c, wh, kw in ((0, n // 2 % 4, (13, 4), dict(kind=1, bg=3)), (9, (n // 2 + 1) % 4, (27, 13), dict(kind=3)), (7, (n // 2 + 2) % 4, (30, 13), dict(cfg=2)), (0, 1 + n // 2 % 3, (68, 13), dict(cfg=3)))] +
  [cv(n, f, c, 14, 4, mode=1, **kw) for n, f, c, kw in ((9, 9, 2, dict(kind=1)), (25, 0, 1, dict(kind=0)), (25, 0, 2, dict(kind=0)), (25, 0, 3, dict(kind=0)), (25, 9, 1, dict(kind=1)), (25, 9, 2, dict(kind=1)), (25, 9, 3, dict(kind=1)), (5, 5, 0, dict()))] +
  [cv(n, 5, 0, 4, 13, mode=2) for n in (5, 25)] +
  [ss(n, f, c, w, 13, **kw) for n, f, c, w, kw in ((3, 0, 0, 13, dict(cfg=4)), (25, 0, 0, 13, dict(cfg=2)), (7, 9, 0, 13, {}), (5, 7, 0, 13, dict(cfg=3)), (7, 0, 1, 20, dict(cfg=4)), (25, 0, 1, 17, dict(cfg=2)), (9, 0, 2, 36, dict(cfg=4)), (25, 0, 2, 33, dict(cfg=2)), (25, 9, 2, 17, {}), (25, 7, 2, 13, {}), (11, 0, 3, 70, dict(cfg=4)), (25, 0, 3, 65, dict(cfg=2)), (25, 0, 3, 33, {}), (25, 9, 3, 33, {}), (25, 7, 3, 17, {}), (3, 0, 3, 33, {}), (15, 9, 3, 33, {}), (13, 7, 1, 13, {}))] +
  [J('conv', 'h_conv_args', 'sizes, modes and numbers of coefficients, %s' % FN[f], covers=['accepted', 'refused'], fmt=f) for f in (0, 1, 7)] +
  [J('conv', 'h_conv_values', 'every double as a coefficient, bias or divisor, %s' % FN[f], covers=['accepted', 'refused'], fmt=f, at=at) for f, at in ((0, 4), (7, 0), (9, 8))],
  outside='coefficients other than the selected ones (sizes up to +-1023); rounding differences of 3e-7 of the sum (integer) or 4e-6 of the sum of magnitudes (float); VNNI kernels (the model CPU reports none)')


def bb(fmt, w, h, cpu=0, **kw):
    kw.setdefault('px', 100); kw.setdefault('py', 100)
    return J('stats', 'h_blur', 'BoxBlur %s, %s, %dx%d, radius %d/%d, passes %d/%d' % (FN[fmt], CPU[cpu], w, h, kw.get('hr', 1), kw.get('vr', 1), kw.get('hp', 1), kw.get('vp', 1)), covers=['pixels'], fmt=fmt, cpu=cpu, w=w, h=h, **kw)


BB = 'src/core/boxblurfilter.cpp'
P('F11', 'BoxBlur computes the repeated mean of rows and then columns',
  'BoxBlur outputs for every sample of the selected planes the result of hpasses horizontal and then vpasses vertical passes, each replacing a sample by the mean of the 2 * radius + 1 samples around it, with rows and columns extended by their edge samples; for integer formats odd passes round up and even passes round down; other planes, properties and video info are kept. A radius or number of passes of 0 skips a direction. This holds for radii up to 30000, also beyond the size of the plane, and for planes of any size down to one sample. Negative values, larger radii, nothing to do, clips smaller than 4x4 and unsupported formats are refused.',
  ['inputs'], 'an arbitrary sample at every position (all values of 8 and 16 bit samples, 256 values of float samples) against fixed surroundings, selected radii up to 30000 and numbers of passes, every integer as an argument, every set of planes',
  'Running sums are updated in place with a ring buffer and a division by multiplication; there are separate paths for radius 1, for radii larger than half the row and for each sample type, and the vertical pass depends on Transpose.',
  [BB], [('blur', BB + ': blurH, blurHF, blurHR1, processPlane, makeFastDivU32'), ('planes and arguments', BB + ': boxBlurCreate')],
  [bb(0, 6, 6, px=3, py=3), bb(0, 9, 4, px=3, py=3, vr=0, hp=2), bb(0, 4, 9, px=4, py=4, hr=0, vr=2, vp=2), bb(0, 5, 5, hr=2, hp=3, vr=3, vp=2, ox=3, oy=2), bb(0, 5, 4, hr=5, vr=30000, hp=2, ox=5, oy=4), bb(0, 7, 5, hr=3, vr=1, vp=3, hp=1, ox=7, bg=3), bb(9, 5, 5, ox=4, hr=30000, vr=30000, bg=2), bb(9, 8, 4, hr=2, vr=0, ox=8), bb(9, 4, 5, hr=1, hp=2, ox=4), bb(9, 4, 7, hr=0, vr=7, vp=2, oy=7), bb(10, 9, 4, hr=4, hp=2, vr=0, ox=9),
   bb(7, 6, 6, ox=6), bb(7, 7, 5, hr=2, hp=2, ox=7, oy=2), bb(7, 5, 5, hr=9, vr=3, vp=2, ox=5), bb(5, 6, 6, ox=6, oy=3), bb(5, 6, 4, hr=2, hp=2, vr=0, ox=6), bb(5, 4, 6, hr=0, vr=5, vp=2, oy=6), bb(1, 8, 8, px=4, py=4, planes=1), bb(8, 8, 8, planes=1, hr=2), bb(3, 4, 4, planes=1), bb(0, 8, 8, planes=1), bb(2, 8, 4, planes=1, hp=2), bb(0, 20, 18, cpu=1, ox=2), bb(9, 20, 18, cpu=3, ox=2)] +
  [bb(0, n, 4, hr=r, hp=2, vr=0, ox=n, bg=2) for n, r in ((4, 1), (4, 2), (4, 3), (4, 4), (5, 1), (5, 2), (5, 4), (6, 3), (11, 5), (12, 6), (13, 1))] +
  [bb(9, 4, 4, hr=r, hp=1, vr=0, ox=4, bg=3) for r in (1, 2, 3, 5, 6, 7, 10, 13, 31, 127, 511, 1000, 4095, 16383, 29999)] +
  [J('stats', 'h_blur_args', 'eleven formats, four widths and heights, every integer as radius and number of passes', covers=['accepted', 'refused'])] +
  [J('stats', 'h_blur_planes', 'every planes argument, %s' % FN[f], covers=['accepted', 'refused'], fmt=f) for f in (0, 1)],
  outside='more than one or a few arbitrary samples at a time; rounding differences of 1e-3 (single) or 1/16 (half precision) per pass; planes larger than 20 samples')


def av(n, fmt, time_=False, **kw):
    kw.setdefault('px', 100); kw.setdefault('py', 100)
    return J('stats', 'h_average_time' if time_ else 'h_average', '%d %s, %s' % (n, 'frames' if time_ else 'clips', FN[fmt]), covers=['pixels'], n=n, fmt=fmt, **kw)


AF = 'src/core/averageframesfilter.cpp'
P('F12', 'AverageFrames computes the weighted mean of clips or neighbouring frames',
  'With several clips AverageFrames outputs, for every sample of the selected planes, the sum of weight * sample over all clips divided by scale; with one clip over the frames around the current one, where frames before the first and after the last are the first and last. Weights and scale are rounded to integers for integer formats, chroma is averaged around its middle value, results are rounded to the nearest integer and clamped. Without scale the sum of the weights is used, or 1 if that is smaller than 1 (integer) or not positive (float). With scenechange the weights of frames beyond a scene change are given to the current frame. Properties and other planes come from the first clip or the current frame, clips are extended to the longest by their last frame, and exactly valid numbers of weights, weights, scales and clips are accepted.',
  ['inputs'], 'arbitrary samples in every clip (all values in one of them, at least 16 levels in the others), selected weights up to +-1023, 1 to 31 clips or frames, every position of scene changes, every double as a weight or scale',
  'There is a separate kernel for each number of inputs and sample type; overflow, rounding, frame clamping and the scene change rules only show for particular weights and frames.',
  [AF], [('kernels', AF + ': average_int_n, average_float_n, average_half_n'), ('frames and scene changes', AF + ': averageFramesGetFrame'), ('arguments', AF + ': averageFramesCreate; filtershared.h: floatToIntS')],
  [av(n, f, **kw) for n, f, kw in ((1, 0, {}), (2, 0, dict(sc=6)), (3, 0, dict(bg=3)), (3, 9, dict(sb=4, sc=6)), (3, 9, dict(sb=4, kind=1, bg=2)), (3, 9, dict(sb=4, kind=4)), (2, 16, dict(planes=1, sc=3)), (2, 17, dict(planes=1, sb=1)), (2, 4, dict(sb=3)), (3, 1, dict(sb=4, w=4, h=4)), (3, 7, dict(sc=6)), (2, 7, dict(kind=4)), (3, 5, dict(sb=3)), (31, 0, dict(kind=3, sb=1, every=3)), (31, 9, dict(kind=3, sb=1, every=4, w=2, h=1)), (31, 9, dict(kind=1, sb=1, every=4, w=2, h=1, bg=2)), (31, 7, dict(sb=1, every=3)), (31, 5, dict(sb=1, every=8)), (2, 3, dict(planes=1)))] +
  [av(n, f, sb=1, every=n // 8 + 1) for n in range(4, 31) for f in ((0, 9, 7, 5)[n % 4], (7, 0, 5, 9)[n % 4])] +
  [av(n, f, True, sb=sb, **kw) for n, f, sb, kw in ((1, 0, 0, dict(scene=1)), (3, 0, 6, dict(scene=1, marks=1)), (3, 9, 6, dict(marks=1)), (5, 0, 4, dict(scene=1, len=5)), (5, 9, 4, dict(scene=1, kind=4)), (5, 7, 4, dict(scene=1, len=6)), (7, 7, 3, dict(scene=1, kind=1, len=3)), (5, 5, 2, dict(scene=1)), (7, 1, 3, dict(len=9, w=4, h=4)), (31, 0, 1, dict(scene=1, len=6)), (3, 16, 4, dict(len=1, kind=4)))] +
  [J('stats', 'h_average_values', 'every double as weight and scale, %s' % FN[f], covers=['accepted', 'refused'], fmt=f) for f in (0, 9, 7, 5)] +
  [J('stats', 'h_average_args', 'numbers of clips and weights around the limits, eleven formats, differing clips', covers=['accepted', 'refused'])],
  outside='weights other than the selected ones; rounding differences of 3e-7 of the result (integer) or of the sum of magnitudes (float; half precision: 1e-3); frames around 2^31')


def st(fmt, cpu, w, h=2, **kw): return J('stats', 'h_stats', 'PlaneStats %s, %s, %dx%d%s' % (FN[fmt], CPU[cpu], w, h, ', two clips' if kw.get('two') else ''), covers=['pixels'], fmt=fmt, cpu=cpu, w=w, h=h, **kw)


SF = 'src/core/simplefilters.cpp'
P('F13', 'PlaneStats reports the exact statistics of a plane',
  'PlaneStats attaches to every frame, which otherwise stays the same, the exact minimum and maximum of the selected plane and its mean, normalised by the largest value for integer formats; with a second clip also the normalised mean absolute difference, the second clip being extended by its last frame; under the given prefix or PlaneStats. No sample outside the visible plane contributes, sums do not overflow, and all instruction sets agree. A missing plane, unsupported formats and a second clip of another format or of variable size are refused.',
  ['inputs'], 'an arbitrary sample at any position and one at the end of the plane, all values for 8 and 16 bit samples, against fixed surroundings; widths around one and two vectors and rows of 280000 and 560000 samples',
  'The vector versions keep several accumulators, mask the end of each row and widen intermediate sums; a mistake in these shows only for particular widths, positions and values.',
  [SF, 'src/core/kernel/planestats.cpp', 'src/core/kernel/x86/planestats_avx2.cpp', 'src/core/kernel/x86/planestats_sse2.cpp'], [('kernels', 'kernel/planestats.cpp, kernel/x86/planestats_*.cpp'), ('properties and arguments', SF + ': planeStatsGetFrame, planeStatsCreate')],
  [st(f, c, w, two=two, **kw) for two in (0, 1) for f, c, w, kw in ((0, 0, 5, {}), (9, 0, 4, dict(bg=2)), (7, 0, 5, {}), (5, 0, 3, dict(sp=0)), (0, 1, 20, {}), (0, 1, 16, {}), (9, 1, 11, dict(bg=2, h=1)), (10, 1, 8, dict(bg=2, h=1)), (7, 1, 7, {}), (0, 2, 36, {}), (0, 2, 33, {}), (0, 2, 64, dict(h=1)), (9, 2, 19, dict(bg=2, h=1)), (10, 2, 16, dict(bg=2, h=1)), (7, 2, 12, {}), (7, 2, 9, {}), (5, 2, 12, {}), (5, 2, 17, {}), (0, 3, 36, {}))] +
  [st(f, c, 280000 * c, h=1, pos=2, sp=0, two=two, mem=6000) for f, c, two in ((9, 1, 0), (9, 1, 1), (9, 2, 0), (9, 2, 1))] + [st(f, 0, 8, h=8, plane=p, prop=1, two=two) for f, p, two in ((1, 2, 0), (1, 1, 1), (11, 2, 0), (3, 1, 1))] +
  [J('stats', 'h_stats_args', 'eleven formats and three sizes for each clip, every integer as plane', covers=['accepted', 'refused'])],
  outside='NaN and infinite samples; relative differences of 1e-12 in the mean and difference')
