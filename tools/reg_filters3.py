from registry import P, J
from reg_filters import FN, CPU
SF = 'src/core/simplefilters.cpp'


def X(entry, bounds, covers=(), harness='props', **kw): return J(harness, entry, bounds, covers=list(covers), **kw)


P('F14', 'Property filters change exactly the named frame properties',
  'SetFrameProp and SetFrameProps replace exactly the named properties by the given values and types; RemoveFrameProps deletes exactly the properties whose name matches a pattern (* and ? are wildcards, everything else literal) or all; SetFieldBased sets _FieldBased and removes _Field; CopyFrameProps makes the named properties, or all, equal to those of the same frame of the other clip (removing those it lacks), the shorter source extended by its last frame; ClipToProp attaches the frame of the mask clip, PropToClip outputs it and fails for frames of another format or size. All other properties, the picture and the clip information stay the same and the input frames are not modified.',
  ['inputs', 'histories'], 'properties of every type with arbitrary values, every combination of the named keys and value types, patterns of up to three arbitrary characters or two patterns, every frame number',
  'Names that happen to be patterns, properties of each type, missing keys and shared maps interact; tests check a few names and integer values.',
  [SF], [('filters', SF + ': setFrameProp*, setFrameProps*, removeFrameProps*, globToRegex, setFieldBased*, copyFrameProps*, clipToProp*, propToClip*'), ('maps', 'src/core/vsapi.cpp: map functions; vscore.h: VSMap')],
  [X('h_setprop', 'SetFrameProp: seven keys, up to three arbitrary values of each type', ['set', 'refused']), X('h_setprops', 'SetFrameProps: every set of five keys, arbitrary values', ['set'])] +
  [X('h_removeprops', 'RemoveFrameProps: up to two patterns over letters, wildcards and dots, %d characters' % l, ['removed'], len=l) for l in (1, 2, 3)] +
  [X('h_removeprops', 'RemoveFrameProps: patterns of %d arbitrary characters' % l, ['removed'], len=l, any=1, tier=t, time=m) for l, t, m in ((2, 'quick', 120), (3, 'thorough', 800))] +
  [X('h_fieldbased', 'SetFieldBased: every integer', ['set', 'refused']), X('h_copyprops', 'CopyFrameProps: up to two of eight properties', ['all', 'some']), X('h_cliptoprop', 'ClipToProp: sizes and lengths of both clips', ['set', 'refused']), X('h_proptoclip', 'PropToClip: four frames, every kind of unsuitable frame, indexes -1 to 2', ['good', 'bad', 'refused'])],
  outside='Patterns of four or more characters; names with non-ASCII characters in patterns')

P('F15', 'AssumeFPS and BlankClip make clips of exactly the described kind',
  'AssumeFPS changes only the frame rate, given as numbers or by another clip, reduced to lowest terms, and sets the duration properties of every frame to its inverse; rates that are not positive are refused. BlankClip makes frames of the size, format, rate, length and color asked for, with the defaults of the given clip (640x480 RGB24 at 24 fps for ten seconds without one), black by default, with keep always the same frame and otherwise a new one; varsize and varformat only change the clip information. Sizes, rates, lengths, formats and colors that are not representable are refused.',
  ['inputs'], 'selected rates up to 2^63-1, every integer that is no valid rate, every integer as format, colors of all integer values up to 5*10^9, every combination of selected sizes, formats, lengths and flags',
  'The arguments interact (clip, format, subsampling, rate, length) and overflow for extreme rates and colors.',
  [SF], [('filters', SF + ': assumeFPS*, blankClip*'), ('rational arithmetic', 'include/VSHelper4.h'), ('colors', 'src/core/filtershared.h, ' + SF + ': setBlack')],
  [X('h_assumefps', 'AssumeFPS: thirteen numerators and denominators, a source clip', ['set', 'refused']), X('h_assumefps_any', 'AssumeFPS: every pair of integers that is no rate', ['refused'])] +
  [X('h_blank', 'BlankClip: sizes, formats%s and flags, with and without a clip of format %s' % (', lengths' if l else '', FN[c]), ['made', 'refused'], cf=c, lens=l) for c, l in ((1, 1), (0, 0), (3, 0))] +
  [X('h_blank_fps', 'BlankClip: thirteen numerators and denominators, with and without clip and length', ['made', 'refused'])] + [X('h_blank_color', 'BlankClip: colors %s' % FN[f], ['made', 'refused'], fmt=f) for f in (0, 9, 11, 5, 3, 6)] +
  [X('h_blank_format', 'BlankClip: every integer as format', ['made', 'refused'])],
  outside='rates other than the selected ones (AssumeFPS refuses every other than positive ones)')

P('F21', 'FrameEval and ModifyFrame output exactly what the script function returns',
  'ModifyFrame and FrameEval call the given function once per frame with the frame number and the frames of all given clips in order, output the frame it returns or the same frame number of the clip it returns, hold references only as long as needed, and report an error for that frame only when the function fails, returns something else, or the frame does not fit the promised format and size, where these are constant.',
  ['inputs', 'histories'], 'every kind of returned value, clip and number of source clips, every frame number, two consecutive frames',
  'The unusual outcomes of the script function (errors, audio, other formats, shorter clips) and what they leave behind for the next frame are rarely exercised.',
  [SF], [('filters', SF + ': frameEvalGetFrameWithProps, frameEvalGetFrameNoProps, modifyFrameGetFrame and their create functions')],
  [X('h_modify', 'ModifyFrame: three kinds of clip, one to three clips, nine outcomes', ['good', 'bad']), X('h_eval', 'FrameEval: three kinds of clip, none to two property clips, eight outcomes', ['good', 'bad']), X('h_eval_upstream', 'FrameEval: the returned clip fails', ['failed'])])

P('F22', 'PEMVerifier passes exactly the frames within the bounds',
  'PEMVerifier outputs the unchanged frame if every sample of every plane is within the bounds of its plane (default: the full range; floating point additionally finite) and otherwise fails naming the first sample outside in plane, row and column order. Exactly one bound per plane, representable and ordered, is accepted.',
  ['inputs'], 'frames of arbitrary samples (8 and 16 bit; floating point of up to 4 samples, infinities and NaN included) or all levels of a lattice that contains values outside; all combinations of selected bounds',
  'A verifier that misses a position, plane or value goes unnoticed, and tests only plant a few bad samples.',
  [SF], [('filter', SF + ': pemVerifier*')],
  [X('h_pem', 'PEMVerifier %s%s' % (FN[f], ', levels' if kw.get('lat') else ', arbitrary samples'), ['good', 'bad'], fmt=f, **kw) for f, kw in ((0, {}), (9, {}), (1, dict(lat=1)), (7, dict(lat=1)), (5, dict(lat=1, w=2)), (3, dict(lat=1, w=2)), (12, dict(lat=1, w=2, h=1)), (7, dict(w=2, h=2)), (5, dict(w=2, h=2)), (12, dict(w=1, h=1)), (3, dict(w=1, h=1)))] + [X('h_pem_args', 'eleven formats, numbers and values of bounds', ['accepted', 'refused'])],
  outside='planes of more than 8 samples')

EX = 'src/core/exprfilter.cpp'
SETS = ('x y 0 1 2 -1 + - * /', 'x y 2 + - * / 0.5', 'x y 1 < = >= and not max min ? abs', 'x y 2 0.5 * / pow sqrt', 'x y 3 + - * swap dup swap2 dup1', 'x 0.0625 * exp log sin cos +', 'x y > ? and or xor - 100', 'x y * + - abs 2', 'x y 3 * / -', 'x y 200 <= > not ? min - 0', 'x 2 0.5 pow sqrt * / abs -1 3')


def ex(s, l, f=0, o=None, f2=None, **kw): o = f if o is None else o; f2 = f if f2 is None else f2; return X('h_expr', 'every expression of %d tokens of "%s"%s, every sample of x and 16 of y, %s and %s to %s' % (l, SETS[s], ' (part %d of 4)' % kw['first'] if 'first' in kw else '', FN[f], FN[f2], FN[o]), ['value'], harness='expr', cpu=0, set=s, len=l, fmt=f, fmt2=f2, out=o, **kw)


P('F16', 'Expr computes the written expression',
  'Expr evaluates the postfix expression of every plane for every sample of its clips (x y z a b ... in order, a shorter clip extended by its last frame) in single precision and stores it rounded and clamped in the output format; optimisation never changes the value beyond rounding error. An empty expression copies the plane if the format stays the same; the last expression is used for the remaining planes. Properties, length and rate come from the first clip. Only well-formed expressions, clips of the same size and layout with up to 16 bit or floating point samples, and suitable formats are accepted.',
  ['inputs'], 'every well-formed expression up to the stated number of tokens of eleven vocabularies, 41 longer expressions, all 256 values of x (65536-range steps for 16 bit, 1/16 steps for floating point) and 16 of y',
  'The optimiser rewrites sums, products, powers, comparisons and ternaries with dozens of interacting rules; tests evaluate a few dozen expressions on flat clips.',
  [EX, 'src/core/expr/expr.cpp', 'src/core/expr/expr.h'], [('filter', EX + ': exprCreate, exprGetFrame, ExprInterpreter::eval'), ('compiler', 'src/core/expr/expr.cpp: tokenize, decodeToken, parseExpr, every optimisation pass, compile')],
  [X('h_text', '41 expressions, %s and %s to %s' % (FN[a], FN[b], FN[c]), ['value'], harness='expr', cpu=0, fmt=a, fmt2=b, out=c) for a, b, c in ((0, 0, 0), (7, 7, 7), (9, 9, 9), (0, 7, 9), (5, 0, 5))] +
  [ex(s, 3) for s in (0, 2)] + [ex(s, 5) for s in (0, 1, 2, 3, 10)] + [ex(s, 6) for s in (3, 4, 5, 6)] + [ex(8, 7, tier='thorough', time=600), ex(9, 6, tier='thorough', time=600), ex(7, 7, tier='thorough', time=600)] + [ex(6, 7, tier='thorough', time=800, first=i) for i in range(4)] +
  [ex(0, 5, 7, tier='thorough'), ex(3, 5, 9, f2=0), ex(4, 5, 5)] +
  [X('h_expr_planes', 'one to three expressions, %s to %s' % (FN[a], FN[b]), ['processed'], harness='expr', cpu=0, fmt=a, out=b, **kw) for a, b, kw in ((1, 1, {}), (17, 16, dict(w=1, h=1)), (12, 12, dict(w=1, h=1)))] +
  [X('h_expr_letters', 'every letter, 1 to 26 clips', ['read', 'refused'], harness='expr', cpu=0), X('h_expr_args', 'twelve second clips, none to four expressions, every integer as format, 40 expressions', ['accepted', 'refused'], harness='expr', cpu=0, fmt=1)],
  outside='Expressions with undefined or overflowing values, comparisons within rounding error, longer expressions, other literals; the code the just-in-time compiler emits (the compiler runs symbolically up to emission, but machine code made at run time is outside the encoded program), so the checked evaluation is the one for CPUs without vector extensions')

AF = 'src/core/audiofilters.cpp'
AN = ('16 bit', '24 bit in 32', 'float')


def au(entry, bounds, covers, fs=4, **kw): return X(entry, bounds + ', frames of %d samples' % fs, covers, harness='audio@%d' % fs, **kw)


P('F17', 'Audio filters put exactly the right samples into every output frame',
  'AudioTrim, AudioSplice, AudioLoop and AudioReverse output, across all frame boundaries, exactly the selected, concatenated, repeated or reversed samples; AssumeSampleRate only changes the rate; ShuffleChannels and SplitChannels output the chosen channels, a shorter clip followed by silence; AudioGain and AudioMix output the (weighted sums of the) samples rounded to the nearest value of the format and limited to its range, and report a sample that does not fit by an error if asked for and otherwise by one warning per filter; BlankAudio outputs silence or the given waveform. Every frame has the promised format and length. Lengths, ranges, rates, channels and weights that are impossible or would give more samples than a clip can have are refused.',
  ['inputs'], 'clips of up to 2^qb frames plus every remainder, arbitrary cut positions, counts and frame numbers; every combination of selected channel layouts, assignments and weights; samples of 8 to 16 arbitrary bits',
  'Offsets in samples and in frames are mixed across frame boundaries in every filter; tests use a few lengths, and errors appear only for particular remainders.',
  [AF], [('filters', AF + ': every *GetFrame* and *Create function'), ('audio core', 'src/core/vscore.cpp: VSNode (audio), VSFrame (audio)')],
  [au('h_trim', 'AudioTrim: %s, up to 2^%d frames' % (w, qb), cv, mode=m, qb=qb, **kw) for m, w, qb, cv, kw in ((0, 'no range', 31, ['whole'], {}), (1, 'first', 4, ['trimmed', 'refused', 'whole'], {}), (2, 'last', 4, ['trimmed', 'refused', 'whole'], {}), (3, 'first, last', 4, ['trimmed', 'refused', 'whole'], dict(len=1)), (4, 'length', 4, ['trimmed', 'refused', 'whole'], {}), (5, 'first, length', 4, ['trimmed', 'refused', 'whole'], dict(len=3)),
    (1, 'first', 8, ['trimmed'], dict(tier='thorough', time=600)), (2, 'last', 12, ['trimmed'], dict(tier='thorough', time=600)), (3, 'first, last', 4, ['trimmed'], dict(tier='thorough', time=600)), (4, 'length', 12, ['trimmed'], dict(tier='thorough', time=600)), (5, 'first, length', 4, ['trimmed'], dict(tier='thorough', time=600)))] +
  [au('h_trim', 'AudioTrim: first, length, %s samples' % AN[f], ['trimmed', 'refused', 'whole'], mode=5, qb=3, len=3, af=f) for f in (1, 2)] +
  [au('h_trim', 'AudioTrim: first, length, up to 2^3 frames', ['trimmed', 'refused', 'whole'], fs=8, mode=5, qb=3, len=3)] + [au('h_trim_any', 'AudioTrim: every integer as first, last and length', ['accepted', 'refused'])] +
  [au('h_splice', 'AudioSplice: two clips of six lengths', ['spliced'], clips=2), au('h_splice', 'AudioSplice: four clips of 1, 3 or 6 samples', ['spliced'], clips=4), au('h_splice', 'AudioSplice: five clips of 1, 3 or 6 samples', ['spliced'], clips=5, tier='thorough', time=500), au('h_splice', 'AudioSplice: three clips of six lengths, the first repeated', ['spliced'], clips=3, repeat=1, tier='thorough', time=500), au('h_splice', 'AudioSplice: two clips of up to 2^3 frames', ['spliced'], clips=2, big=1, qb=3, weight=300), au('h_splice', 'AudioSplice: two clips of up to 2^12 frames', ['spliced'], clips=2, big=1, qb=12, tier='thorough', time=900),
   au('h_splice', 'AudioSplice: one clip', [], clips=1), au('h_loop', 'AudioLoop: nine lengths, five numbers of repetitions, endless: the first 4 and last 2 frames', ['looped'], nmax=4, weight=300), au('h_loop_args', 'AudioLoop: seven lengths, every integer as number of repetitions', ['accepted', 'refused']), au('h_reverse', 'AudioReverse: up to 2^4 frames', ['reversed'], fs=8, qb=4), au('h_reverse', 'AudioReverse: up to 2^31 frames', ['reversed'], af=1), au('h_rate', 'AssumeSampleRate: every integer', ['set', 'refused'])] +
  [au('h_shuffle', 'ShuffleChannels: one or two clips, up to two channels, four layouts, nine input and six output channels', ['shuffled', 'refused'], weight=400), au('h_shuffle', 'ShuffleChannels: up to three channels', ['shuffled'], nch=3, af=1, tier='thorough', time=900), au('h_split', 'SplitChannels: five layouts', ['split'])] +
  [au('h_gain', 'AudioGain: ten gains, %s, samples of %d arbitrary bits' % (AN[f], b), ['scaled', 'refused'] + ([] if f == 2 else ['error']), af=f, sb=b, **kw) for f, b, kw in ((0, 8, {}), (1, 8, {}), (1, 8, dict(low=1)), (2, 8, {}), (0, 10, dict(weight=300)), (1, 12, dict(low=1, tier='thorough', time=600)), (0, 16, dict(tier='thorough', time=900)))] +
  [au('h_mix', 'AudioMix: up to three input and two output channels, %s, samples of %d arbitrary bits' % (AN[f], b), ['mixed', 'refused'] + (['error'] if f == 0 else []), af=f, sb=b, weights=1, **kw) for f, b, kw in ((0, 5, {}), (1, 5, dict(low=1)), (2, 6, {}), (0, 8, dict(tier='thorough', time=900)), (1, 8, dict(tier='thorough', time=900)))] + [au('h_mix_args', 'AudioMix: eight kinds of second clip, weights and channels', ['accepted', 'refused'])] +
  [au('h_blank_audio', 'BlankAudio: every format, number of bits and channel, with and without clip, selected rate and length', ['made', 'refused'], rl=0)] + [au('h_blank_audio', 'BlankAudio: every %s' % w, ['made', 'refused'], rl=r, fk=0, ck=0) for r, w in ((1, 'sample rate'), (2, 'length'), (3, 'sample rate and length'))] + [au('h_wave', 'BlankAudio: five waveforms, frequencies and four amplitudes, %s' % AN[f], ['made', 'refused'], af=f) for f in (0, 1, 2)],
  outside='Frames of 3072 samples (VS_AUDIO_FRAME_SAMPLES is set to 4 or 8 for the encoding; the filters are written in terms of the constant), gains, weights and frequencies other than the selected ones; NaN samples')

AR = 'src/core/audioresampling.cpp'
RN = ('16 bit', '24 bit', 'float', '32 bit', '20 bit')
RT = ('1:2', '2:1', '3:2', '2:3', '8:5', '1:7', '48000:44100', '44100:48000')


def rs(entry, bounds, covers, **kw): return X(entry, bounds + ', frames of 4 samples', covers, harness='resample@4', **kw)


P('F18', 'AudioResample converts format, layout and rate exactly as documented',
  'Pure format conversion yields, for every sample, the nearest value of the output format (left aligned, limited to its range); dither is applied only where precision is lost, depends only on position and channel, never moves a value by more than its half width plus rounding, and is unbiased. Layout changes pass existing channels through and fold the others by the documented rules, scaled as a whole if normalized, with digital silence in channels nothing feeds. Rate changes yield the band limited signal at exactly the time of each output sample, with unit gain, silence around the clip and the scaled length rounded up. Every frame is the same no matter what was requested before; samples that do not fit cause the requested error or one warning; impossible rates, formats, channels and options are refused and a conversion to the same returns the clip itself.',
  ['inputs', 'histories'], 'all 65536 values of a sample (stereo: 8 to 12 bits of each) for every pair of sample formats; all pairs of sixteen channel layouts with 2 to 3 arbitrary bits per channel; eight rate ratios, clips of 1 to 301 samples and of maximal length, frames at both ends and in the middle, two pulses of arbitrary level around the output position; every length for six ratios; every integer as argument',
  'Positions, phases, channels and layouts interact (frame borders against filter windows, alternatives against each other); tests cannot enumerate layouts, ratios and frame numbers.',
  [AR], [('filter', AR + ': convertPlane, ditherValue, selectConvertFunc, needsDither, buildResampleBank, buildMixMatrix, planOutputStage, reportClipping, audioResampleGetFrame, audioResampleGetFrameFloat, parseAudioResampleArgs, audioResampleCreate')],
  [rs('h_rs_convert', '%s to %s, one arbitrary sample%s' % (RN[a], RN[b], ' (low bits)' if kw.get('low') else ''), ['converted'] + (['error'] if a == 2 else []), af=a, to=b, lay=1, **kw) for a, b, kw in ((0, 1, {}), (0, 2, {}), (0, 3, {}), (1, 0, {}), (1, 0, dict(low=1)), (1, 2, {}), (1, 3, {}), (1, 4, dict(low=1)), (2, 0, {}), (2, 1, {}), (2, 3, {}), (3, 0, {}), (3, 2, {}), (4, 0, dict(low=1)))] +
  [rs('h_rs_convert', '%s to %s, two samples of 12 arbitrary bits' % (RN[a], RN[b]), ['converted'], af=a, to=b, sb=12, **kw) for a, b, kw in ((0, 2, {}), (1, 0, dict(low=1)), (2, 0, {}))] + [rs('h_rs_convert', '%s to %s, eight samples' % (RN[a], RN[b]), ['converted'], af=a, to=b, sb=2, l=4) for a, b in ((0, 1), (1, 0), (2, 4), (0, 0))] +
  [rs('h_rs_dither', 'dither: %s to %s, eight samples, frame before' % (RN[a], RN[b]), ['dithered'], af=a, to=b, sb=2, **kw) for a, b, kw in ((2, 0, {}), (1, 0, dict(low=1)), (2, 4, {}), (3, 1, dict(low=1)))] + [rs('h_rs_dither', 'dither: float to 16 bit, eight samples of 3 bits', ['dithered'], af=2, to=0, sb=3, tier='thorough', time=600), rs('h_rs_noise', 'dither: mean, variance and correlations over 1024 samples, four levels', ['noise'])] +
  [rs('h_rs_mix', 'layouts: all pairs, float, 2 bits per channel', ['mixed', 'silent'], sb=2), rs('h_rs_mix', 'layouts: all pairs, float, 3 bits per channel', ['mixed', 'silent'], sb=3, tier='thorough', time=600)] +
  [rs('h_rs_mix', 'layouts: from %s, %s to %s%s' % (w, RN[a], RN[b], ', overflow_error' if kw.get('oe') else ''), ['mixed', 'silent'] + (['error'] if kw.get('oe') else []), af=a, to=b, sb=3, **{'in': i}, **kw) for i, w, a, b, kw in ((3, '5.1', 0, 0, {}), (2, '5.1 (side)', 1, 0, {}), (1, 'stereo', 2, 1, {}), (7, 'quad', 0, 0, dict(oe=1)))] +
  [rs('h_rs_mix', 'layouts: from 7.1, 16 bit, overflow_error', ['mixed', 'error'], af=0, to=0, sb=3, oe=1, tier='thorough', time=800, **{'in': 4})] +
  [rs('h_rs_rate', 'rate %s%s%s' % (RT[r], ', to mono' if kw.get('mono') else '', ', 16 bit' if kw.get('int') else ''), ['resampled'], ratio=r, **kw) for r, kw in [(i, {}) for i in range(8)] + [(4, dict(mono=1)), (2, {'int': 1}), (5, {'int': 1, 'mono': 1})]] +
  [rs('h_rs_dc', 'a constant, rate %s' % RT[r], ['constant'], ratio=r) for r in (0, 3, 5, 6)] + [rs('h_rs_length', 'rate %s: every length%s' % (RT[r], ' below 2^%d' % kw['qb'] if 'qb' in kw else ''), cv, ratio=r, **kw) for r, cv, kw in ((0, ['made', 'refused'], {}), (1, ['made'], {}), (2, ['made'], {}), (3, ['made', 'refused'], {}), (4, ['made'], dict(qb=16)), (5, ['made', 'refused'], {}), (6, ['made'], dict(qb=10)))] +
  [rs('h_rs_args', 'every integer as argument, %s' % RN[a], ['accepted', 'refused'], af=a) for a in (0, 1, 2)],
  outside='other ratios and longer clips away from the selected frames; NaN samples; decisions exactly at the limit of the range when mixing; the noise statistics are evaluated for one sequence')

TX = 'src/core/textfilter.cpp'


def tx(entry, bounds, covers, **kw): return X(entry, bounds, covers, harness='text', **kw)


P('F20', 'Text filters draw exactly the described text, inside the frame',
  'Text draws its text with the built-in font in white on black with neutral chroma, scaled, wrapped at the margins, aligned by the numpad position, without the lines that do not fit, unprintable characters as underscores, and changes no other sample, no property and nothing outside the frame. A frame in which not even one letter fits causes an error. FrameNum prints the frame number, FrameProps the named or all properties, ClipInfo the description of the clip and frame. Only valid alignments, scales and formats are accepted.',
  ['inputs'], 'nine texts and every text of one or two characters with an arbitrary one, twelve frame sizes, every alignment, scales 1 and 2; frames with all samples arbitrary; every property value with a name; every integer as argument',
  'Wrapping, alignment, scale, subsampling and frame size interact; a letter outside the frame overwrites memory without a visible effect.',
  [TX], [('filters', TX + ': scrawl_text, scrawl_character_*, split_text, sanitise_text, append_prop, textGetFrame, textCreate'), ('font', 'src/core/ter-116n.h')],
  [tx('h_text', '%s, nine texts, four widths, three heights' % FN[f], ['letters', 'small'], fmt=f, time=200, weight=150, **kw) for f, kw in ((0, {}), (1, dict(sizes=2)))] + [tx('h_text', '%s, nine texts, two widths, two heights' % FN[f], ['letters', 'small'], fmt=f, time=200, sizes=2, heights=2) for f in (3, 4, 5, 12, 8, 15, 13)] + [tx('h_text', '%s, nine texts, all samples arbitrary' % FN[f], ['letters'], fmt=f, sym=1, sizes=1, heights=1, scales=1, al=a) for f in (1, 11, 7) for a in (5, 7)] +
  [tx('h_text', '%s, every text of %d character%s' % (FN[f], k, 's' if k > 1 else ''), ['letters'], fmt=f, any=k, al=al, scales=1, heights=1, sizes=2) for f, k, al in ((0, 1, 7), (2, 1, 5), (0, 2, 3))] +
  [tx('h_text_args', 'five filters, eleven formats, every integer as alignment and scale', ['accepted', 'refused'])] + [tx('h_info', '%s, %s' % (w, FN[f]), ['described'], what=k, fmt=f) for k, w, f in ((0, 'FrameNum: six numbers', 0), (1, 'ClipInfo: every named property value', 0), (1, 'ClipInfo: every named property value', 1), (2, 'FrameProps: properties of four types', 0))],
  outside='CoreInfo (its text depends on the process); longer texts, larger scales; partly covered chroma samples')


def vp(entry, bounds, tier='quick', time=60, small=0, **kw):
    return J('pipe@%d' % small if small else 'pipe', entry, bounds, time, tier, **kw)


PF = ['Gray8', 'YUV420P8', 'RGB24', 'Gray16', 'YUV444PS', 'YUV422P10', 'RGBS', 'YUV411P8', 'YUV410P8', 'YUV440P8', 'GrayS', 'YUV444PH', 'YUV420P16']
P('V01', 'vspipe writes every selected frame once, in order, and reports every failure',
  'vspipe runs the script with the given arguments and writes the samples of every frame from --start to --end exactly once, in order and without padding, planes as Y U V or G B R, an alpha frame after its frame, audio interleaved in little endian with 24 bits packed, whatever order the frames arrive in and however many are requested at once; y4m, wav and w64 headers describe the clip and are refused when they cannot. Timecodes are the start times of the frames, the JSON file is valid JSON with the properties of every frame. A failing frame, write, duration, option or range is reported with a message and a nonzero exit code, and only whole frames before it are written; numbers out of range are refused; everything is released.',
  ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'clips of arbitrary samples, every range, option and request count within the sizes, every schedule within the preemption bound, every failing frame and write; every command line number and property text of the stated lengths', 'Out of order completion, failures and property contents combine in too many ways; tests run vspipe on a few scripts.',
  ['src/vspipe/vspipe.cpp', 'src/vspipe/vsjson.cpp', 'src/common/wave.cpp'],
  [('frameDoneCallback reorders frames and requests the next', 'src/vspipe/vspipe.cpp'), ('outputFrame, initializeVideoOutput, initializeAudioOutput', 'src/vspipe/vspipe.cpp'), ('parseOptions, main', 'src/vspipe/vspipe.cpp'), ('convertVSMapToJSON', 'src/vspipe/vsjson.cpp'), ('CreateWaveHeader, CreateWave64Header, PackChannels', 'src/common/wave.cpp')],
  [vp('h_pipe', 'video %s 3 frames of arbitrary samples, all ranges' % n, fmt=i, w=4, h=4 if n == 'YUV410P8' else 2, range=3, covers=['complete', 'refused']) for i, n in enumerate(PF)]
  + [vp('h_pipe', 'video %s with y4m header' % n, fmt=i, w=4, h=4 if n == 'YUV410P8' else 2, head=1, range=1) for i, n in enumerate(PF)  if n != 'GrayS']
  + [vp('h_pipe', 'video rows narrower than the stride, with alpha, all ranges', w=3, alpha=1, range=3),
     vp('h_pipe', 'one frame, all ranges', frames=1, range=3), vp('h_pipe', 'y4m with alpha is refused', alpha=1, head=1), vp('h_pipe', 'wav header for video is refused', head=2),
     vp('h_pipe', 'no output file', none=1, files=3), vp('h_pipe', 'output index 7, progress', index=7, progress=1), 
     vp('h_pipe', 'timecodes and JSON, all ranges', files=3, range=3, frames=4), vp('h_pipe', 'timecodes and JSON, missing duration', files=3, nodur=1, covers=['failed']), vp('h_pipe', 'timecodes and JSON, missing duration in the last frame', files=1, nodur=2, covers=['failed'])]
  + [vp('h_pipe', 'video, write %d fails%s' % (k, ' with y4m header' if hd else ''), head=hd, failwrite=k, fmt=1, w=4, reqs=r, covers=['failed']) for k, hd, r in ((0, 0, 1), (4, 0, 2), (8, 0, 3), (0, 1, 1), (1, 1, 1), (2, 1, 3), (5, 1, 2))]
  + [vp('h_pipe', '%s, %d requests, %d threads, all schedules' % (d, r, t), explore=True, preempt=pr, preempt_t=pr + 1, threads=t, reqs=r, w=3, **k) for d, r, t, pr, k in (
      ('3 frames', 1, 2, 1, {}), ('3 frames', 2, 2, 1, {}), ('3 frames', 3, 2, 1, {}), ('4 frames', 2, 3, 0, dict(frames=4)), ('RGB24 with y4m refused', 2, 2, 0, dict(fmt=2, head=1)), ('2 frames with alpha', 2, 2, 1, dict(frames=2, alpha=1)), ('3 frames with alpha', 1, 2, 0, dict(alpha=1)), ('y4m, timecodes and JSON', 2, 2, 1, dict(head=1, files=3)),
      ('any frame fails', 1, 2, 1, dict(fail=1)), ('any frame fails', 2, 2, 1, dict(fail=1)), ('any frame fails', 3, 2, 0, dict(fail=1, frames=4)), ('any alpha frame fails', 2, 2, 0, dict(fail=2, alpha=1)), ('any frame with alpha fails', 2, 2, 0, dict(fail=1, alpha=1)), ('a write fails', 2, 2, 1, dict(failwrite=1)))]
  + [vp('h_pipe', 'audio %d bit%s, layout %d, %s, frames of 4 samples, all ranges' % (b, ' float' if f else '', lay, ['raw', 'y4m', 'wav', 'w64'][hd]), small=4, audio=1, bits=b, flt=f, layout=lay, head=hd, range=3, samples=n) for b, f, lay, hd, n in ((16, 0, 3, 0, 9), (24, 0, 3, 3, 6), (32, 0, 7, 2, 6), (32, 1, 4, 2, 5), (20, 0, 3, 2, 5), (16, 0, 1, 3, 8), (17, 0, 0x603, 2, 5), (16, 0, 3, 1, 5))]
  + [vp('h_pipe', 'audio, frames of 4 samples, %d requests, 2 threads, all schedules%s' % (r, ', any frame fails' if f else ''), small=4, explore=True, preempt=1, preempt_t=2, audio=1, samples=10, reqs=r, threads=2, fail=f) for r, f in ((1, 0), (2, 0), (3, 0), (2, 1))]
  + [vp('h_number', 'every text of %d characters' % n, n=n) for n in (0, 1, 2, 3, 4, 5)] + [vp('h_number', '%s followed by %d arbitrary digits' % (['', '92233720368547758', '-92233720368547758', '21474836', '-21474836'][b], n), n=n, big=b) for b in (1, 2, 3, 4) for n in (2, 3)]
  + [vp('h_wave', '%s %d bit, channel mask %#x, any rate and length' % ('w64' if w else 'wav', b, m), bits=b, flt=f, w64=w, mask=m) for w in (0, 1) for b, f, m in ((16, 0, 3), (24, 0, 0x3f), (32, 1, 1), (20, 0, 0x80000007), (16, 0, 0x100000003))]
  + [vp('h_json', d, kind=k, **a) for d, k, a in (('property with 2 integers from -12 to 120', 0, dict(n=2)), ('property with 1 or 2 numbers of a list that holds the extremes, infinities and NaN', 1, dict(n=1)), ('property with 1 or 2 numbers of a list that holds the extremes, infinities and NaN', 1, dict(n=2)), ('property text with 2 arbitrary bytes, all type hints', 2, dict(chars=2)), ('two property texts with 1 arbitrary byte each', 2, dict(chars=1, n=2)), ('frames as properties', 3, dict(n=1)), ('frames as properties', 3, dict(n=2)), ('empty property', 4, {}), ('property text of 199 and 200 characters', 5, {}))]
  + [vp('h_json', 'property text with 3 arbitrary bytes, all type hints', 'thorough', 600, kind=2, chars=3)]
  + [vp('h_info', '--info for %s' % PF[i], fmt=i, w=4, h=4, alpha=i & 1) for i in (0, 1, 2, 4, 5)] + [vp('h_info', '--info for audio', small=4, audio=1, layout=4), vp('h_info', '--info for audio', small=4, audio=1, flt=1, bits=32)]
  + [vp('h_args', '21 command lines'), vp('h_script', 'script arguments'), vp('h_script', 'failing script, exit codes 0 to 2', err=1), vp('h_script', 'missing output', wrong=1)],
  outside='the script side (Python; see N02, N03), named pipes and Windows, real files and signals, --graph and --filter-time output, progress text, numbers of FPS in --info, properties that are floating point numbers outside the list')
