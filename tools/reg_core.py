from registry import P, J, PROPS
VC, VA, VH = 'src/core/vscore.cpp', 'src/core/vsapi.cpp', 'src/core/vscore.h'

P('C01', 'Writing to one frame never changes another',
  'Data written through a frame that its owner may modify - plane samples or properties - is never visible through any other frame reference, however frames were copied, assembled from planes of other frames or given away. A copy holds the same contents as its original until one of them is written.',
  ['inputs', 'histories'], 'every sequence of copy, plane-sharing allocation, write and release over a bounded set of frames, with every value written',
  'Tests copy a frame once and look at it; sharing bugs need particular sequences of copies, shared planes and writes.',
  [VC, VH, VA], [('copy on write of planes', VC + ': VSFrame::getWritePtr'), ('copy on write of property maps', VH + ': VSMap::detach')],
  [J('core1', 'h_cow', '4 frames, 2 operations, any operands', ops=2, covers=['done']), J('core1', 'h_cow', '4 frames, 3 operations, any operands', ops=3, tier='thorough', time=600),
   J('core1', 'h_cowaudio', 'audio frames, 2 operations', ops=2, covers=['done']), J('core1', 'h_cowaudio', 'audio frames, 3 operations', ops=3, tier='thorough', time=600),
   J('core2', 'h_frameprops', 'property maps of frames and their copies')],
  outside='longer sequences, frames larger than the ones allocated, three or more threads writing at once')

P('C02', 'Frame memory has the promised geometry',
  'For every valid format and size, each plane of a new frame has the dimensions that subsampling dictates, an aligned row distance of at least the row size, and memory that can be read and written over rows times distance without leaving the allocation. Access to a plane that does not exist is refused with a null pointer and zero dimensions.',
  ['inputs'], 'all dimensions up to the stated maximum, over formats of all families, sample sizes and subsamplings',
  'Tests allocate a few usual sizes; padding and overflow mistakes show for particular widths, heights and subsamplings.',
  [VC, VA], [('allocation of planes', VC + ': VSFrame::VSFrame'), ('stride rounding', VC + ': VSFrame::VSFrame, VSPlaneData')],
  [J('core1', 'h_alloc', 'eight formats, widths and heights 1..32000, symbolic', covers=['done'], time=200), J('core1', 'h_badplane', 'all plane numbers', covers=['done'])],
  outside='sizes above the stated maximum; failing allocation')

P('C03', 'Format queries accept exactly the valid formats, consistently',
  'A video format query succeeds exactly for the combinations the documentation allows and then returns the same combination with the derived byte count and plane count. Numeric ids and format descriptions convert into each other without loss, unknown ids are refused, and names identify the format.',
  ['inputs'], 'every integer for every argument of the query (symbolic 32 bit values) and every 32 bit id',
  'Tests name a few formats; acceptance has to be right for every combination of five integers.',
  [VC, VA], [('validation', VC + ': VSCore::isValidVideoFormat'), ('id packing', VC + ': VSCore::queryVideoFormatID, getVideoFormatByID'), ('names', VC + ': VSCore::getVideoFormatName')],
  [J('core1', 'h_query', 'all 32 bit argument values', covers=['valid', 'refused']), J('core1', 'h_id', 'all 32 bit ids', covers=['accepted', 'refused']), J('core1', 'h_idundef', 'undefined family', covers=['done']), J('core1', 'h_name', 'all valid formats')])

P('C04', 'Maps store typed values and report the right errors',
  'A value stored in a property map under a key comes back with the same value, type, position and count; appending keeps order and replacing discards what was there. A read with the wrong type, a wrong index or an absent key returns the documented error and a neutral value, and a refused write changes nothing.',
  ['inputs', 'histories'], 'every operation after every kind of previous content, with every value and index (symbolic)',
  'Tests store a few values and read them back; the guarantee covers every type pair, index, append mode and error path.',
  [VA, VH], [('typed arrays', VH + ': VSMap, VSArray'), ('error codes', VA + ': propGetShared, propSetShared')],
  [J('core2', 'h_ops', 'content of type %d, then one operation of any kind with any arguments' % p, pre=p, ops=1) for p in range(9)] +
  [J('core2', 'h_ops', 'content of any type, then two operations', pre=p, ops=2, tier='thorough', time=400) for p in range(9)] +
  [J('core2', 'h_data', 'data of up to 6 bytes, explicit and implicit length', n=6, covers=['done'])],
  outside='arrays longer than a few elements; more than two operations in a row')

P('C05', 'Map keys, key aliases and map copies behave as documented',
  'A map accepts exactly the keys that are identifiers, and listing, counting, deleting and copying agree with what was stored. The legacy and the current name of the color range property describe the same value with its two encodings, whichever of them is used to write or to read, and changing a copied map leaves the original alone.',
  ['inputs', 'histories'], 'every key of up to three bytes, every range value, every single operation after a copy',
  'Tests use well formed keys and do not mix the two names of the range property.',
  [VA, VH], [('key validation', VA + ': isValidVSMapKey'), ('range alias', VA + ': _ColorRange handling'), ('copy on write', VH + ': VSMap')],
  [J('core2', 'h_keys', 'all keys of up to 3 bytes', n=3, covers=['ok', 'bad']), J('core2', 'h_range', 'every value written under either name', covers=['done']), J('core2', 'h_rangeempty', 'empty range property', covers=['done']), J('core2', 'h_frameprops', 'copies of property maps')])

P('C06', 'Saturating conversions, colors and copies never wrap or overrun',
  'Reading a number as a narrower integer clamps to the limits of that integer, also for values no integer can hold, and the plane copy helper copies exactly the rows and bytes it was told to. A fill color is accepted exactly if it can be represented in the format, and then appears in every pixel unchanged.',
  ['inputs'], 'every 64 bit integer and every double as value; every color value per format; bounded plane sizes',
  'Tests try a few values; wrap-around happens only near the limits of the types.',
  ['include/VSHelper4.h', VA, 'src/core/simplefilters.cpp'], [('clamping', 'include/VSHelper4.h: int64ToIntS'), ('saturated map reads', VA + ': mapGetIntSaturated, mapGetFloatSaturated'), ('color check', 'src/core/simplefilters.cpp: setBlank')],
  [J('core3', 'h_satint', 'all 64 bit values', covers=['done']), J('core3', 'h_satmap', 'all 64 bit integers and doubles', covers=['done']), J('core3', 'h_bitblt', 'rows up to 4, bytes up to 8, any distances', covers=['done']), J('core3', 'h_dims', 'all dimensions up to the limit', covers=['done']),
   J('core3', 'h_color', 'every color value, integer formats', covers=['accepted', 'refused']), J('core3', 'h_color', 'every color value, float format', fmt=4, covers=['accepted', 'refused'])])

P('C07', 'Rational arithmetic helpers are exact and reduced',
  'Reducing, multiplying, dividing and adding fractions gives the mathematically exact result in lowest terms with a positive denominator whenever it is representable, and fractions with a zero or negative denominator are left alone as documented.',
  ['inputs'], 'all numerators and denominators up to the stated number of bits',
  'The helpers are only used with usual frame rates in tests; reduction and sign mistakes need particular operands.',
  ['include/VSHelper4.h', 'include/VSHelper.h'], [('fraction helpers', 'include/VSHelper4.h: reduceRational, muldivRational, addRational')],
  [J('core3', 'h_reduce', 'operands of 12 bits', b=12, covers=['done']), J('core3', 'h_muldiv', 'operands of 8 bits', b=8, covers=['done']), J('core3', 'h_addrat', 'operands of 6 bits', b=6, covers=['done']), J('core3', 'h_ratinvalid', 'non-positive denominators', covers=['done']),
   J('core3', 'h_reduce', 'operands of 16 bits', b=16, tier='thorough', time=600), J('core3', 'h_muldiv', 'operands of 10 bits', b=10, tier='thorough', time=600), J('core3', 'h_addrat', 'operands of 8 bits', b=8, tier='thorough', time=600)],
  outside='operands with more bits (the Euclidean loop is unrolled for the stated width)')

P('C08', 'Function calls are validated against the declared signature',
  'A plugin function is called exactly when the supplied arguments match its declared signature - names known, required ones present, types and array lengths right - and it then sees exactly these arguments. Otherwise it is not called and the caller gets an error that names the function; results are checked against the declared return values in the same way for functions with a declared result.',
  ['inputs', 'programs'], 'every pair of signature (two parameters of any type, array and optional flags) and argument map within the bounds',
  'Tests call the standard filters with usual arguments; the rule has to hold for every signature a plugin may register.',
  [VC], [('argument checks', VC + ': VSPluginFunction::invoke, checkValues')],
  [J('core4', 'h_invoke', 'two parameters of every kind, arguments of every kind', np=2, covers=['ok', 'refused']), J('core4', 'h_nofunc', 'absent functions', covers=['same', 'other'])],
  outside='more than two parameters; arrays of more than two elements')

P('C09', 'Plugin registration accepts exactly valid, compatible plugins',
  'A plugin can register a function exactly if its name is an identifier not yet taken and its argument and return strings follow the grammar; registered functions can be found and enumerated, refused ones do not exist. Plugins that ask for an unsupported API version, or whose identifier or namespace is taken or invalid, are refused, and registration ends once a plugin is initialised unless it declared itself modifiable.',
  ['inputs', 'programs'], 'every name of up to three bytes, every signature string within the bounded grammar fragment, every version number',
  'Tests load the bundled plugins, which are all well formed.',
  [VC], [('signature parser', VC + ': VSPluginFunction::parseArgString'), ('registration', VC + ': VSPlugin::registerFunction, configPlugin')],
  [J('core4', 'h_regname', 'all names of 3 bytes', n=3, covers=['ok', 'refused']), J('core4', 'h_dup', 'two functions', covers=['done']), J('core4', 'h_readonly', 'late registration', covers=['done']), J('core4', 'h_version', 'every API version', covers=['v4', 'v3', 'refused']), J('core4', 'h_plugversion', 'every plugin version', covers=['ok', 'refused']),
   J('core4', 'h_regargs', 'signature strings of the fragment', covers=['ok', 'refused']), J('core4', 'h_force', 'forced names', covers=['done'])])

TP = 'src/core/vsthreadpool.cpp'
MODES = ['fully parallel', 'parallel requests', 'unordered', 'frame state']


def G(bounds, preempt=2, preempt_t=3, tier='quick', entry='h_graph', time=90, **kw):
    return J('sched', entry, 'every schedule with up to %d preemptions (%d when thorough); %s' % (preempt, preempt_t, bounds), time=time, tier=tier, explore=True, preempt=preempt, preempt_t=preempt_t, covers=['done'], **kw)


P('C10', 'Every requested frame is delivered exactly once',
  'Each asynchronous request is answered by exactly one callback with either the requested frame or an error, never both, and each blocking request returns the requested frame or the error message, whatever the number of worker threads, the order in which they run, failing filters, cache settings, memory pressure or changes of the thread count. Requests never hang, an error raised anywhere in the graph reaches exactly the requests that depend on it, and frame numbers out of range are refused with an error without starting production.',
  ['schedules', 'fault_sequences', 'inputs'], 'every interleaving of the worker threads and the application within the preemption bound, every choice of failing node, every 32 bit frame number',
  'Tests run whatever schedule the machine happens to produce; lost wakeups, double deliveries and dropped errors need particular interleavings.',
  [TP, VC, VA], [('scheduling', TP + ': VSThreadPool::runTasks, startInternal'), ('requests', VC + ': VSNode::getFrame, getFrameInternal; VSFrameContext'), ('delivery', TP + ': returnFrame')],
  [G('%d frames, %d requests per frame, threads %d%s' % (fr, rq, th, x), pre, pre_t, frames=fr, reqs=rq, threads=th, **kw) for fr, rq, th, pre, pre_t, x, kw in [
      (2, 1, 2, 2, 3, '', {}), (2, 2, 2, 2, 3, '', {}), (2, 1, 3, 1, 2, '', {}), (3, 1, 2, 1, 2, '', {}),
      (2, 1, 2, 2, 3, ', source fails', dict(fail=1)), (2, 2, 2, 2, 3, ', source fails', dict(fail=1)), (2, 1, 2, 2, 3, ', filter fails', dict(fail=2)), (2, 2, 2, 2, 3, ', filter fails', dict(fail=2)),
      (2, 1, 2, 2, 3, ', the same frame twice', dict(same=1)), (2, 1, 2, 2, 3, ', the same frame twice, cached', dict(same=1, nocache=0)), (2, 1, 2, 2, 3, ', the same frame twice, source fails', dict(same=1, fail=1)),
      (2, 2, 2, 2, 3, ', cached', dict(nocache=0)), (2, 1, 2, 2, 3, ', frame state filter, source fails', dict(fmode=3, fail=1)), (2, 1, 2, 2, 3, ', frame state filter fails', dict(fmode=3, fail=2)), (2, 1, 2, 2, 3, ', unordered filter fails', dict(fmode=2, fail=2)), (2, 1, 2, 2, 3, ', duplicate request', dict(dup=1)), (2, 1, 2, 2, 3, ', early release', dict(early=1)),
      (2, 1, 3, 1, 2, ', no memory to spare', dict(limit=100)), (2, 1, 2, 2, 3, ', slow filter', dict(limit=100, adv=3000000000)), (2, 1, 2, 2, 3, ', thread count lowered', dict(resize=1)), (2, 1, 1, 2, 2, ', thread count raised', dict(resize=3))]] +
  [G('diamond shaped graph, %s' % x, entry='h_diamond', fail=f) for f, x in enumerate(['no failure', 'source fails', 'one branch fails', 'both branches fail', 'joining filter fails'])] +
  [G('diamond shaped graph, cached', entry='h_diamond', nocache=0, frames=2), G('two frames through the diamond', 1, 2, entry='h_diamond', frames=2),
   G('two blocking requests', entry='h_sync'), G('two blocking requests, filter fails', entry='h_sync', fail=1), G('two blocking requests for one frame, filter fails', entry='h_sync', fail=1, same=1), G('short message buffer', entry='h_sync', fail=1, buf=3), G('two workers, two blocking requests', 1, 2, entry='h_sync', threads=2),
   G('callbacks that request the next frame', entry='h_chain'), G('callbacks that request the next frame, one thread', entry='h_chain', threads=1, len=3),
   J('sched', 'h_range', 'every frame number', covers=['ok', 'refused'])],
  outside='schedules with more preemptions; more threads, frames and nodes than stated; weak memory effects (the interleaving semantics is sequentially consistent)')

P('C11', 'Filter modes bound the concurrency of a filter',
  'A filter is never called in a way its declared mode forbids: unordered and frame state filters are never entered by two threads at once, parallel-request filters never produce two frames at once, and a frame state filter finishes one frame before it starts another. Each frame is started once and its production (or its error) follows exactly once, with the per-frame data of that frame and all requested frames available; completion callbacks never overlap.',
  ['schedules', 'fault_sequences'], 'every interleaving within the preemption bound, for every pair of source and filter modes',
  'Overlap is a matter of schedules that tests do not control.',
  [TP, VC], [('serialisation', TP + ': VSThreadPool::runTasks'), ('mode handling', VC + ': VSNode')],
  [G('source %s, filter %s, two threads' % (MODES[s], MODES[f]), smode=s, fmode=f) for s in range(4) for f in range(4)] +
  [G('filter %s, two requests per frame' % MODES[f], fmode=f, reqs=2) for f in (1, 2, 3)] +
  [G('filter %s, three frames, three threads' % MODES[f], 1, 2, fmode=f, frames=3, threads=3) for f in (1, 2, 3)] +
  [G('filter %s, source fails' % MODES[f], fmode=f, fail=1) for f in (1, 2, 3)] +
  [G('filter %s, filter fails' % MODES[f], fmode=f, fail=2) for f in (1, 2, 3)] +
  [G('filter %s, the same frame twice%s' % (MODES[f], ', source fails' if x else ''), fmode=f, same=1, fail=x) for f in (1, 2, 3) for x in (0, 1)] +
  [G('source %s, filter %s, three threads' % (MODES[f], MODES[f]), 1, 2, fmode=f, smode=f, threads=3, reqs=2) for f in (2, 3)] +
  [G('diamond, source %s, join %s' % (MODES[s], MODES[f]), entry='h_diamond', smode=s, fmode=f, frames=2, preempt=1, preempt_t=2) for s, f in ((2, 3), (3, 2), (3, 1))] +
  [G('blocking requests, %s' % MODES[f], 1, 2, entry='h_sync', fmode=f, threads=2) for f in (2, 3)] + [G('chained requests, %s' % MODES[f], entry='h_chain', fmode=f) for f in (2, 3)],
  outside='schedules with more preemptions; more threads and frames')

P('C12', 'Caching never changes what is delivered',
  'Whatever the cache settings of a node, the order of requests, cache clearing, memory pressure or concurrent changes of the cache settings, the delivered frame is the requested one. A cache of fixed size recomputes a frame exactly when it is no longer among that many most recently requested ones and holds no more frames than that; automatic caching computes reusable frames once and holds nothing for request patterns without reuse; a linear filter never produces a frame again that it already pushed into its cache.',
  ['histories', 'schedules'], 'every sequence of requests and cache operations within the bounds; every interleaving of cache operations with frame production within the preemption bound',
  'Tests request frames in order with default caches; eviction and bookkeeping mistakes need particular histories.',
  [VC, VH, TP], [('cache', VH + ': VSNode::VSCache; ' + VC + ': VSCache::insert, evictFrames'), ('policy', VC + ': VSNode::updateCacheState, setCacheMode, setLinear, VSCore::notifyCaches')],
  [J('core5', 'h_cache', 'five requests or size changes in any order', ops=5, covers=['done'], time=200), J('core5', 'h_cache', 'three operations of any kind', ops=3, all=1, covers=['done']), J('core5', 'h_cache', 'four requests or size changes, history of one', ops=4, hist=1, covers=['done']),
   J('core5', 'h_auto', 'every pair of request patterns, three requests', covers=['done']), J('core5', 'h_linear', 'four requests of six frames', len=4, covers=['done']), J('core5', 'h_linear', 'four requests, wide steps', len=4, thr=6, covers=['done']),
   J('core5', 'h_cache', 'seven requests or size changes', ops=7, tier='thorough', time=500), J('core5', 'h_cache', 'five operations of any kind', ops=5, all=1, tier='thorough', time=500), J('core5', 'h_auto', 'four requests', len=4, tier='thorough', time=300), J('core5', 'h_linear', 'six requests', len=6, tier='thorough', time=300)] +
  [G('production while %s' % x, entry='h_cachectl', op=o, time=120) for o, x in enumerate(['nothing else happens', 'the cache is cleared', 'all caches are cleared', 'caching is switched off and on', 'the cache shrinks', 'a consumer is added', 'a consumer is removed', 'the memory limit drops'])] +
  [G('clearing under memory pressure', 1, 2, entry='h_cachectl', op=2, limit=100, adv=3000000000)],
  outside='longer histories; more than six distinct frames')

P('C13', 'Frame memory is accounted, reused and returned',
  'The reported frame buffer usage covers the frames that exist, counts shared planes once, and is zero when all are released. Buffers handed out never overlap a buffer that is still in use, unused memory is given back when the limit asks for it, and frames stay valid and are cleaned up without leaks even when they outlive the core or are allocated and released by several threads.',
  ['histories', 'schedules', 'inputs'], 'every sequence of allocations (five size classes), releases and limit changes; every choice of shared planes; every interleaving of two allocating threads within the preemption bound',
  'Tests look at frame contents, not at the allocator; reuse of large buffers and core teardown order need particular sequences.',
  ['src/core/memoryuse.cpp', VC], [('allocator', 'src/core/memoryuse.cpp: MemoryUse::allocate, deallocate, gc_freelist'), ('planes', VC + ': VSPlaneData')],
  [J('core5', 'h_mem', 'four operations', ops=4, covers=['done']), J('core5', 'h_mem', 'four operations, frames outlive the core', ops=4, outlive=1, covers=['done']), J('core5', 'h_memshare', 'every assembly of three planes', covers=['done']),
   G('two threads, two frames each', 2, 4, entry='h_memconc', ), G('two threads, three frames each', 2, 3, entry='h_memconc', rounds=3), G('two threads, memory limit', 2, 3, entry='h_memconc', limit=1),
   J('core5', 'h_mem', 'five operations', ops=5, tier='thorough', time=500), J('core5', 'h_mem', 'five operations, frames outlive the core', ops=5, outlive=1, tier='thorough', time=500)],
  outside='failing allocation; weak memory effects')

P('C14', 'Everything is freed exactly once, when its last reference goes',
  'A filter instance is freed exactly when the last reference to its node - from the application, a map, a function or another filter - is gone, once, and before the filters it depends on; functions likewise. Frames stay valid until released. Whatever order references are released in, with the core freed early or late, and whether filter creation succeeded or was refused, in the end nothing is left over.',
  ['histories', 'programs'], 'every order of releasing eight kinds of references; every split point of a filter chain; good and bad arguments of ten filters',
  'Tests end with the process; leaks, double frees and teardown order are invisible to them.',
  [VC, VH, VA], [('nodes', VC + ': VSNode::~VSNode, VSCore::destroyFilterInstance'), ('core lifetime', VC + ': VSCore::freeCore, filterInstanceDestroyed'), ('functions', VC + ': VSFunction'), ('reference counts', 'src/core/intrusive_ptr.h')],
  [J('core5', 'h_life', 'every release order', covers=['done'], time=200), J('core5', 'h_chainfree', 'chain of 12 filters', covers=['done']), J('core5', 'h_leak', 'ten filters, good and bad arguments', covers=['done'])],
  outside='other graphs; releases from several threads at once')

P('C15', 'Every log message reaches every handler once',
  'A message logged while handlers are installed reaches each of them exactly once, in order and without overlapping calls, from whatever thread it was logged. Messages logged before are kept, up to the limit, and delivered to the first handler only, with a warning if some were lost. A handler is freed exactly once, on removal or with the core, is never called afterwards, and may itself log.',
  ['histories', 'schedules'], 'every sequence of logging, adding and removing handlers within the bounds; every interleaving of two logging threads within the preemption bound',
  'Tests do not exercise handlers from several threads or across removal.',
  [VC], [('logging', VC + ': VSCore::logMessage, addLogHandler, removeLogHandler')],
  [J('core5', 'h_log', 'five operations', ops=5, covers=['done']), J('core5', 'h_logcap', 'up to 520 stored messages', covers=['done']), J('core5', 'h_lognest', 'logging handlers', covers=['done']),
   G('two threads, two messages each', 3, 5, entry='h_logconc'), G('two threads, handlers come and go', 3, 4, entry='h_logconc', pre=0, add=1, rem=1), G('two threads, a second handler comes and goes', 3, 4, entry='h_logconc', add=1, rem=1),
   J('core5', 'h_log', 'seven operations', ops=7, tier='thorough', time=500)],
  outside='longer sequences')
for p in ('C13', 'C15'):
    for j in PROPS[p]['jobs']:
        if j.harness == 'sched':
            j.harness = 'core5'
