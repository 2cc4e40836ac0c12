"""The properties, and which harness jobs decide each of them. tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
ASSUMPTIONS = [
    'The code is executed as clang -O1 bitcode of the current sources; the compiler, the executor (engine/), the solver (Z3) and the C++ runtime stand-ins in rt/ are trusted. Sampled solver witnesses are re-run on a native build in every check.',
    'Allocation does not fail; the clock is a counter; there is no file system and no locale (rt/vsxfake.h).',
]


class J:
    def __init__(self, harness, entry, bounds='', time=120, tier='quick', covers=(), explore=False, preempt=None, preempt_t=None, qt=None, mem=3500, weight=None, validate=True, extra=(), **params):
        self.__dict__.update(harness=harness, entry=entry, bounds=bounds, time=time, tier=tier, covers=list(covers), explore=explore, preempt=preempt, preempt_t=preempt_t, qt=qt, mem=mem, weight=weight if weight is not None else time, validate=validate, extra=list(extra), params=params)

    def name(self):
        return '%s/%s%s' % (self.harness, self.entry, ''.join(' %s=%s' % (k, v) for k, v in sorted(self.params.items())))


PROPS = {}


def P(pid, title, statement, over, quant, why, files, mech, jobs, outside='', level_note='', state=(), observe=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, jobs=jobs, outside=outside, level_note=level_note, state=state, observe=observe, **kw)


import reg_core
import reg_filters
import reg_filters2
import reg_filters3


def _na(pid, title, statement, over, quant, why, files, mech, reason):
    return dict(prop=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), reason=reason)


NOT_APPLICABLE = [
    _na('N01', 'resize converts size, format and color exactly as requested',
        'Every resize function outputs frames of exactly the requested size, format and color description, reads the input description from arguments and frame properties in that order, updates the frame properties to match, and refuses conversions that are impossible.',
        ['inputs'], 'all formats, sizes, color descriptions and properties', 'The combinations of formats, matrices, transfers, primaries, ranges and field states are far too many to list.',
        ['src/core/vsresize.cpp'], [('zimg graph per frame description', 'src/core/vsresize.cpp')],
        'vsresize.cpp cannot be compiled here: the installed zimg headers are too old and the provided build leaves the file out, so there is no code to encode and no native build to replay against; the conversion itself is in a library outside the repository.'),
    _na('N02', 'The Python module mirrors the API without leaking or losing references',
        'Objects of the Python module keep the core objects they stand for alive exactly as long as needed, convert values in both directions without loss, and turn every error into a Python exception; frames given out as buffers or arrays cannot be written unless they are writable.',
        ['inputs', 'histories'], 'all scripts', 'Scripts combine lifetimes, exceptions and threads in any order.',
        ['src/cython/vapoursynth.pyx'], [('RawFrame, RawNode, Core and Function wrappers', 'src/cython/vapoursynth.pyx')],
        'The code is Cython over the CPython run time: its bitcode consists of calls into the interpreter, garbage collector and GIL, which cannot be encoded within reach. The C API underneath is covered by the C properties.'),
    _na('N03', 'VSScript evaluates scripts in isolation and reports every failure',
        'Each script environment has its own core, outputs and variables, evaluation reports success or an error message and exit code, and freeing an environment releases all it holds.',
        ['histories'], 'all sequences of VSScript calls', 'Histories of environments and calls from several threads are unbounded.',
        ['src/vsscript/vsscript.cpp', 'src/cython/vapoursynth.pyx'], [('calls into the embedded interpreter', 'src/vsscript/vsscript.cpp')],
        'All behaviour beyond argument passing happens inside the embedded CPython interpreter (see N02).'),
]
