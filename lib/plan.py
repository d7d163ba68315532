"""What every check runs: phases (build, runs, seconds, share of the thorough
time), and the words that describe it in the evidence."""

CODEC_REAL = ['encoder and decoder library (src/*.c), compiled from the working tree']
NET_STUB = ['audio source (seeded signal generators)', 'packet network, receiver clock and playout (discrete-event '
            'simulation)', 'reference decoder model (sim/ref.cc) used to forge and to classify frames']
NET_RULE = ('One seed draws a configuration, a swarm of enabled fault kinds, and a discrete-event run of sender, '
            'network and receiver whose outcome is the list of operations executed against the real codec.')
NET_STATES = ('distinct (configuration, shape of the decoded side information, return code) tuples; shape: bandwidth, '
              'pitch, noise factor, TNS orders, LSB mode of the frame')

PLAN = {}


def add(pid, phases, rule, states=NET_STATES, real=CODEC_REAL, stub=NET_STUB, expect=(), assumptions=(), **k):
    PLAN[pid] = dict(phases=phases, rule=rule, states=states, real=list(real), stub=list(stub), expect=list(expect),
                     assumptions=list(assumptions), **k)


NET_FAULTS = ['fault:' + f for f in ('loss', 'bit-flip', 'burst', 'truncate', 'forged-frame', 'junk-frame',
                                     'torn-frame', 'sender-restart', 'receiver-restart')]

add('C01', [('asan', 4000, 22, 2), ('ship', 14000, 18, 1)],
    NET_RULE + ' Every buffer ends at an inaccessible page and starts behind a canary. Non-trivial: the decoder was '
    'given at least one frame.', expect=NET_FAULTS)
add('C02', [('ship', 16000, 20, 2), ('asan', 2500, 12, 1)],
    NET_RULE + ' Two decoders: one gets the damaged frame, its twin is told the frame is missing. Non-trivial: a '
    'damaged frame was refused.', expect=NET_FAULTS)
add('C03', [('ship', 16000, 20, 2), ('asan', 2500, 12, 1)],
    NET_RULE + ' Calls with illegal parameters are scattered over one run and left out of its twin. Non-trivial: at '
    'least one call was refused.')
add('C04', [('ship', 14000, 22, 3), ('asan', 1500, 10, 1)],
    NET_RULE + ' After the faults a fault-free tail is compared with a decoder that saw no fault. Non-trivial: the '
    'run had faults before the tail.')
add('C05', [('ship', 3000, 30, 3), ('asan', 400, 12, 1)],
    NET_RULE + ' Outages of up to thousands of frames, loud and forged frames before them. Non-trivial: a run of '
    'concealed frames was judged.')
add('C06', [('threads', 9000, 30, 1)],
    'One seed draws streams, threads, the calls, their threads (with hand-over) and a schedule of quanta counted in '
    'preemption points. Real threads, one running at a time; each stream is compared with a solo run in a process of '
    'its own. Non-trivial: control was passed between two threads that were both inside a call.',
    states='distinct pairs of program points (preempted, resumed) between two running calls',
    stub=['thread scheduler (seeded, preempts at every branch, load and store of the library)', 'audio sources'],
    expect=['fault:preemption-inside-call', 'fault:context-handed-to-other-thread', 'fault:loss'])
add('C07', [('ship', 16000, 20, 2), ('asan', 2500, 12, 1)],
    NET_RULE + ' Two worlds: fresh memory and clean stack against reused memory, scribbled stack, other streams in '
    'between. Non-trivial: frames were compared.', expect=['fault:memory-reused', 'fault:other-stream-interleaved'])
add('C08', [('ship', 16000, 16, 1), ('asan', 3000, 14, 1)],
    NET_RULE + ' Contexts of the exact size reported end at an inaccessible page; allocator calls and the '
    "library's own storage are watched. Non-trivial: frames were processed.", expect=['fault:odd-configuration',
    'probe:static-type', 'probe:mem-16k', 'probe:mem-48k'])
add('C09', [('ship', 16000, 20, 2), ('asan', 2500, 14, 1)],
    NET_RULE + ' The context is moved, cloned, rolled back after a crash, or continued by another process with '
    'another address space at arbitrary frame boundaries, and compared with one that stays. Non-trivial: moved at '
    'least once.', expect=['fault:crash-resume', 'fault:copy-diverges', 'fault:other-process'])
add('C10', [('ship', 20000, 20, 2), ('asan', 2500, 12, 1)],
    NET_RULE + ' Non-trivial: frames were encoded.')
add('C11', [('ship', 5000, 28, 3), ('clang', 1600, 10, 2), ('asan', 800, 12, 1)],
    NET_RULE + ' Non-trivial: samples were judged against the source.')
add('C12', [('ship', 16000, 20, 2), ('asan', 2000, 12, 1)],
    NET_RULE + ' One codec per format, one that switches. Non-trivial: frames were compared.',
    expect=['fault:format-switch'])
add('C13', [('ship', 12000, 20, 2), ('asan', 2000, 14, 1)],
    'One seed draws the channel count, formats, per-channel sizes, the order of the channel calls in every block, '
    'and per-channel loss, damage and restarts. Non-trivial: more than one channel.',
    states=NET_STATES + '; with channel count and format',
    stub=['audio sources', 'order of the channel calls and per-channel losses (seeded scheduler)'],
    expect=['fault:channel-lost', 'fault:channel-damaged', 'fault:channel-restart', 'fault:wide-block'])
add('C14', [('ship', 14000, 22, 2), ('asan', 2000, 14, 1)],
    'One seed draws lives of encoder and decoder objects (configuration, channels, an allocation that fails), block '
    'sizes, calls through typed and generic entry points, losses, damage, resets. Each object is compared with one C '
    'codec per channel. Non-trivial: several channels decoded, or an object refused use.',
    states='distinct (configuration, channels, entry point, remainder of the block, return code) tuples',
    real=CODEC_REAL + ['C++ wrapper (include/lc3_cpp.h)'],
    stub=['audio sources', 'allocator (fails at seeded points)', 'transport of frame blocks'],
    expect=['fault:allocation-failure', 'fault:loss-with-size', 'fault:loss', 'fault:damaged-channels', 'fault:reset',
            'fault:unsupported-configuration', 'fault:refused-call', 'fault:unknown-format', 'probe:default-arguments'])
add('C16', [('ship', 9000, 26, 3), ('clang', 2500, 9, 2), ('asan', 1000, 10, 1)],
    NET_RULE + ' Non-trivial: at least one frame was accepted and compared with the model.', expect=NET_FAULTS,
    assumptions=['the model (sim/ref.cc) is an independent implementation in double precision of the decoder of the '
                 'LC3 specification, with frozen copies of its constant tables'])
add('C17', [('ship', 20000, 20, 2), ('asan', 2500, 12, 1)],
    NET_RULE + ' Non-trivial: LTPF was disabled and later frames were encoded.')
add('C26', [('ship', 11000, 28, 3), ('clang', 3000, 9, 2), ('asan', 1500, 14, 1)],
    'One seed draws audio that switches between sources, formats, frame sizes, and calls between the frames. The '
    'model of the encoder follows from the same samples. Non-trivial: frames were followed to their last bit.',
    states='distinct (configuration, shape of the frame, attack, near Nyquist, gain raised or lowered) tuples',
    stub=['audio sources', 'reference models of the encoder (sim/refenc.cc) and of the bitstream (sim/ref.cc)'],
    expect=['fault:' + f for f in ('signal-switch', 'format-switch', 'sender-restart', 'ltpf-disable', 'refused-call',
                                   'context-moved', 'other-stream')] +
           ['probe:' + p for p in ('attack', 'near-nyquist', 'pitch', 'pitch-filter', 'gain-raised', 'gain-lowered',
                                   'gain-floor', 'truncated', 'lsb-mode', 'tns', 'bandwidth-cut')],
    assumptions=['the model (sim/refenc.cc) is an independent implementation in double precision of the encoder of '
                 'the LC3 specification, with frozen copies of its constant tables; parts of a frame that rounding '
                 'leaves open are taken over from the frame and counted (undecided-*)'])
TOOLS_REAL = CODEC_REAL + ['command line tools (tools/*.c)', 'C standard I/O']
TOOLS_STUB = ['files, pipes, clock and allocator below the C library', 'WAVE and LC3 file models (sim/c_tools.cc), which '
              'call the real library']
add('C18', [('tools', 12000, 24, 1), ('tools-asan', 2500, 20, 1)],
    'One seed draws audio, options and a chain of runs of the tools in processes of their own, with split or merged '
    'reads and writes, pipes or files, clock jumps. Non-trivial: audio was decoded.',
    states='distinct (encoder options, decoder options) tuples', real=TOOLS_REAL, stub=TOOLS_STUB,
    expect=['fault:input-pipe', 'fault:output-pipe', 'fault:split-io', 'fault:clock-jump'])
add('C19', [('tools', 12000, 20, 2), ('tools-asan', 2000, 14, 1), ('python', 3000, 16, 1)],
    'One seed draws audio, options, and a failing operation for each of several runs of the tools, placed by a run '
    'without the fault. Non-trivial: a fault hit.',
    states='distinct (tool, fault, position, input and output kinds) tuples', real=TOOLS_REAL, stub=TOOLS_STUB,
    expect=['fault:' + f for f in ('read-error', 'read-error-once', 'no-space', 'write-error', 'write-error-once',
                                   'close-error', 'open-input-error', 'open-output-error',
                                   'stalled-stream')])
PY_STUB = ['C library allocator under the module, files and pipes under the tools', 'old shared library (without lc3_hr_*)',
           'audio sources']
add('C15', [('python', 9000, 40, 1)],
    'One seed draws lives of encoder and decoder objects of the module (configuration, channels, library, allocation '
    'that fails), their calls with all types of input, short and illegal ones, damaged blocks. Each object is compared '
    'with one C codec per channel. Non-trivial: an object gave frames or samples.',
    states='distinct (configuration, channels, sample format, input type or decoder result) tuples',
    real=CODEC_REAL + ['Python module (python/lc3.py) and ctypes, in a Python interpreter'], stub=PY_STUB,
    expect=['fault:' + f for f in ('allocation-failure', 'old-library', 'unsupported-rate', 'refused-call', 'short-input',
                                   'damaged-block', 'junk-block', 'truncated-block', 'library-missing')] +
           ['probe:object-released'])
add('C22', [('python', 9000, 40, 1)],
    'One seed draws audio and options, and pairs of encoder and decoder tools in C and Python on split reads and '
    'writes, pipes or files. Each pair is compared with the C pair. Non-trivial: a pair gave audio.',
    states='distinct (options, pair of tools, kinds of files) tuples',
    real=TOOLS_REAL + ['Python module and tools (python/), in a Python interpreter'], stub=TOOLS_STUB[:1] + PY_STUB[2:],
    expect=['fault:input-pipe', 'fault:output-pipe', 'fault:split-io', 'fault:longer-header', 'fault:foreign-file'] +
           ['probe:pair-' + p for p in ('00', '01', '10', '11')])
add('C20', [('tools', 24000, 24, 1), ('tools-asan', 4000, 20, 1)],
    'One seed draws a stream, possibly left by an encoder killed while writing, damage to its header, its blocks and '
    'its bytes, and runs of the decoder tool. Non-trivial: the tool produced audio.',
    states='distinct (verdict, silent blocks, concealed frames, stream) tuples', real=TOOLS_REAL, stub=TOOLS_STUB,
    expect=['fault:' + f for f in ('truncated', 'bit-flip', 'torn-sector', 'hostile-header', 'hostile-length',
                                   'hostile-block-size', 'foreign-block', 'damaged-block', 'longer-header',
                                   'encoder-killed', 'input-pipe', 'split-io')] +
           ['probe:concealed-frames', 'probe:silent-blocks', 'probe:refused', 'probe:output-limit'])
add('C21', [('tools', 8000, 26, 1), ('tools-asan', 1200, 20, 1)],
    'One seed draws the layout of a WAVE file (format chunk, chunks around the audio, damage), and runs of the '
    'encoder tool. Non-trivial: the tool produced a stream.',
    states='distinct (verdict, format chunk, kind of input, layout) tuples', real=TOOLS_REAL, stub=TOOLS_STUB,
    expect=['fault:' + f for f in ('chunk-before-audio', 'chunk-after-audio', 'chunk-before-format', 'long-format',
                                   'hostile-field', 'hostile-audio-size', 'hostile-format-size', 'truncated',
                                   'other-format', 'input-pipe', 'split-io')] + ['probe:padded', 'probe:refused', 'probe:other-format-encoded'])
add('C23', [('features', 12000, 25, 1)],
    NET_RULE + ' Every operation is executed by four builds of the library in one process. Non-trivial: at least two '
    'builds decoded.', states=NET_STATES + '; with the number of builds that support it',
    expect=NET_FAULTS + ['fault:missing-feature', 'probe:4-builds', 'probe:2-builds', 'probe:1-build'])

TECHNIQUE = {'': 'deterministic simulation: seeded schedules and fault traces against the real codec'}
LEVEL_NOTES = {'': 'Seeded search over schedules and faults; every run is exactly repeatable and every alarm is '
               'reproduced by a fresh process from its replay file before it is reported. No claim beyond the runs '
               'explored. Trusts the simulator and, where frames are forged or judged, the reference model.'}
NOT_APPLICABLE = {
    'C24': 'The queries are pure functions of their integer arguments: no schedule, time, I/O, fault or history '
           'can influence them, so there is nothing for a simulator to decide. (That sizes and the codec agree on '
           'what is supported is exercised in C03 and C08.)',
    'C25': 'Pure arithmetic on arrays, with no schedule, I/O or fault to simulate, and the optimised paths are for ARM '
           'processors, for which there is neither compiler nor emulator here.',
}
