"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/maec/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=a), note))


prop("C01", "Walks over an audio buffer visit every sample once, in the order they name",
     "For a buffer of any channel count and length, the frame-by-frame walk, the channel-by-channel walk and their reverse visit each sample exactly once in the order they stand for, and the sample, frame, channel and position they report belong together. "
     "Any mix of single steps, jumps forwards and backwards, moves to a channel or frame, comparisons and distances of a walk agrees with index arithmetic, and writing through a walk changes exactly the sample it is at. "
     "This holds for buffers whose size is fixed when compiled as well.",
     ["inputs", "histories"], "All channel counts and lengths, all sequences of iterator movements and accesses.",
     "The tests walk one buffer of fixed shape; they sample neither other channel counts and lengths nor mixed sequences of moves.",
     [I + "dsp/buffer.hpp", I + "audio_buffer.hpp"],
     [("SeqIterator position arithmetic", "include/maec/dsp/buffer.hpp: BaseBuffer::SeqIterator"), ("InterIterator position arithmetic", "include/maec/dsp/buffer.hpp: BaseBuffer::InterIterator"), ("BaseMAECIterator", "include/maec/dsp/buffer.hpp: BaseMAECIterator")],
     observe=["AudioBuffer begin/end iterators", "iterator get_index, get_channel, get_sample, set_channel, set_sample"])

prop("C02", "An audio buffer is an independent value",
     "A buffer holds exactly the samples last written to it at each channel and frame (and by flat position), across growing, shrinking, reserving, appending, copying, assigning and moving. "
     "Copies share nothing with what they were copied from, and the samples, channel count and sample rate travel together. "
     "New buffers are silent and have the size, channel count and rate they were asked for.",
     ["histories"], "Histories of operations on several buffers, elements of any type, any channel count and length.",
     "Tests exercise each operation once on one buffer; aliasing and stale metadata show only after particular sequences of copies, moves and writes.",
     [I + "dsp/buffer.hpp", I + "audio_buffer.hpp", "src/audio_buffer.cpp"],
     [("Buffer storage, channel and rate members", "include/maec/dsp/buffer.hpp: BaseBuffer, Buffer, StaticBuffer"), ("factories", "src/audio_buffer.cpp: create_buffer")],
     observe=["Buffer at, size, channels, channel_capacity, get_samplerate"])

prop("C03", "Ring buffers wrap every index, in both directions",
     "Reading or writing a ring buffer at any integer index, however far below zero or past the end, addresses the element at that index modulo its size. "
     "Its iterators walk round it endlessly in both directions and agree with indexed access. "
     "Written as a delay line, it gives back the value of any number of steps ago that is within its size.",
     ["inputs", "histories"], "All sizes, all integer indexes, all histories of writes, resizes and moves.",
     "Tests use one size and indexes within a few laps; wrapping errors show at negative indexes, exact multiples and odd sizes.",
     [I + "dsp/buffer.hpp"],
     [("index wrapping", "include/maec/dsp/buffer.hpp: RingBuffer"), ("ring iterator", "include/maec/dsp/buffer.hpp: RingBuffer::RingIterator")])

prop("C04", "Sample and byte conversions are in range, ordered and reversible",
     "For every amplitude in [-1, 1] each integer sample format yields an in-range code within one quantisation step, conversions never reverse the order of amplitudes, full scale and silence map where documented, and converting a code to an amplitude and back returns the code. "
     "Byte encodings are little endian, touch exactly their bytes and decode to the same integer, for plain and unsigned bytes. "
     "Flattening a buffer to another format converts each sample exactly once and puts it in its place, in frame or in channel order.",
     ["inputs"], "All amplitudes in [-1, 1], all codes of all formats, all 16 and 32 bit integers, all buffer shapes.",
     "Tests convert a handful of values per format; off-by-one codes, sign extension and asymmetric scaling occur at specific codes and byte patterns.",
     [I + "audio_buffer.hpp", "src/audio_buffer.cpp"],
     [("mf_* and *_mf conversions", "src/audio_buffer.cpp"), ("byte conversions", "include/maec/audio_buffer.hpp: char_int16, int16_char, ..."), ("squish", "include/maec/audio_buffer.hpp: squish_inter, squish_seq")])

prop("C05", "Every convolution algorithm computes the same full linear convolution",
     "For a signal and a kernel of any lengths and values, each of the convolution algorithms - input side, output side and Fourier based - delivers all len+len-1 samples of the linear convolution. "
     "They agree with the defining sum, up to rounding for the Fourier based one. "
     "The two direct algorithms add to what their output already holds.",
     ["inputs"], "All lengths of signal and kernel (also kernels longer than the signal, and lengths around powers of two) and all sample values.",
     "Tests convolve one pair of fixed vectors; errors at the edges, for long kernels or certain transform sizes never come up.",
     [I + "dsp/conv.hpp", "src/dsp/conv.cpp"],
     [("input and output side loops", "include/maec/dsp/conv.hpp"), ("padding to transform sizes", "include/maec/dsp/conv.hpp: conv_fft")])

prop("C06", "Forward Fourier transforms equal the defining sum",
     "The slow and fast transforms of real and complex signals equal the sum that defines them, for every size they support, out of place, in place and with strides, in both sign conventions. "
     "They are linear, turn shifts into phase, and keep energy. "
     "Nothing outside of their output range is written.",
     ["inputs"], "All signal values and all supported lengths.",
     "Tests transform a fixed signal of one length; wrong twiddles, strides or halves for other lengths and signals are not reached.",
     [I + "dsp/ft.hpp", "src/dsp/ft.cpp", I + "dsp/util.hpp", "src/dsp/util.cpp"],
     [("radix 2 recursion", "dsp/ft.hpp: fft_c_radix2"), ("real packing", "dsp/ft.hpp: fft_r_radix2"), ("bit reversal", "dsp/util.hpp")])

prop("C07", "Inverse Fourier transforms undo the forward ones",
     "Transforming any signal and transforming the spectrum back gives the signal, for the slow and the fast transforms, real and complex, out of place and in place. "
     "The inverse of any spectrum equals the sum that defines it.",
     ["inputs"], "All signals and spectra of all supported lengths.",
     "Tests invert a fixed spectrum of one length; scaling, symmetry and middle-component errors depend on length and content.",
     [I + "dsp/ft.hpp", "src/dsp/ft.cpp"],
     [("inverse transforms", "dsp/ft.hpp: ifft_c_radix2, ifft_r_radix2, and the slow inverse")])

prop("C08", "Windows and kernel builders follow their formulas",
     "Every window function has the value of its formula at every point of every size, is symmetric, and stays in its range. "
     "Windowed sinc kernels of every odd size and cutoff follow the windowed sinc, are symmetric and pass a constant unchanged. "
     "Spectral inversion and reversal turn the response of a symmetric kernel over or round, and undo themselves when applied twice.",
     ["inputs"], "All window types, sizes and points; all odd kernel sizes and cutoffs; all symmetric kernels.",
     "Tests compare a few precomputed kernels; wrong coefficients, off-centre points or wrong normalisation at other sizes are not seen.",
     [I + "dsp/window.hpp", "src/dsp/window.cpp", I + "dsp/kernel.hpp", "src/dsp/kernel.cpp"],
     [("window functions", "dsp/window.hpp"), ("sinc kernel", "dsp/kernel.hpp: sinc_kernel"), ("spectral_inversion, spectral_reversal", "dsp/kernel.hpp")])

prop("C09", "Filtering a stream in blocks equals filtering the whole stream",
     "A convolution filter module in a chain gives, on each channel, exactly the convolution of the channel's whole stream with its kernel, however the stream is cut into blocks (blocks shorter than the kernel included) and with nothing carried over between channels. "
     "Two filters in a row equal one with the convolved kernel. "
     "After a stop and a start, a filter begins anew.",
     ["inputs", "histories"], "All kernels, streams, channel counts and ways of cutting the stream into blocks, and restarts.",
     "Tests filter few blocks of one size; the tail carried between blocks is wrong only for particular ratios of block and kernel lengths, several channels or restarts.",
     [I + "filter_module.hpp", I + "dsp/buffer.hpp", I + "dsp/conv.hpp"],
     [("overlap-add of the tail", "include/maec/filter_module.hpp: BaseConvFilter")],
     state=[("tail", "Samples that belong to later blocks", "include/maec/filter_module.hpp: BaseConvFilter")])

prop("C10", "A sinc filter passes and rejects the bands its settings name",
     "A sinc filter module configured as low pass, high pass, band pass or band reject, with any odd size and cutoff frequencies in hertz at any sample rate, has the frequency response its settings ask for: unity in its pass bands, silence in its stop bands, half at its cutoffs. "
     "Its impulse response is the documented windowed sinc construction, and settings changed while it is stopped take effect at its next start.",
     ["inputs", "configurations"], "All filter types, odd sizes, cutoffs and sample rates.",
     "Tests compare one kernel per type at one cutoff; mixing up of cutoffs, rates or types at other settings is not seen.",
     [I + "filter_module.hpp", I + "dsp/kernel.hpp"],
     [("kernel generation at start", "include/maec/filter_module.hpp: SincFilter")])

prop("C11", "Recursive filters compute their difference equation",
     "A recursive filter's output is the weighted sum of its last inputs and last outputs given by its coefficients, for every number of either kind of coefficient (none included) and however its input is split into calls, in place or not, for real and complex samples. "
     "Single pole low and high pass filters have unity gain in the pass band end and none at the other end, for every cutoff, and can be changed from one to the other. "
     "The frequency response computed from coefficients is the gain and phase that the filter with these coefficients applies.",
     ["inputs", "histories"], "All coefficient sets, all inputs and all ways of splitting them into calls.",
     "Tests run a filter of fixed coefficients on one vector; pairing and history errors need other counts of coefficients and several calls.",
     [I + "dsp/iir.hpp", "src/dsp/iir.cpp"],
     [("IIRFilter", "include/maec/dsp/iir.hpp: IIRFilter"), ("SinglePole", "include/maec/dsp/iir.hpp: SinglePole*"), ("iir_recursive_single, freq_response", "include/maec/dsp/iir.hpp")],
     state=[("history", "The last inputs and outputs", "include/maec/dsp/iir.hpp: IIRFilter")])

prop("C12", "Numeric building blocks equal their definitions",
     "Products of matrices of any shape, inner products, pointwise products, the packing of real into complex data, bit reversal and the basis functions of the transforms equal their mathematical definitions for every size and element type.",
     ["inputs"], "All sizes and values, integer, floating point and complex elements.",
     "Tests multiply a few fixed matrices and vectors; non-square shapes, narrow accumulators and other sizes are not reached.",
     [I + "dsp/util.hpp", "src/dsp/util.cpp", I + "dsp/matrix.hpp", I + "dsp/ft.hpp"],
     [("matrix_mult", "include/maec/dsp/matrix.hpp"), ("dot_product", "include/maec/dsp/matrix.hpp"), ("bit reversal", "include/maec/dsp/util.hpp")])

prop("C13", "A chain is the composition of its modules, once per pull",
     "Pulling a buffer from the end of a chain processes every module exactly once, from the source to the sink, and the buffer that arrives is the composition of the modules' effects on the stream, for chains of any length and make-up, linked when compiled or at run time. "
     "Both kinds of chain give the same samples, modules can be exchanged between pulls, and a period sink pulls its chain exactly as often as it is set to.",
     ["programs", "histories"], "All chains of modules, static and dynamic, all streams and relinkings between pulls.",
     "Tests build two or three fixed chains; double processing, lost buffers or skipped modules need particular positions and combinations.",
     [I + "audio_module.hpp", I + "sink_module.hpp", I + "source_module.hpp", I + "meta_audio.hpp", I + "meta.hpp", I + "base_module.hpp", "src/source_module.cpp", "src/sink_module.cpp"],
     [("meta_process", "include/maec/audio_module.hpp: AudioModule"), ("static links", "include/maec/meta_audio.hpp"), ("periods", "include/maec/sink_module.hpp: PeriodSink")])

prop("C14", "Starting, stopping and finishing reach every module of a chain",
     "Starting, stopping or finishing a chain of any shape takes every module of it to that state, each after the modules that feed it, even if modules bring hooks of their own. "
     "A chain counts its finished modules exactly: it is finished when all of its modules are, and never before.",
     ["programs", "histories"], "All trees of modules under a sink, all histories of start, stop, finish and pull.",
     "Tests start and stop a single module; branches of mixers, overridden hooks and repeated cycles are not reached.",
     [I + "audio_module.hpp", I + "base_module.hpp", "src/base_module.cpp", I + "module_mixer.hpp", I + "sink_module.hpp", I + "source_module.hpp"],
     [("meta_start, meta_stop, meta_finish", "include/maec/audio_module.hpp, module_mixer.hpp, sink_module.hpp"), ("done counting", "include/maec/audio_module.hpp: done; sink_module.hpp")],
     state=[("state", "Whether a module is created, started, stopped or finishing", "include/maec/base_module.hpp: BaseModule"), ("module_finish", "Number of finished modules of a chain", "include/maec/base_module.hpp: ChainInfo")])

prop("C15", "An info sync gives the whole chain the format of its sink",
     "After a sync every module behind a sink, through mixers and splitters, has the sink's sample rate, channel count and buffer size (as changed by modules on the way that ask for more), and the number of modules it reports is the number there is. "
     "The buffers the chain then produces have that format, also after syncing again with another one. "
     "Chains behind module parameters get the format of the module that owns the parameter.",
     ["programs", "configurations"], "All trees of modules and all sequences of formats.",
     "Tests sync one short chain once; the propagation through branches, splitters and parameters and repeated syncs is not reached.",
     [I + "audio_module.hpp", I + "sink_module.hpp", "src/sink_module.cpp", I + "module_mixer.hpp", "src/module_mixer.cpp", I + "module_param.hpp"],
     [("info_sync and meta_info_sync", "include/maec/audio_module.hpp, module_mixer.hpp, sink_module.hpp")],
     state=[("ModuleInfo, ChainInfo", "Format of a module and of its chain", "include/maec/base_module.hpp")])

prop("C16", "Mixing down sums its inputs, mixing up copies to every output",
     "A mix-down module's buffer is, sample by sample and channel by channel, the sum of the buffers of all of its inputs, for any number of inputs (silence for none) and nested to any depth. "
     "Each output of a mix-up module gets its own copy of the input's buffer, so what one output does with it is not seen by another.",
     ["programs", "inputs"], "All numbers of inputs and outputs, all blocks and formats, all nestings.",
     "Tests mix constant buffers of one format; positions, channels, lengths and aliasing of copies are not distinguished by constants.",
     [I + "module_mixer.hpp", "src/module_mixer.cpp", I + "dsp/buffer.hpp"],
     [("ModuleMixDown::process", "src/module_mixer.cpp"), ("ModuleMixUp::get_buffer", "include/maec/module_mixer.hpp, src/module_mixer.cpp"), ("buffer addition", "include/maec/dsp/buffer.hpp")])

prop("C17", "A module parameter delivers its constant or its chain's samples",
     "A parameter set to a constant delivers buffers filled with the constant in the format of its owner; linked to a chain it delivers that chain's samples, one block per request, with what was set last in effect. "
     "Starting and stopping the owner starts and stops the parameter's chain, each exactly once.",
     ["histories", "programs"], "All histories of setting constants, linking, configuring and requesting, and of starting and stopping owners.",
     "Tests set one constant and one module; switching back and forth and the life cycle through different kinds of owners are not reached.",
     [I + "module_param.hpp", "src/module_param.cpp", I + "audio_module.hpp"],
     [("ModuleParam set_constant, link, get", "include/maec/module_param.hpp, src/module_param.cpp"), ("parameter life cycle of owners", "include/maec/audio_module.hpp: add_param, meta_start, meta_stop")])

prop("C18", "Rebuffering keeps every sample, in order, exactly once",
     "A module that makes blocks of uniform size delivers the samples of its input stream in order, each exactly once and on its channel, in blocks of exactly the requested size, whatever sizes the input blocks have and if the requested size changes between pulls. "
     "A module that repeats a buffer gives the same samples on every pull, whatever was done to those it gave before, and a constant module fills all of each block.",
     ["inputs", "histories"], "All sequences of input block sizes, channel counts and requested sizes.",
     "Tests use one pair of sizes; leftovers spanning several blocks, several channels and changes of size are not reached.",
     [I + "meta_audio.hpp", "src/meta_audio.cpp"],
     [("UniformBuffer::meta_process", "src/meta_audio.cpp"), ("BufferModule, ConstModule", "include/maec/meta_audio.hpp, src/meta_audio.cpp")],
     state=[("leftover samples", "Part of an input block that was not delivered yet", "include/maec/meta_audio.hpp: UniformBuffer")])

prop("C19", "A parallel module delivers its chain's blocks in order, bounded, on any schedule",
     "For every interleaving of the background producer with consumers and controllers, a parallel module delivers the blocks of the chain behind it in order, none lost, repeated or torn, and holds at most as many as its queue may. "
     "Changing the length of the queue wakes the producer when there is room, and the module neither deadlocks nor races. "
     "Stopping returns once the producer is idle, from any state and on any thread, and the module can be started again.",
     ["schedules", "histories"], "All interleavings of producer, consumer and controller threads; all histories of pulls, queue lengths, stops and starts.",
     "Tests pull a few blocks on whatever schedule occurs; lost wake-ups, races at a stop and queue bounds depend on timing they do not provoke.",
     [I + "parallel.hpp"],
     [("queue, mutex and condition variable", "include/maec/parallel.hpp: ParallelModule"), ("stop protocol", "include/maec/parallel.hpp: meta_stop, stop")],
     state=[("queue", "Blocks that were produced and not pulled yet", "include/maec/parallel.hpp: ParallelModule")],
     note="Schedules are sampled: real threads with drawn delays, under AddressSanitizer and again under ThreadSanitizer; they are not enumerated.")

prop("C20", "Counters and latency modules report what went through the chain",
     "A counting module passes blocks through unchanged and reports the exact number of samples and of pulls since its last reset. "
     "A latency module passes blocks through unchanged, and its totals, averages and differences agree with each other, with the time of the audio that passed, and with the time the pulls took, for any block sizes, channel counts, rates and resets.",
     ["histories"], "All sequences of blocks, formats and resets, sources of any speed.",
     "Tests pull a few equal blocks; multi-channel time, averages after several pulls and resets are not reached.",
     [I + "meta_audio.hpp", "src/meta_audio.cpp", I + "chrono.hpp"],
     [("Counter", "include/maec/meta_audio.hpp"), ("LatencyModule", "include/maec/meta_audio.hpp, src/meta_audio.cpp")])

prop("C21", "Oscillators produce their waveform with no seams between blocks",
     "A sine, square, sawtooth or triangle oscillator gives at each frame the value of its waveform at frequency times frame position over sample rate, the same on every channel, for every frequency, start phase, sample rate and channel count. "
     "The samples do not depend on how the stream is cut into blocks, and all are in [-1, 1].",
     ["inputs", "histories"], "All waveforms, frequencies, phases, rates, channel counts and sequences of block sizes.",
     "Tests compare some mono blocks of one size at one frequency; seams, several channels and other phases are not reached.",
     [I + "fund_oscillator.hpp", "src/fund_oscillator.cpp", I + "base_oscillator.hpp", "src/base_oscillator.cpp"],
     [("waveform formulas", "src/fund_oscillator.cpp"), ("phase counting", "include/maec/base_oscillator.hpp")],
     state=[("phase", "Position in the stream", "include/maec/base_oscillator.hpp: BaseOscillator")])

prop("C22", "Modulated oscillators follow their frequency parameter frame by frame",
     "A modulated oscillator's phase advances at each frame by the frequency its parameter delivers for that frame over the sample rate, so its output is the waveform at the running sum, across block borders, for constant and changing (also negative) frequencies and any channel count. "
     "With a constant frequency it equals the plain oscillator of that frequency.",
     ["inputs", "histories"], "All sequences of frequencies, block sizes, rates and channel counts, all waveforms, modulators that are chains themselves.",
     "Tests use a constant frequency and mono blocks; the sum over changing frequencies and the alignment to frames are not reached.",
     [I + "fund_oscillator.hpp", "src/fund_oscillator.cpp", I + "base_oscillator.hpp", "src/base_oscillator.cpp", I + "module_param.hpp"],
     [("phase accumulation", "src/fund_oscillator.cpp, include/maec/base_oscillator.hpp")],
     state=[("phase", "Running sum of the frequency", "include/maec/base_oscillator.hpp")])

prop("C23", "Envelopes have the value of their shape at the time of every frame",
     "Constant, set-value, linear and exponential envelopes deliver at each frame the value of their shape between their start and stop times, the same on every channel, for all times, values, sample rates and ways of cutting the stream into blocks; a set value jumps at its stop time to within one frame. "
     "An envelope with a duration takes the times of its span from the position it is started at, each time it is started.",
     ["inputs", "histories"], "All shapes, values, times (also before, after and in between blocks and frames), rates, channel counts and block sizes.",
     "Tests run each shape mono in blocks of one size; several channels, stop times within or before a block and restarts are not reached.",
     [I + "envelope.hpp", "src/envelope.cpp", I + "chrono.hpp"],
     [("process of each shape", "src/envelope.cpp"), ("remaining samples", "include/maec/envelope.hpp: BaseEnvelope"), ("DurationEnvelope::start", "src/envelope.cpp")],
     state=[("timer", "Position in the stream", "include/maec/envelope.hpp: BaseEnvelope")])

prop("C24", "Chained envelopes form one gapless curve over time",
     "A chain of envelopes delivers at each frame the value of the envelope whose turn it is: the chain's start value before the first, each envelope until its stop time, the last stop value held in gaps and after the end, with no frame lost, repeated or shifted, on any channel count and however the stream is cut into blocks. "
     "This also holds for envelopes added while the chain runs, overlapping or shorter than a frame, and after a stop and start. "
     "An attack/decay/sustain envelope rises from 0 to 1 over its attack, falls to its sustain value over its decay and holds it.",
     ["inputs", "histories"], "All lists of envelopes, times and values, additions between blocks, rates, channel counts and block sizes.",
     "Tests chain two constants on whole blocks; switches within blocks, between frames, several channels and ramps are not reached.",
     [I + "envelope.hpp", "src/envelope.cpp"],
     [("ChainEnvelope::process and next_envelope", "src/envelope.cpp"), ("holds in gaps", "src/envelope.cpp: optimize, create_internal"), ("ADSREnvelope::start", "src/envelope.cpp")],
     state=[("current envelope", "The envelope whose turn it is", "include/maec/envelope.hpp: ChainEnvelope")],
     note="The release of an ADSR envelope is not implemented in the library (KNOWN_FINDINGS.txt) and not checked.")

prop("C25", "Chain timers keep exact stream time",
     "A chain timer's time is the number of whole frames counted so far times the nanoseconds per frame, exactly, for any rate, channel count and mix of single and bulk counting, for hours of audio, and does not depend on how the samples were grouped. "
     "The wall clock reading never goes back.",
     ["histories"], "All histories of counting, setting and reading a timer.",
     "Tests count one short sequence; overflow, channel rounding and grouping need long or mixed histories.",
     [I + "chrono.hpp", "src/chrono.cpp"],
     [("ChainTimer::get_time", "include/maec/chrono.hpp"), ("get_time", "src/chrono.cpp")],
     state=[("sample", "Samples counted, of all channels", "include/maec/chrono.hpp: ChainTimer")])

prop("C26", "Wave files give back the samples and format written to them",
     "Audio written as 8 or 16 bit wave data and read back, in memory or in a file, by a reader or a source in a chain, has the same channel count, sample rate, length and order of samples, however either side cuts it into blocks. "
     "Samples that the format can represent come back exactly, others to within one step; what follows the end is silence, and the end is reported with the last sample. "
     "Writing again what was read gives the same bytes.",
     ["inputs", "histories"], "All samples, channel counts, rates, both formats, all block sizes of writer and reader.",
     "Tests write and read one small file of fixed bytes; other channel counts, sizes, block splits and codes are not reached.",
     [I + "io/wav.hpp", "src/io/wav.cpp", I + "io/mstream.hpp", "src/io/mstream.cpp", "src/audio_buffer.cpp"],
     [("WaveWriter::write_data", "src/io/wav.cpp"), ("WaveReader::get_data", "src/io/wav.cpp"), ("WaveSource", "src/io/wav.cpp")])

prop("C27", "Reading wave data is right for every valid file and safe for any bytes",
     "Every well-formed wave file - with unknown chunks anywhere, padded odd sizes, extended formats, several data chunks, or lengths declared larger than what is there - is read to exactly its samples. "
     "For any other bytes the reader does not crash, hang or touch memory outside its buffers: it delivers only whole blocks with samples in [-1, 1] and reports an end. Files that are not of the RIFF WAVE kind are refused at once.",
     ["inputs"], "All well-formed files and all byte strings.",
     "Tests read a handful of hand-made files; the space of chunk layouts and damaged headers is far larger, and a bad size can hang or overrun.",
     [I + "io/wav.hpp", "src/io/wav.cpp", "src/io/mstream.cpp"],
     [("chunk loop", "src/io/wav.cpp: WaveReader::get_data, start, skip"), ("validation of the format", "src/io/wav.cpp: WaveReader::start")],
     state=[("total_read, chunk_read, needs_chunk", "Where the reader is", "include/maec/io/wav.hpp: WaveReader")],
     note="In 8 bit data that is cut off, the missing part of the last block is only required to be in range (KNOWN_FINDINGS.txt).")

prop("C28", "The headers of written wave data agree with its contents",
     "After any sequence of writes and a stop, the file is a well-formed wave: its declared total and data sizes are the actual ones, odd data is padded, and the channel count, rate, sample width, byte rate and frame size in its header agree with each other and with the data. "
     "Chunk headers of any contents encode to the documented little endian layout and decode to the same values, and byte rate and frame size follow the settings in whatever order they are set.",
     ["inputs", "histories"], "All formats, orders of settings, sequences of writes and header values.",
     "Tests compare one written file; sizes patched wrongly for other lengths or settings in another order are not seen.",
     [I + "io/wav.hpp", "src/io/wav.cpp"],
     [("WaveWriter::start and stop", "src/io/wav.cpp"), ("encode and decode of chunks", "src/io/wav.cpp"), ("BaseWave setters", "include/maec/io/wav.hpp")])

prop("C29", "Byte streams read and write exactly the bytes at their position",
     "Memory and file streams deliver exactly the bytes at their position, advance by what was read or written, seek to any position, overwrite and extend like a file does (a gap is filled with zeros), and never touch memory outside of the requested range. "
     "A stream that runs out of data delivers what is left and is then no longer good; missing files and unwritable paths put it in its error state.",
     ["histories", "inputs"], "All contents and all histories of reads, writes and seeks.",
     "Tests read and write one short array; partial reads at the end, seeks past the end and overlaps of old and new data are not reached.",
     [I + "io/mstream.hpp", "src/io/mstream.cpp"],
     [("CharIStream::read, CharOStream::write", "src/io/mstream.cpp"), ("FIStream, FOStream", "src/io/mstream.cpp")],
     state=[("index, state", "Position and state of a stream", "include/maec/io/mstream.hpp")])

prop("C30", "Amplitude modules change every sample by exactly their value",
     "A scaling module multiplies and an adding module increases every sample of every channel by the value it has at that moment, leaving the format of the buffer as it is, for blocks of any size and any number of such modules in a row.",
     ["inputs", "histories"], "All values, blocks, formats and chains, with values changed between blocks.",
     "Tests process one mono block with one value; other channels, sizes and changed values are not reached.",
     [I + "amp_module.hpp"],
     [("process", "include/maec/amp_module.hpp: AmplitudeScale, AmplitudeAdd")])

prop("C31", "A collection frees what it owns exactly once",
     "A collection keeps the objects given to it in order and alive, frees each exactly once - when it is freed, cleared, or the collection goes away - and never frees one that was released to the caller.",
     ["histories"], "All histories of adding, getting, freeing, releasing and clearing.",
     "Tests add and remove a few objects; ownership mistakes show as leaks or double frees only in particular sequences.",
     [I + "utils.hpp"],
     [("Collection", "include/maec/utils.hpp")])

prop("C32", "An ALSA sink plays every frame of its chain on a well-handled device",
     "An ALSA sink opens the device it was given, sets it up for interleaved 16 bit samples with the channels, rate and periods of its settings, gives its chain that channel count and rate, and sends every frame of every pulled block to it once, in order and interleaved; an underrun loses no more than the block it hits. "
     "Devices looked up by id and by name are described as the sound library describes them, with the values that were asked for where the device grants them, and count as failed if they cannot be opened. "
     "Every device that is opened is closed once and not used afterwards, and what the sound library hands out is given back.",
     ["inputs", "histories", "fault_sequences"], "All devices and settings, block sizes, places of underruns and histories of starts and stops.",
     "There are no tests of it, as they would need sound hardware; a stand-in for the sound library can be anything.",
     [I + "io/alsa_module.hpp", "src/io/alsa_module.cpp"],
     [("ALSASink", "src/io/alsa_module.cpp: ALSASink"), ("device handling", "src/io/alsa_module.cpp: ALSABase, DeviceInfo")],
     note="The sound library is a stand-in that follows its documentation.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note in P:
        pid = p["id"]
        tech = "property-based testing: stateful generated histories against a reference model" if "histories" in p["quantifier"]["over"] else "property-based testing: generated inputs against a reference"
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": tech + ", with shrinking and sanitizers",
            "level": "exploration",
            "level_note": ("Held on every case generated in the run (counts in the evidence); cases are random with a seed, so what was not generated is not covered. Trusts the reference in props/%s.cpp, the compiler and its sanitizers. " % pid + (note or "")).strip(),
        })
    man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "One driver per property in props/, on the engine in fw/pbt.hpp; check.py builds it with the sources of /repo and writes the evidence. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    assert all(len(p["title"]) <= 80 for p, _ in P), [p["title"] for p, _ in P if len(p["title"]) > 80]


main()
