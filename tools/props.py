#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
H = "include/maec/"

# ---- chains ------------------------------------------------------------------
p("A01", "A processing pass runs each module of a chain once, in signal order",
  "In every chain made of a sink, any number of intermediate modules and a source, one processing pass from the sink runs each module's processing step exactly once (once per period for sinks with several periods), upstream before downstream, and hands each module exactly the buffer its upstream neighbour just produced. Hence the buffer left at the sink is the composition of the modules' transformations in link order applied to the source's block, on every pass, with no stale, lost or shared samples. This holds alike for chains linked at run time, chains whose upstream module is embedded at compile time, mixtures of both, and chains that are re-linked between passes. (Chains are trees: no module has two consumers, except where a fan-out provides for it.)",
  ["programs", "histories"], "every chain shape up to a length, every mixture of run-time and compile-time links, every sequence of passes and re-links",
  "The tests process two or three fixed chains once; the guarantee is about all shapes and all later passes.",
  [H+"audio_module.hpp", H+"sink_module.hpp", H+"source_module.hpp", "src/sink_module.cpp", "src/source_module.cpp", "src/base_module.cpp"],
  [("pull-model recursion", H+"audio_module.hpp AudioModule::meta_process"), ("period loop", "src/sink_module.cpp PeriodSink::meta_process"), ("buffer hand-over", "src/base_module.cpp set_buffer/get_buffer")],
  ["order of process() calls recorded by probe modules", "get_buffer() at the sink"])

p("A02", "Start, stop and finish reach every module of a chain",
  "Starting, stopping or finishing a chain from its front module invokes every module's own start, stop or finish hook exactly once per request, upstream before downstream, however these requests are ordered or repeated. Afterwards every module in the chain, sources included, reports the corresponding state: started, stopped, or (for modules that need no time to wind down) finished, while modules that defer their completion report finishing until they declare themselves done. Once a chain has been synchronised, each completion of a finish request adds exactly one to the chain's shared count of finished modules.",
  ["programs", "histories"], "every chain shape up to a length x every sequence of start/stop/finish requests up to a depth",
  "Tests issue each request once on one fixed chain and look at one module.",
  [H+"audio_module.hpp", H+"base_module.hpp", "src/base_module.cpp", H+"source_module.hpp", H+"module_mixer.hpp"],
  [("recursive state operations", H+"audio_module.hpp meta_start/meta_stop/meta_finish"), ("completion count", "src/base_module.cpp BaseModule::done")],
  ["get_state() of every module", "hook calls recorded by probes", "finished count in the chain record"])

p("A03", "Synchronising a chain gives every module the same settings",
  "After the settings of a chain are synchronised from its sink, every module of the chain (including all inputs of fan-in modules and modules embedded at compile time) has the sink's sample rate, channel count and block size, and refers to the sink's shared chain record. That record then counts exactly the modules present in the chain, no matter how often the chain has been synchronised before, or how it was re-linked or reconfigured in between. A block produced by the chain after synchronisation has the configured size, channel count and sample rate.",
  ["programs", "histories", "configurations"], "every chain shape up to a size x every settings combination from a small domain x every sequence of re-configure/re-link/sync up to a depth",
  "Tests sync one chain once with one set of values.",
  [H+"audio_module.hpp", H+"sink_module.hpp", H+"base_module.hpp", "src/base_module.cpp", "src/module_mixer.cpp"],
  [("settings copied from the forward module", H+"audio_module.hpp AudioModule::info_sync"), ("sink seeds from its chain record", H+"sink_module.hpp SinkModule::info_sync"), ("output block reservation", "src/base_module.cpp BaseModule::reserve")],
  ["get_info() / get_chain_info() of every module", "shape of produced buffers"])

p("A04", "A chain renders the same stream whatever the block size",
  "The stream of frames a chain of supplied modules delivers (concatenating its blocks) depends only on its sources and stages: it equals the sample-by-sample composition of what each source emits and each stage does, for every block size, every change of the block size (with a settings sync) between passes, and every channel count. Measuring, re-blocking, single-input mixing and fan-out stages inserted anywhere leave it unchanged, and every block has exactly the configured number of frames and channels and the configured sample rate.",
  ["programs", "configurations", "histories"], "every source x every short sequence of stages x every division of a short stream into blocks",
  "Tests exercise each module alone with one block size.",
  ["src/source_module.cpp", "src/amp_module.cpp", "src/module_mixer.cpp", "src/meta_audio.cpp", "src/fund_oscillator.cpp", "src/envelope.cpp", H+"filter_module.hpp", H+"io/wav.hpp", H+"audio_module.hpp"],
  [("block reservation", "src/base_module.cpp BaseModule::reserve"), ("processing pass", H+"audio_module.hpp AudioModule::meta_process"), ("stream state of sources and filters", "src/base_oscillator.cpp, src/envelope.cpp, include/maec/filter_module.hpp")],
  ["concatenated output blocks", "shape of produced blocks", "counts reported by measuring stages"])

# ---- mixers ------------------------------------------------------------------
p("B01", "A fan-in outputs the exact sum of its inputs, each pulled once per pass",
  "For any number of inputs, channels and block sizes, one pass over a fan-in module runs every input chain exactly once, in the order they were attached, and outputs a block of the configured size whose every sample is the sum of the corresponding samples of all inputs. Inputs delivering fewer samples than the block contribute silence for the missing part and surplus samples are ignored. Nothing from an earlier pass leaks into a later one, and start, stop, finish and settings requests reach every input in attachment order.",
  ["programs", "inputs", "histories"], "all input counts, channel counts, input block lengths and pass counts within small bounds",
  "Tests mix constant equal-sized mono blocks.",
  [H+"module_mixer.hpp", "src/module_mixer.cpp"],
  [("sum over collected buffers", "src/module_mixer.cpp ModuleMixDown::process"), ("collection of inputs", "src/module_mixer.cpp ModuleMixDown::meta_process")],
  ["get_buffer() after a pass", "call counts of input probes"])

p("B02", "Every consumer of a fan-out receives its own complete copy of the block",
  "After a fan-out module (alone or combined with a fan-in) has been processed, each consumer that collects its output gets a block with exactly the same number of samples, channel count, sample rate and values as the block that was fed in, for every block size and channel count. The copies are independent: a consumer changing or keeping its copy never alters what another consumer receives in that pass or a later one. A fan-out can be part of a chain whose settings are synchronised, started, stopped and finished like any other; it takes the settings of the consumer that synchronised it last.",
  ["programs", "inputs", "histories"], "all channel counts, block sizes, consumer counts, orders of collection/modification/passes within small bounds",
  "Tests fan out one mono constant block and never modify the copies.",
  [H+"module_mixer.hpp", "src/module_mixer.cpp"],
  [("copy per retrieval", "src/module_mixer.cpp ModuleMixUp::get_buffer"), ("list of consumers", "src/module_mixer.cpp ModuleMixUp::forward")],
  ["get_buffer() of the fan-out"])

# ---- parallel ----------------------------------------------------------------
p("C01", "A parallel section delivers every upstream block once, in order, bounded",
  "Under every thread schedule, the blocks handed to the consumer of a parallel section are exactly the upstream's blocks in production order, none lost, duplicated, torn or reordered, and the number of cached blocks never exceeds the configured limit. Blocks cached when the section is stopped stay available in order until it is restarted; a restart discards them and delivers only blocks produced after it. Changing the cache limit while the section runs takes effect without losing blocks: after enlarging it, production continues up to the new limit without waiting for the consumer; lowering it only delays the production of further blocks. (The limit is at least one; a block that is in production while the section is stopped is kept, one that is in production while it is restarted may be discarded.)",
  ["schedules", "histories"], "all interleavings of worker, consumer and controller up to a preemption bound, for all small operation sequences and cache limits",
  "The tests run one wall-clock schedule with long sleeps.",
  [H+"parallel.hpp"],
  [("bounded queue under a mutex and condition variable", H+"parallel.hpp run_thread / meta_process"), ("restart clears the cache", H+"parallel.hpp start")],
  ["values of consumed blocks", "size() at every step"])

p("C02", "Starting and stopping a parallel section always terminates",
  "Under every thread schedule, starting, processing, stopping, restarting and destroying a parallel section complete: no lost wake-up, deadlock, double join or process abort, however start, stop and destruction are ordered or repeated. A consumer that is waiting for a block when the section is stopped is released. Once a stop has returned the background worker is gone and upstream processing has ceased. (Start and stop requests come from one thread at a time and not from inside the processing of the section itself.)",
  ["schedules", "histories"], "all interleavings up to a preemption bound of worker, consumer and controller threads for all small sequences of start/stop/process/destroy",
  "A lost wake-up needs one specific preemption; the tests never exercise it, nor destruction or double start.",
  [H+"parallel.hpp"],
  [("stop flag + notification + join", H+"parallel.hpp stop"), ("condition wait predicates", H+"parallel.hpp run_thread / meta_process")],
  ["termination of each call", "state of the worker after stop"])

p("C03", "Upstream modules of a parallel section are only touched by one thread at a time",
  "While a parallel section runs, no upstream module is ever processed by the background worker at the same time as a start, stop, finish or settings request for that chain runs on the controlling thread, and no shared data of the section is accessed by two threads without synchronisation. In particular an upstream module is never processed after it has been stopped and before it has been started again. This holds for every thread schedule and every order of chain-wide requests, and every module that reports to be done is counted once, whichever thread it reports from.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of the worker and chain-wide operations",
  "Data races and process-after-stop depend on the schedule; the tests only call stop on the section itself.",
  [H+"parallel.hpp", H+"audio_module.hpp"],
  [("state operations synchronous with processing", H+"parallel.hpp ParallelModule (class documentation), start/stop")],
  ["happens-before relation of all memory accesses", "upstream probe state during processing"])

# ---- parameters ----------------------------------------------------------------
p("D01", "A parameter always yields its configured constant or its modulating chain",
  "A module parameter bound to a constant always yields blocks of that constant; one bound to a module yields exactly that module's successive blocks, one per request, and re-binding takes effect at the next request in either direction. Once the owner has been synchronised, the blocks have the size and settings of the owner's input block; and for every number of parameters the owner's start, stop and settings synchronisation reach each modulating chain exactly once and before its values are used. Parameters of one module never influence each other.",
  ["programs", "histories", "configurations"], "all sequences of bind-constant/bind-module/sync/start/stop/get up to a depth over 1..3 parameters",
  "Tests bind each kind once.",
  [H+"module_param.hpp", "src/module_param.cpp"],
  [("constant wrapped as a module", "src/module_param.cpp ModuleParam::set_constant"), ("configuration of the modulating chain", "src/module_param.cpp"), ("fan-out over parameters", H+"module_param.hpp ParamMod")],
  ["blocks returned by get()", "probe modules bound to the parameter"])

# ---- oscillators -----------------------------------------------------------------
p("E01", "Oscillators emit one continuous waveform however it is cut into blocks",
  "For each oscillator shape, frequency, sample rate, phase and channel setting, the concatenation of successive output blocks is the oscillator's mathematical waveform sampled once per frame at consecutive positions from the start, the same in every channel, and does not depend on how the stream is divided into blocks. All values stay within [-1, 1]. Changing the frequency takes effect from the next block without restarting the position count.",
  ["inputs", "histories", "configurations"], "all block partitions of a short stream x small sets of shapes, frequencies, sample rates, phases",
  "Tests compare a single block at a single frequency.",
  [H+"fund_oscillator.hpp", "src/fund_oscillator.cpp", H+"base_oscillator.hpp"],
  [("running sample position", "src/fund_oscillator.cpp *Oscillator::process")],
  ["get_buffer() of each pass"])

p("E02", "Modulated oscillators follow their frequency input sample by sample",
  "A frequency-modulated oscillator's phase at each sample equals the sum of the frequencies supplied for all earlier samples divided by the sample rate, so its output is a function of the frequency stream only and not of how that stream or the output is divided into blocks. With a constant frequency it produces the same waveform as the unmodulated shape, and values stay within [-1, 1]. The frequency source is advanced exactly once per output block.",
  ["inputs", "histories", "configurations"], "all frequency sequences over a small alphabet and all block partitions of a short stream, for every shape",
  "Tests use one constant or one slow modulation.",
  [H+"fund_oscillator.hpp", "src/fund_oscillator.cpp"],
  [("phase accumulation", "src/fund_oscillator.cpp Mod*Oscillator::process")],
  ["get_buffer() of each pass"])

# ---- time & envelopes -------------------------------------------------------------
p("F01", "Chain time equals complete frames processed times the frame duration",
  "After any sequence of sample increments, additions, absolute settings and resets, a chain timer reports exactly the number of complete frames (samples divided by channels, rounded down) multiplied by the frame duration derived from the configured sample rate or set directly. Time never runs backwards while samples are only added, and equals the stateless conversion of the same sample count. Exceeding 32-bit nanoseconds (about two seconds) or long sessions do not distort it. (A reset also forgets the frame duration: a rate is configured again before time is asked for.)",
  ["histories", "configurations"], "all operation sequences up to a depth over a small alphabet of sample counts, channels and rates, including large counts",
  "Tests check a handful of values.",
  [H+"chrono.hpp", "src/chrono.cpp"], [("frame arithmetic", H+"chrono.hpp ChainTimer::get_time")], ["get_time(), get_sample()"])

p("F02", "An envelope's value depends only on chain time, not on block boundaries",
  "For every constant, jump, linear and exponential envelope and every division of the stream into blocks, the sample at chain time t is the defining function of t: constant value; start value until the stop time, then the stop value; and the linear or exponential interpolation between the two points, from the start to the stop time (exponential: between values other than zero of the same sign). A jump takes place in the frame that contains its stop time; the time of a frame is that of its first sample, on a timer configured for the rate and channels in use. Processing continues safely for blocks that begin, end or lie entirely before, on or after the stop time. A duration envelope behaves as the wrapped envelope placed at the moment it was started, for exactly its duration.",
  ["inputs", "histories", "configurations"], "all block partitions of a short stream x small sets of times (including off-frame), values, rates",
  "Tests use block boundaries that coincide with the envelope's end.",
  [H+"envelope.hpp", "src/envelope.cpp", H+"chrono.hpp"],
  [("per-sample formulas", "src/envelope.cpp LinearRamp/ExponentialRamp/SetValue/ConstantEnvelope::process"), ("envelope clock", "src/envelope.cpp BaseEnvelope::get_time_inc")],
  ["get_buffer() of each pass"])

p("F03", "An envelope chain plays its segments in order and holds values across gaps",
  "For any sequence of envelope segments and any division of the stream into blocks, an envelope chain outputs at each time the active segment's own value: segments in the order added, each until its stop time (a segment with a negative stop time is endless until the chain is told to move on; moving on when nothing is left changes nothing), the previous segment's final value between one segment's end and the next one's start and after the last, and the chain's start value before the first. Segments may be added before or while the chain is playing, may overlap or abut, and their times need not fall on sample boundaries. Clearing the chain removes every segment: it holds its start value until a segment added afterwards begins. Every block is completed with exactly the configured number of samples and processing always terminates.",
  ["histories", "inputs", "configurations"], "all lists of up to three segments over a small time grid (on and off sample boundaries), all block partitions, all insertion points of later segments",
  "Tests use segments aligned to whole blocks.",
  [H+"envelope.hpp", "src/envelope.cpp"],
  [("segment switching", "src/envelope.cpp ChainEnvelope::process / next_envelope"), ("gap filling", "src/envelope.cpp ChainEnvelope::optimize / create_internal")],
  ["get_buffer() of each pass"])

p("F04", "The attack-decay-sustain-release envelope follows its four stages",
  "Once started, an attack-decay-sustain-release envelope rises linearly from 0 to 1 over the attack time counted from the moment it was started, falls linearly to the sustain level over the decay time, and stays there until it is told to finish, whatever the block size and stage durations. After the finish request it ramps linearly from its current level to 0 over the release time and stays at 0, and only then reports itself finished. A finish request at any moment, including during attack or decay, is honoured.",
  ["histories", "configurations", "inputs"], "all block partitions, small stage durations (including zero), and finish points of a short stream",
  "No test covers this envelope at all.",
  [H+"envelope.hpp", "src/envelope.cpp"], [("stage construction", "src/envelope.cpp ADSREnvelope::start / finish")], ["get_buffer() of each pass", "get_state()"])

# ---- buffers ----------------------------------------------------------------------
p("G01", "All views of an audio buffer agree on which sample is where",
  "For every channel count and frame count (including empty buffers), interleaved, channel-sequential and indexed access address the same samples: frame-major order in storage, channel-major order when iterated sequentially, each sample visited exactly once by each traversal, forwards, backwards, read-only or writable. Position, channel and sample queries and seeks on iterators are consistent with that layout, and random steps and comparisons behave like integer positions. Writing through one view is seen through all the others and changes no other sample.",
  ["inputs", "histories"], "all shapes up to a size x all positions x all iterator moves",
  "Tests use one 3x3 style buffer.",
  [H+"dsp/buffer.hpp", H+"audio_buffer.hpp"],
  [("index resolution", H+"dsp/buffer.hpp SeqIterator/InterIterator::resolve_pointer"), ("at()", H+"dsp/buffer.hpp BaseBuffer::at")], ["values read through each view"])

p("G02", "Buffers keep their samples and settings through editing, copying and moving",
  "Under any sequence of construction, resizing, appending, clearing, assigning, copying and moving, a buffer holds exactly the samples a plain list subjected to the same operations would hold, its channel count and sample rate are kept and copied along, and frames-per-channel equals samples divided by channels. Copies are independent of the original. Flattening a buffer through the conversion helpers emits every sample once, in interleaved or channel-sequential order, transformed by the given conversion.",
  ["histories", "inputs"], "all operation sequences up to a depth over a small alphabet, compared to a list model after every step",
  "Tests check each operation once in isolation.",
  [H+"dsp/buffer.hpp", H+"audio_buffer.hpp", "src/audio_buffer.cpp"],
  [("container wrapper", H+"dsp/buffer.hpp Buffer / StaticBuffer"), ("squish helpers", H+"audio_buffer.hpp squish_inter / squish_seq")], ["size(), channels(), channel_capacity(), values"])

p("G03", "A ring buffer addresses its contents modulo its size in both directions",
  "For every size and every integer index, positive or negative, a ring buffer returns the element at that index modulo the size, so stepping past either end wraps around to the other. Iterators over the ring visit the same elements, wrap likewise in both directions, and writing through an index or an iterator changes exactly that one element. A full traversal from begin to end visits every element once.",
  ["inputs"], "all sizes up to a bound x all indices in a range several times the size, both signs",
  "Tests use non-negative indices on one size.",
  [H+"dsp/buffer.hpp", H+"dsp/iir.hpp"], [("index normalisation", H+"dsp/buffer.hpp RingBuffer::normalize_index")], ["operator[] and iterators"])

# ---- sample formats -----------------------------------------------------------------
p("H01", "Integer sample formats survive conversion to floating point and back",
  "For every representable value of each integer sample format (8 and 16 bit, signed and unsigned), converting to floating point and back returns the same value, and the floating-point value lies in [-1, 1]. The conversions in both directions are monotonic, map the extremes of one format to the extremes of the other, and err by at most one step of the integer format. ",
  ["inputs"], "all 2 x 2^8 + 2 x 2^16 integer values and all boundaries between neighbouring ones",
  "Tests check five values per format.",
  [H+"audio_buffer.hpp", "src/audio_buffer.cpp"], [("scaling", "src/audio_buffer.cpp mf_* / *_mf")], ["return values"])

p("H02", "Integers survive serialisation to little-endian bytes and back",
  "Writing a 16- or 32-bit integer, signed or unsigned, to bytes yields its little-endian two's-complement representation, and reading bytes yields the integer they represent, so that each direction inverts the other for every value and for byte sources of signed and unsigned type alike. Only the bytes of the value are touched. ",
  ["inputs"], "all 16-bit values and all 32-bit values formed from a boundary-byte alphabet in every position, for every byte type",
  "Tests check one value per width.",
  [H+"audio_buffer.hpp"], [("shifting", H+"audio_buffer.hpp char_int16 / char_int32 / char_uint32 / int16_char / int32_char / uint32_char")], ["return values, bytes written"])

# ---- streams -------------------------------------------------------------------------
p("J01", "In-memory streams behave as a byte array with a cursor",
  "Under any sequence of reads, writes and seeks, an in-memory stream is indistinguishable from an array of bytes with one cursor: reads return consecutive bytes from the cursor, writes overwrite at the cursor and extend the array at its end, seeks reposition, and the cursor advances by exactly the bytes transferred. A read that asks for more than remains never touches memory outside the data and is reported by the stream's state. The state starts clean and follows start and stop requests.",
  ["histories", "inputs"], "all operation sequences up to a depth with all small lengths and positions",
  "Tests do a few fixed reads and writes within bounds.",
  [H+"io/mstream.hpp", "src/io/mstream.cpp"], [("cursor arithmetic", H+"io/mstream.hpp CharIStream / CharOStream")], ["bytes read, array contents, tell(), state"])

p("J02", "File streams transfer exact bytes and report every failure in their state",
  "A file stream delivers exactly the file's bytes from the current position on and stores exactly the bytes written, for every sequence of reads, writes, seeks, starts and stops. Opening a missing or forbidden file, reading past the end, and failing writes leave the stream in a non-good state instead of crashing or looping, and after a stop everything written is in the file. Input and output through files and through memory give the same bytes for the same operations.",
  ["histories", "fault_sequences"], "all operation sequences up to a depth; all points at which the file can be missing, short or refuse writes",
  "Tests use one existing file.",
  [H+"io/mstream.hpp", "src/io/mstream.cpp"], [("state handling", "src/io/mstream.cpp FIStream / FOStream")], ["bytes, file contents, state"])

# ---- wav ----------------------------------------------------------------------------------
p("K01", "Reading a well-formed WAV file yields its exact format and samples",
  "For every well-formed PCM WAV stream, 8 or 16 bit, any channel count, any number of frames, with extra chunks of any size (even gigabytes) before, between or after the format and data chunks, the reader reports the file's format and delivers its samples in order, bit-exactly converted and channel-correct. The sequence of samples does not depend on the block size used to read it; the final block is filled up with silence and the end is then reported by the stream. Reading beyond the end only yields silence.",
  ["inputs", "configurations"], "all small files over an alphabet of chunk layouts, sizes, bit depths and channels x all block-size sequences",
  "Tests read one fixed file with one block size.",
  [H+"io/wav.hpp", "src/io/wav.cpp", H+"audio_buffer.hpp"],
  [("header parsing", "src/io/wav.cpp WaveReader::start / read_header"), ("chunk walking and decoding", "src/io/wav.cpp WaveReader::get_data")], ["format getters", "buffers returned"])

p("K02", "Writing a WAV file produces a consistent file that reads back identically",
  "For every format (8/16 bit, any channel count, sample rate) and every sequence of blocks written, the finished file has a valid header whose format fields, byte rate, block alignment and size fields agree with each other and with the data actually written. Reading it back gives the same format and, sample for sample, the values written, to within the precision of the bit depth. This holds up to the 4 GB its size fields can express. The file is complete once the writer has been stopped, whether it goes to memory or to disk, and the same writer can afterwards produce another valid file.",
  ["inputs", "histories", "configurations"], "all formats x all sequences of small blocks (values from a boundary alphabet) up to a depth",
  "Tests write one file and check some header fields.",
  [H+"io/wav.hpp", "src/io/wav.cpp", H+"audio_buffer.hpp"],
  [("header writing and size patching", "src/io/wav.cpp WaveWriter::start / stop"), ("encoding", "src/io/wav.cpp WaveWriter::write_data")], ["bytes of the file", "reader results"])

p("K03", "Malformed or truncated WAV input is handled without damage",
  "For every truncation of a valid WAV stream and every single corruption of its identifiers and size fields, starting the reader and requesting blocks terminates, reads no memory outside the supplied data, and returns blocks of exactly the requested size. An input without the RIFF and WAVE identifiers, or without a complete format chunk for uncompressed 8- or 16-bit samples of at least one channel, is known to be unusable as soon as reading has started. Once input is exhausted or unusable the stream's state is no longer good and further blocks are silent. Samples lying before the point of truncation, and those a damaged chunk elsewhere leaves complete, are still delivered correctly.",
  ["fault_sequences", "inputs"], "every truncation point and every single-field corruption of small files, from memory and from disk",
  "No test feeds damaged input.",
  [H+"io/wav.hpp", "src/io/wav.cpp", "src/io/mstream.cpp"],
  [("bounds and state checks", "src/io/wav.cpp WaveReader::get_data"), ("stream failure states", "src/io/mstream.cpp")], ["termination, memory accesses, buffers, state"])

p("K04", "A WAV source plays a file through a chain unchanged",
  "Placing a WAV file source at the start of a chain makes the blocks it delivers carry the file's channel count and sample rate, and successive passes deliver the file's samples in order in blocks of the chain's size, followed by silence. Starting, stopping and processing through the chain operate the underlying file exactly as direct reading does. This holds for every block size and format.",
  ["inputs", "configurations", "histories"], "all small files x block sizes x pass counts",
  "No test constructs the WAV source.",
  [H+"io/wav.hpp", "src/io/wav.cpp"], [("source wrapper", H+"io/wav.hpp WaveSource")], ["get_buffer() at the sink"])

# ---- dsp ---------------------------------------------------------------------------------
p("K05", "WAV chunk structures survive encoding and decoding byte for byte",
  "For every chunk header, RIFF header, format chunk and chunk of unknown type, encoding writes exactly the structure's size in bytes: the four characters of its identifier, its size and every further field in little-endian order, or the chunk's data. Decoding these bytes, from memory or from a stream that goes on behind them, restores every field and consumes exactly those bytes (for a format or unknown chunk, whose header has been read before, the part behind the header). A stream that ends within a structure is no longer good afterwards and nothing outside the given bytes is accessed.",
  ["inputs"], "all field values over an edge alphabet (16-bit fields completely), all identifiers over a four-letter alphabet, all data lengths up to a bound, all truncations",
  "Tests decode one canonical header.",
  [H+"io/wav.hpp", "src/io/wav.cpp", H+"audio_buffer.hpp"],
  [("chunk structures", H+"io/wav.hpp ChunkHeader, WavHeader, WavFormat, UnknownChunk"), ("encoding and decoding", "src/io/wav.cpp encode/decode")],
  ["bytes in the stream and its position", "fields of the decoded structure"])

p("L01", "Every convolution routine computes the mathematical convolution",
  "For all signal and kernel lengths, including length one and kernels longer than the signal, each provided convolution routine (input side, output side, on iterators or whole buffers) yields exactly signal length + kernel length - 1 samples equal to the discrete convolution, and hence all routines agree. Exchanging signal and kernel does not change the result. Inputs are not modified and nothing outside the result is written.",
  ["inputs"], "all length pairs up to a bound x unit-impulse and small-alphabet contents (complete by bilinearity)",
  "Tests convolve one pair of fixed signals.",
  [H+"dsp/conv.hpp", "src/dsp/conv.cpp"], [("convolution sums", H+"dsp/conv.hpp input_conv / output_conv")], ["result samples"])

p("L02", "Block-wise filtering equals filtering the whole stream at once",
  "Feeding a stream through a kernel filter module block by block yields, for every division into blocks (shorter or longer than the kernel) and every kernel, the leading part of the convolution of each channel of the whole stream with the kernel, with one output sample per input sample and the channel count and sample rate of the input. State carried from block to block neither loses, repeats nor shifts samples, and starting over, or blocks arriving with another channel count, begins with cleared state. When the kernel is replaced between blocks, what has been taken in rings out with the kernel it met. Low-pass and high-pass sinc kernels are the ones the configuration prescribes, whatever route they are selected through.",
  ["inputs", "histories", "configurations"], "all block partitions of short streams x kernels up to a length x impulse positions",
  "Tests have no multi-block filter check.",
  [H+"filter_module.hpp", H+"dsp/conv.hpp", H+"dsp/kernel.hpp"], [("overlap-add tail", H+"filter_module.hpp BaseConvFilter::process")], ["get_buffer() of each pass"])

p("L03", "Fast Fourier transforms equal the defining sum and invert exactly",
  "For every power-of-two size, each fast complex and real transform (in place or not, forward or inverse) returns what the defining discrete Fourier sum returns for the same input, within rounding. Applying a forward and then the matching inverse transform restores the input, including the smallest sizes (real transforms: from two points on). The input of the out-of-place forms is unchanged.",
  ["inputs"], "all power-of-two sizes up to a bound x all unit impulses in every position, real and imaginary (complete by linearity), plus small-alphabet signals exhaustively at small sizes",
  "Tests transform one fixed signal.",
  [H+"dsp/ft.hpp", "src/dsp/ft.cpp", H+"dsp/util.hpp"], [("butterflies and bit reversal", H+"dsp/ft.hpp fft_c_radix2 / fft_r_radix2 and inverses"), ("bit reversal", H+"dsp/util.hpp bit_reverse")], ["result arrays"])

p("L04", "Recursive filters implement their difference equation over whole streams",
  "Every recursive filter computes y[n] = sum of forward coefficients times current and earlier inputs plus sum of feedback coefficients times earlier outputs, with zero history before the first sample, for any coefficients and any stream length. The result does not depend on how the stream is divided into blocks or on whether a single-sample, in-place or out-of-place interface is used. Single-pole designs give the low-pass or high-pass coefficients their parameters prescribe.",
  ["inputs", "histories", "configurations"], "all coefficient counts and impulse positions within bounds x all block partitions",
  "The repository has no tests for recursive filters.",
  [H+"dsp/iir.hpp", "src/dsp/iir.cpp"], [("difference equation", H+"dsp/iir.hpp")], ["output samples"])

p("L05", "Windows and sinc kernels are complete, symmetric and correctly normalised",
  "For every length, each window function produces exactly that many samples of its defining formula, symmetric about the middle (a window of length one is 1). Sinc low-pass kernels of every odd length and cut-off are symmetric, finite at their centre, and pass constants with unit gain; spectral inversion complements a kernel's response to an all-pass, and spectral reversal shifts it by half the sampling rate. No function writes outside the range it is given.",
  ["inputs", "configurations"], "all lengths up to a bound x a grid of cut-off frequencies",
  "Tests check one length each.",
  [H+"dsp/window.hpp", "src/dsp/window.cpp", H+"dsp/kernel.hpp"], [("formulas", "src/dsp/window.cpp, include/maec/dsp/kernel.hpp")], ["arrays filled"])

# ---- io sink, meta, amp, util ------------------------------------------------------------
p("L06", "Spectrum, matrix and packing helpers compute their defining formulas",
  "The frequency response computed from a set of coefficients is the ratio of output to input which the recursive filter with these coefficients shows for a stationary oscillation, at every frequency; transform bins and hertz are mapped to frequencies and radians proportionally. The dot product of two sequences and the product of two matrices (a channel is a row, the samples at one position form a column) equal their defining sums for all sizes and values, fractions included, and the result is sized accordingly. Element-wise products, packing of real into complex signals, the sinc function and bit reversal (its own inverse) yield their definitions for every length; inputs stay unchanged and nothing outside the results is written.",
  ["inputs"], "all small coefficient sets and frequencies, all matrix shapes up to a bound with all single-entry pairs and all 2x2 products over four values, all lengths up to a bound",
  "The helpers have no tests.",
  [H+"dsp/iir.hpp", H+"dsp/matrix.hpp", H+"dsp/util.hpp", H+"dsp/ft.hpp", "src/dsp/util.cpp", "src/dsp/ft.cpp"],
  [("transfer function", H+"dsp/iir.hpp freq_response, freq_map"), ("sums of products", H+"dsp/matrix.hpp dot_product, matrix_mult"), ("packing", H+"dsp/util.hpp multiply_signals, real_complex_naive, real_eop_complex, bit_reverse")],
  ["returned values and written ranges"])

p("M01", "The ALSA sink plays every sample exactly once despite device hiccups",
  "For every answer of the audio device (complete and partial writes, underruns, transient errors), every sample of every processed block is passed to the device exactly once, in order, correctly interleaved for the number of channels, and the sink never reads outside the block. The chain takes the channel count and sample rate of the selected device when it is synchronised; the device is opened, configured with these settings, and closed exactly once per start/stop cycle and never used after being closed. Failure to find, open or configure the device is reported in the device information and does not crash later calls.",
  ["fault_sequences", "histories", "configurations"], "all sequences of device answers up to a number of deviations from success x channels x block sizes x start/stop histories",
  "There is no audio device in test environments; the tests cannot run it.",
  [H+"io/alsa_module.hpp", "src/io/alsa_module.cpp"], [("write loop", "src/io/alsa_module.cpp ALSASink::process"), ("device life cycle", "src/io/alsa_module.cpp ALSABase")], ["calls received by the device"])

p("M02", "Measuring modules count exactly and never alter the signal",
  "Counting and latency-measuring modules pass every block through unchanged in samples, channel count and sample rate, and after any sequence of passes and resets report exactly the number of passes and samples seen since the last reset. Measured totals equal the sum of the individual measurements, averages equal totals divided by passes, and the expected time equals the duration of the audio passed, each block at its own sample rate and channel count; without any pass everything is zero. This holds for every block size and channel count.",
  ["histories", "inputs"], "all sequences of passes (with varying block shapes) and resets up to a depth",
  "Tests count mono blocks of one size.",
  [H+"meta_audio.hpp", "src/meta_audio.cpp"], [("counters", "src/meta_audio.cpp Counter::process / LatencyModule::meta_process")], ["counters, get_buffer()"])

p("M03", "Re-blocking preserves the sample stream for all block sizes",
  "A re-blocking module turns an upstream that delivers blocks of any, even varying, sizes into blocks of exactly the configured size and channel count whose concatenation is the upstream's sample stream, without loss, repetition or reordering. It pulls upstream only when it needs more samples. On every pass a repeating-buffer source emits the given buffer's content from its beginning (cut off or followed by silence where the sizes differ), and a constant source the constant, in complete blocks of the configured size, leaving the given buffer untouched.",
  ["inputs", "histories", "configurations"], "all sequences of upstream block sizes and output block sizes within bounds, 1..2 channels",
  "Tests use one smaller, one equal and one larger size.",
  [H+"meta_audio.hpp", "src/meta_audio.cpp"], [("carry-over between blocks", "src/meta_audio.cpp UniformBuffer::process"), ("buffer replay", "src/meta_audio.cpp BufferModule::process")], ["get_buffer() of each pass", "upstream pass count"])

p("M04", "Amplitude modules scale or offset every sample and nothing else",
  "An amplitude scaling (or offset) module outputs a block of the same shape in which each sample is the input sample times (plus) the configured value, for every block size, channel count and value, whether its upstream is linked at run time or embedded at compile time. A changed value applies to all samples from the next pass on. Cascades of such modules compose arithmetically in link order.",
  ["inputs", "histories", "configurations"], "all cascades up to a length over a small value alphabet x block shapes x value changes between passes",
  "Tests use one constant block.",
  [H+"amp_module.hpp", "src/amp_module.cpp"], [("per-sample operation", H+"amp_module.hpp")], ["get_buffer()"])

p("M05", "A collection owns each object exactly once",
  "Under any sequence of adding, retrieving, releasing and clearing, a collection holds the objects in the order added, every object is destroyed exactly once, by the collection if it still owns it and by the caller if it was handed back. Releasing an object leaves an empty position behind, freeing one removes its position. Retrieval never changes ownership. Counts and positions always match the sequence of operations.",
  ["histories"], "all operation sequences up to a depth",
  "Tests perform each operation once.",
  [H+"utils.hpp"], [("ownership vector", H+"utils.hpp Collection")], ["destructor counts, num(), get()"])

for x in P:
    x["statement"] = x["statement"].strip()
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
