"""Registered checks: what is compiled, explored and reported for each property."""
COMMON = {
    "flags": ["-std=c++23", "-DALSA_F=1", "-DFFTW=1", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "lib_flags": ["-O1"],
    "link": ["-fsanitize=address", "-lpthread", "-lasound"],
    "assumptions": [
        "bounded: only the alphabets and depths stated in coverage.rule are explored (exhaustively)",
        "the compiler (g++ 13, -O1, AddressSanitizer) and libstdc++ are trusted; the reference model in the harness is the oracle",
    ],
}
CHECKS = {}
def check(id, harness, bounds, technique="stateless model checking of the implementation: exhaustive bounded enumeration against a reference model",
          note="Exhaustive within the stated bounds on the real code; nothing is claimed beyond them.", **kw):
    CHECKS[id] = dict(harness=harness if isinstance(harness, list) else [harness], bounds=bounds, technique=technique, note=note, **kw)

check("G01", "g01.cpp", "channels 1..4 (thorough 6) x frames 0..4 (thorough 6) x {dynamic, static} buffers x every pair of positions x every "
      "iterator move/compare/seek operation; every traversal (interleaved/sequential, forward/reverse, const/mutable) compared with the frame-major layout")
check("G02", "g02.cpp", "all sequences of up to 4 (thorough 5) editing/copy/move operations over a 21-operation alphabet on two buffers; all shapes for conversion helpers")
check("G03", "g03.cpp", "ring sizes 1..9 (thorough 17) x all indices in [-4*size, 4*size] x index/iterator moves of both signs, reads and writes")
check("H01", "h01.cpp", "every value of int8/uint8/int16/uint16 converted to floating point and back; float-to-integer on every exact step, its two neighbouring doubles and 4 (thorough 16) points in between, whole range [-1,1]")
check("H02", "h02.cpp", "all 65536 16-bit values and all 32-bit values over a 24-value byte alphabet (thorough: all 2^32), through char/unsigned char/signed char pointers and vector iterators, with guard bytes")
check("J01", "j01.cpp", "all sequences of 5 (thorough 6) operations over 13 input / 12 output operations (reads/writes of 0..7 bytes, seeks incl. past the end, start, stop) on streams of 0..3 bytes built in 3 ways; all write/read partitions of up to 4 pieces")
check("J02", "j02.cpp", "all sequences of 4 (thorough 5) operations on existing/empty/missing/directory input paths and 5 (thorough 6) on output paths, files around the library buffer size in several chunkings, /dev/full, forbidden files; compared with an array model and the memory streams")
check("K01", "k01.cpp", "all chunk layouts (junk of size 0/even/odd/large before fmt, in between, between data chunks, after; fmt extensions of 0/2/3/24 bytes; split data) x 8/16 bit x 1..3 channels x 0..3 frames x block sizes 1..3 "
      "(thorough 4/4); all divisions of 0..5 frames into blocks of 1..4 frames on memory and disk (thorough 7 frames, 6 channels); all 65536+256 stored values; 49 channel counts up to 65535 x 7 rates up to 2^31-1; restarts")
check("K02", "k02.cpp", "all histories of 1..2 files per writer (new or same stream, memory or disk) of 0..3 blocks of 0..3 frames x 8/16 bit x 1..3 channels x setter orders (thorough 4 channels, all orders); files up to 70000 frames; 131072 sample values per format; 49 channel counts up to 65535 x 10 rates up to 2^31-1; parsed by an independent parser and read back")
check("K03", "k03.cpp", "16 base files (8/16 bit x 1/2 channels x 4 chunk layouts) x every truncation length x block sizes; every size field x 29 values; every identifier x 22 corruptions; every format byte x 14 values; size+truncation pairs; every block sample compared with an independent parse of the damaged bytes; on memory and on disk; AddressSanitizer on exact allocations")
check("A01", "a01.cpp", "all chains of up to 4 (thorough 5) modules from a 12-production grammar (user modules, static dispatch, embedded upstreams, counters, amplitude, fan-in/out, sources) x 5 sinks (periods 1..3, embedded) x block shapes x 2-3 passes; "
      "all histories of 3 (thorough 4) re-linkings over ordered selections of modules; replaced embedded upstreams")
check("K05", "k05.cpp", "chunk, RIFF and format headers over all 625 size words from a 5-value byte alphabet and 262 identifiers, every 16-bit field value (quick: every fifth and the edges) and 625 values of each 32-bit field over 3 backgrounds, unknown chunks of 0..40 (thorough 70) bytes, every truncation, each inside a longer stream; AddressSanitizer")
check("K04", "k04.cpp", "all files of 8/16 bit x 1..2 channels x 0..3 frames x 3 chunk layouts x 2 rates x memory/disk x 6 chains (direct, pass-through, measured, embedded, replaced embedded, period sink) x blocks of 1..3 frames x chain settings (thorough 3 channels, 5 frames); all sequences of 5 (thorough 6) process/reconfigure/start/stop operations")
check("A02", "a02.cpp", "all linear chains of up to 3 modules and all fan-in/out chains of up to 2 (12-production grammar) x 3 sinks x all/none/one modules deferring completion x all sequences of 2..3 (thorough 3..4) start/stop/finish/process/done requests from the sink or the module behind it; "
      "all chains of 3 modules with fans and linear chains of 4 (thorough 5) x every request (thorough pair for linear); all sequences of 5 (thorough 7) requests on linear chains of up to 2 modules")
check("A03", "a03.cpp", "all linear chains of up to 4 (thorough 5) modules and fan-in/out chains of up to 3 (12-production grammar) x 3 sinks x 3 (linear: 7) sequences of two configurations (rate, channels, block size incl. 0) with repeated syncs; "
      "all sequences of 6 (thorough 7) operations out of configure/sync/re-link/add-input/replace-source/process/start+stop")
check("A04", "a04.cpp", "11 sources (oscillators, FM, envelopes, a WAV file, two of a user's own) x all chains of 0..2 (thorough 3) of 13 stages (amplitude, FIR filters, measuring, re-blocking, fan-ins of 1..3, fan-outs) x 1..2 (thorough 3) channels x all divisions of 6 (thorough 8) frames with the block size reconfigured and re-synchronised between passes; "
      "all chains of 3 (thorough 3..4) stages under 3 (thorough 5) block patterns of 8 frames; all pairs of branches (source and stage each) merged, with 2 (thorough 13) stages behind")
check("B01", "b01.cpp", "fan-ins with 0..3 (thorough 4) inputs, directly or behind a module, x 0..3 frames x 1..3 channels x every combination of exact/shorter/empty/longer input blocks over 1..3 passes x plain and combined fan; "
      "all sequences of 8 (thorough 9) operations attaching inputs to nested fan-ins, reconfiguring, synchronising and processing")
check("B02", "b02.cpp", "all sequences of 5..7 (thorough +1) new-block/collect/modify operations by 1..3 consumers over 4 block shapes (empty to 3 channels), on plain and combined fans; "
      "1..3 sinks sharing a fan-out x 1..3 frames x 1..3 channels x all sequences of 5 (thorough 6) sync/start/stop/finish/process requests from any of them")
check("D01", "d01.cpp", "1..3 parameters on parameterised modules, sinks and sources x input blocks scaled by 1..2 x all sequences of 5..6 (thorough +1) bind-constant (new or initial value, none exactly representable in single precision)/bind-module (direct or behind a module)/reconfigure+sync/start/stop/process operations; stand-alone parameters with all sequences of 6 (thorough 7) operations; all pairs of 15 extreme constants (signed zeros, denormals, beyond 2^53, largest) through every way of giving them")
check("E01", "e01.cpp", "4 shapes x 3 ways of construction x frequencies {0,1,3,440.1,-1,2.7} x 2 sample rates x 4 phases x 1..3 (thorough 4) channels x all divisions of 6 (thorough 8) frames into blocks of 0..3 (4) frames, with and without frequency changes between any blocks; 4 shapes x 65 (thorough 129) frequencies up to (thorough 3.5x) the sampling rate x 4 rates x 3 start positions x 70 frames")
check("E02", "e02.cpp", "4 shapes x all sequences of 5 (thorough 6) frequencies from {0,1,3.1,-2,6.5} x all divisions into blocks of 1..3 frames x 1..2 channels x 2 rates x 3 phases x direct/indirect modulators; constant frequencies x constructors x all divisions of 7 (thorough 9) frames with re-binding between any blocks")
check("F01", "f01.cpp", "all sequences of 6 (thorough 7) operations over an 18-operation alphabet (increment, add 0..2^31-1, set, rates, frame durations, channel counts, reset); every sample of streams of 1..4 (thorough 8) channels x 7 rates x 4 start positions (beyond 2^31) x block sizes 1..9")
check("F02", "f02.cpp", "constant/jump/linear/exponential envelopes x 4 value pairs x 4 start and 5 stop times (on and off frames) x 2 frame durations x 1..2 (thorough 3) channels x 3 positions x all divisions of 6 (thorough 8) frames into blocks of 0..3 (4), "
      "with a jump to another position between any two blocks; long runs beyond 32-bit nanoseconds; duration envelopes (around ramps, jumps, other duration envelopes, stages and envelopes of the user) started again between any two blocks")
check("F03", "f03.cpp", "all chains of 0..2 segments (constant/jump/linear, thorough exponential) with start and stop times on a half-frame grid of 0..4 frames, of 3 segments on 5 (thorough 6) grid points, in every division of 4 frames into blocks of 1..3, every segment added before the start or between any two blocks; "
      "1..2 (thorough 4) channels, late starts and restarts; endless segments left at any time; chains emptied and refilled at any boundary; moving on up to 2 (thorough 3) times after everything is over, with and without a later segment; emptied chains refilled with 2..3 segments 0..2 frames apart")
check("F04", "f04.cpp", "attack, decay and release of 0..4 (thorough 6) half frames x 3 sustain levels x finish requests at every moment of 5 (thorough 7) frames x every division into blocks of 1..3 frames x 2 start times; all sequences of 5 (thorough 7) start/finish/finish again/stop/process operations with 1..2 channels, both constructions; realistic notes up to 9.5 s")
check("L01", "l01.cpp", "all length pairs up to 10x10 (thorough 20x20) x all impulse positions, all contents over {-1,0,2} of signals up to 4 (thorough 5) and kernels up to 4 samples, all length pairs up to 70x70 (thorough 150x150) with dense contents x 11 routines and interfaces, both argument orders, guard samples")
check("L02", "l02.cpp", "all kernels of 1..5 (thorough 6) points (each impulse and a dense one) x streams of 6 (thorough 8) frames (each impulse and a dense one) x 1..2 channels x all divisions into blocks of 0..4 (thorough 8) frames, kernel given or generated; 2 (thorough 3) sessions with changing format and kernel; all sequences of 4 (thorough 5) blocks of 0..4 frames with the kernel (1, 2, 5 points) or the channel count changed between any of them; two filters in series; sinc filters: 4 types x 4 sizes x 2 rates x 8 cut-off pairs, linked and embedded, configured before or after synchronising, after another session")
check("L03", "l03.cpp", "all power-of-two sizes up to 256 (thorough 1024; real transforms 512/2048) x all impulse positions, real and imaginary; all signals of up to 4 complex points over 6 values, 8 real points over 3..4 values; dense signals up to 512 (thorough 2048); plain transforms of all sizes up to 40 (thorough 70)")
check("L04", "l04.cpp", "all filters of 0..4 (thorough 5) forward and feedback coefficients (each single one and all) x impulses and a dense stream x all divisions into blocks of 0..2 (thorough 3) and one last block x in place/out of place x 3 ways of construction; streams of 70000 (thorough 400000) samples, and of 4 million (thorough 5.4 billion) integers compared exactly; single-pole designs over 26 (thorough 51) cut-offs")
check("L05", "l05.cpp", "5 windows x all lengths up to 400 (thorough 1200), parameters in 21 steps; sinc kernels of all odd lengths up to 79 (thorough 199) x 41 (thorough 101) cut-offs x 6 windows, with inversion and reversal compared in the frequency domain; all impulses through inversion and reversal up to length 59 (thorough 119), and of even lengths up to 80 (thorough 200) with guards around every range")
check("L06", "l06.cpp", "frequency responses of all filters of 0..3 (thorough 4) forward (3 values each) and feedback (3 values) coefficients x 17 (thorough 33) frequencies against the running filter; all matrix shapes up to 4x4 by 4x4 (thorough 5) with every single-entry pair and dense entries, all 65536 2x2 products over four values; dot products of 0..5 (thorough 6) values over 3x3 values; element-wise helpers of 0..9 (thorough 17) values; bit reversal up to 2^11 (thorough 2^14)")
check("M02", "m02.cpp", "counting and latency modules x 1..3 (thorough 4) channels x 2..3 rates x all sequences of 5 (thorough 6) operations (passes of 0..3 frames taking 0..3 s of a virtual clock, reset, start, time passing, changed rate, changed channels), direct, indirect and stacked; synchronised chains of 0..12 (thorough 40) frames")
check("M03", "m03.cpp", "re-blocking: all sequences of upstream block sizes 0..4 (thorough 5) x block sizes 0..4 (5) x 1..3 channels, block size changed between passes, two modules in a synchronised chain, realistic sizes; repeating buffers of 0..4 frames in blocks of 0..6, replaced between passes; constant sources under all sequences of 4 (thorough 5) operations")
check("M04", "m04.cpp", "both modules x 8 values x 1..4 (thorough 6) channels x 0..5 (thorough 9) frames x linked/embedded upstream x every change of value; all cascades of up to 3 (linked and embedded) with a value changed before any pass; all sequences of 6 (thorough 7) start/stop/value/reconfigure/process operations")
check("M05", "m05.cpp", "all sequences of 8 (thorough 9) add/release/free/clear/destroy/hand-back operations with instrumented objects and base-class pointers; collections of up to 30 objects; AddressSanitizer")
check("M01", "m01.cpp", "a modelled device replacing the ALSA library, whose drain or release requests may fail too: every sequence of answers (complete, partial and empty writes, underrun, interruption, busy, suspension, disconnection) with up to 4 (thorough 5) hiccups over 2 passes x 1..2 (thorough 3) channels x 1..3 frames x 1..2 periods; "
      "all sequences of 5 (thorough 6) start/failing start/process/stop/reconfigure requests with a failure at every configuration step; unconstrained settings; device look-up", technique="stateless model checking of the implementation against an exhaustively enumerated environment model (the audio device)")

SCHED = dict(
    flags=["-std=c++23", "-DALSA_F=1", "-DFFTW=1", "-w", "-fno-omit-frame-pointer", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign"],
    lib_flags=["-O1", "-fsanitize=thread"], mc_flags=["-O1", "-fsanitize=thread"],
    link=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl", "-lpthread", "-lasound"],
    technique="stateless model checking of the implementation: every schedule up to a preemption bound under a controlled scheduler, with happens-before race detection, deadlock detection and heap checking",
    note="The real ParallelModule, std::thread, std::mutex and std::condition_variable code runs on a cooperative scheduler that owns pthread, futexes, the heap and every instrumented memory access.",
    assumptions=["interleavings are sequentially consistent; programs that rely on weaker orders are reported as data races or explored as if sequentially consistent",
                 "schedules with more preemptive switches than the stated bound are not explored",
                 "mutual exclusion primitives of libstdc++/glibc are replaced by their specification"])
check("C01", ["c01.cpp", ("sched.cpp", ["-O2"])], "one controller: all sequences of 4 (thorough 5) requests over {take, rest, size, limit 1..4, restart, stop, drain} with 1 preemption and of 2 (3) with 3 (4) preemptions and a spurious wake-up; "
      "separate consumer thread x limits x pairs of controller actions with 2 (3) preemptions; chains with one section, two in a row, two merged, 1 (2) preemptions", **SCHED)
check("C02", ["c02.cpp", ("sched.cpp", ["-O2"])], "all sequences of up to 4 (thorough 5) requests over {start, stop, take, meta_start, meta_stop, rest} followed by destruction with 2 preemptions, of 2 (3) with 4 (5) preemptions and a spurious wake-up; "
      "a consumer thread that waits before or after the start while 1..2 (3) start/stop requests are made, 2 (3) preemptions; nested and parallel sections, 3 (4) requests, 1 (2) preemptions", **SCHED)
check("C03", ["c03.cpp", ("sched.cpp", ["-O2"])], "all sequences of up to 4 (thorough 5) chain-wide requests over {start, stop, finish, info sync, changed settings, take, rest} made at the sink or at the section, 2 preemptions (2 (3) requests with 3 (4)); sessions of 140 blocks with limits 1, 3, 40 and a preemption at every point (thorough: 60 blocks, 2 preemptions); "
      "a consumer thread of its own with 1..2 (3) requests; modules that are done later; two sections in a row", **SCHED)

# sizes beyond the small alphabets (harness/scale.hpp)
LADDER = "51 block sizes up to 131072 frames (powers of two, their neighbours, common buffer and round sizes)"
SHAPES = LADDER + " x 14 channel counts up to 300 (up to a total number of samples per block)"
SCALE = {
    "A01": "chains of up to 257 modules, fan-ins of up to 257, thousands of passes; " + LADDER + " under 3 topologies",
    "A02": "every request on chains and fans of up to 257 modules",
    "A03": "chains and fans of up to 257 modules; " + SHAPES + " and 10 rates",
    "A04": LADDER + " (quick up to 2049) x sources x stages in alternating blocks; chains of up to 40 stages",
    "B01": "up to 257 inputs; " + SHAPES, "B02": "up to 100 copies; " + SHAPES, "D01": "up to 64 parameters; " + SHAPES,
    "E01": SHAPES + "; long streams", "E02": SHAPES, "F01": LADDER + " x 14 channel counts x 10 rates x 11 positions up to 10^12",
    "F02": SHAPES, "F03": "4..257 segments; " + SHAPES, "F04": SHAPES, "G01": SHAPES, "G02": SHAPES, "G03": "rings of all ladder sizes, long histories",
    "J01": "transfers of all ladder sizes", "K01": "extra chunks of 10 sizes from 64 kB to 4 GB in 4 places", "K02": "files of 18 sizes up to 4 GB (quick: up to 40 MB, and one of 2 GB) through a stream that keeps the header only", "K04": LADDER + " x files of the neighbouring lengths x 1, 2, 6, 33 channels",
    "L01": "51 signal lengths up to 131072 against 14 kernel lengths up to 1024", "L02": "14 kernel lengths up to 513 points x " + SHAPES + "; windowed-sinc kernels up to 1001 points",
    "L06": "13 sizes per matrix dimension up to 257, every vector length up to 700 (thorough 3000), up to 65 coefficients",
    "M01": LADDER + " x 1..8 channels x 1..4 periods with one (thorough two) hiccups", "M02": "totals beyond 2^31 and 2^32 samples", "M03": SHAPES, "M04": SHAPES + "; cascades of up to 257",
    "M05": "up to 300 objects",
}
for _id, _t in SCALE.items(): CHECKS[_id]["bounds"] += "; at scale: " + _t
