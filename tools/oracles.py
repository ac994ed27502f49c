# property -> (what is explored, oracle)
O = {
"A01": ("every chain shape built from probes that stamp each buffer; passes, links and re-links are operations of the history", "a list of expected (module, input stamp) events and the composed stamp at the sink"),
"A02": ("state requests on chains of probes with instant or deferred completion", "a state machine per module and one counter of completions"),
"A03": ("settings propagation over a grammar of chain shapes, with repeated and partial syncs and re-links", "the sink's settings, the set of modules reachable by links, the shape of the next block"),
"A04": ("chains of the real supplied modules (not probes), block size reconfigured between passes", "closed-form sources and plain-vector stages composed sample by sample over the whole stream (own sinc kernels, own WAV builder)"),
"B01": ("inputs of every length relation to the block, nested fan-ins", "sum over inputs padded with silence; per-input event lists"),
"B02": ("consumers collecting, keeping and modifying copies in all orders", "an independent copy per collection"),
"C01": ("the real ParallelModule under the controlled scheduler", "a bounded queue between an endless producer and the caller; every sample of a block carries its sequence number, so torn blocks are seen"),
"C02": ("the same, with histories of start/stop/take/destroy, nested and parallel sections, waiting consumers", "every call returns (no deadlock, no endless execution), the worker is gone after a stop, nothing aborts"),
"C03": ("the same, with chain-wide requests at the sink or at the section", "each upstream module records the thread inside it: two threads inside, processing while stopped, and accesses unordered by happens-before are violations; completion counts"),
"D01": ("owners with several parameters, re-binding between any two requests", "the bound constant or the modulator's own numbered blocks; event counts per modulator"),
"E01": ("all four shapes in all divisions into blocks", "closed form in extended precision at (start + n) cycles; tolerance of a few roundings; both limits accepted within the rounding of the position at a jump unless positions are exact in binary"),
"E02": ("all frequency sequences in all divisions", "an extended-precision phase accumulator"),
"F01": ("operation sequences incl. counts beyond 2^31 and times beyond 2^32 ns", "exact 64-bit arithmetic"),
"F02": ("one envelope of each kind under all divisions and jumps in time", "the defining function of time; outside a ramp's span the value of the same frame processed on its own (block independence only)"),
"F03": ("all small segment lists on a half-frame grid, added before or while playing", "a piecewise function evaluated per frame"),
"F04": ("all small stage durations, finish at every frame, all divisions", "the four-stage function of time with the release starting from the current level; completion count"),
"G01": ("all shapes; all traversals and iterator operation sequences", "index arithmetic (channel, frame) on a plain list; every write is checked for side effects on all other samples"),
"G02": ("editing histories on two buffers", "std::vector subjected to the same operations, plus settings"),
"G03": ("all sizes and indices, iterator walks", "index modulo size in the mathematical sense"),
"H01": ("the complete domain of every format", "the inverse pair itself, monotonicity, extremes, one step of error"),
"H02": ("16-bit exhaustively, 32-bit over a byte alphabet (thorough: exhaustively)", "shift-and-mask definition; guard bytes around the value"),
"J01": ("histories on in-memory streams", "a byte array with a cursor"),
"J02": ("histories on files in a scratch directory, with missing, forbidden, full and truncated targets", "a byte array with a cursor; the file's content after each stop; a memory stream run in lock step"),
"K01": ("all files of a grammar of chunk layouts, read in every block division, restarts", "an independent builder's list of samples"),
"K02": ("write histories in all formats, memory and disk, a second session", "an independent parser (all header fields and their relations) and the project's own reader"),
"K03": ("all truncation points; every value class at every size and identifier field", "an independent parse of the damaged bytes (usable or not, every complete sample); AddressSanitizer; termination"),
"K04": ("chain kinds x formats x block sizes x histories", "the file's samples followed by silence"),
"K05": ("every structure with every field at boundary values, every truncation", "an independent byte layout"),
"L01": ("all lengths, impulses (the operation is bilinear) and dense signals, all routines", "the defining double sum"),
"L02": ("all divisions of streams, all kernel lengths, sessions in changing formats", "convolution of each whole channel; own sinc/Blackman design"),
"L03": ("all power-of-two sizes, all impulses, all transforms", "the defining sum in extended precision"),
"L04": ("all coefficient sets of a small alphabet, all divisions, three interfaces", "the difference equation over the whole stream"),
"L05": ("all lengths and cut-offs", "defining formulas, symmetry, response at selected frequencies; canaries around outputs"),
"L06": ("coefficient sets x frequencies, all matrix shapes, all lengths", "the stationary response of the running filter (transients bounded by the pole radius); defining sums"),
"M01": ("every sequence of device answers with up to a number of hiccups", "the tape of samples the device accepted and the set of open handles"),
"M02": ("histories of passes, resets and formats under a virtual clock", "counters and sums over the individual measurements"),
"M03": ("all sequences of upstream block sizes and formats", "the concatenated upstream stream; number of pulls"),
"M04": ("values, shapes, cascades", "per-sample arithmetic, input shape"),
"M05": ("ownership histories with instrumented objects", "a list model with an alive-set; AddressSanitizer for double and missing destruction"),
}
