"""One record per property: the text that goes into properties.jsonl and MANIFEST.json."""
EXH = "exhaustive enumeration on the real code"
SCHED = "stateless model checking: exhaustive bounded-preemption schedule exploration of the real code under a controlled scheduler"
HIST = "explicit-state model checking: exhaustive bounded call histories / inputs on the real code, each compared step by step with an executable reference model"
NOTE_H = "Exhaustive within the bounds listed per scenario in the evidence file (every call sequence / every input word / every configuration in the stated finite sets), executed on the real compiled code (ASan+UBSan, poisoned heap and stack) in lock step with an independently written reference model; nothing is sampled. Trusts the compiler, libm and the reference model; inputs outside the enumerated sets are not covered."
NOTE_S = "Every schedule within the stated preemption / spurious-wakeup / early-timeout bounds is executed on the real code, compiled so that each memory access and pthread call is a scheduling point owned by the explorer. Sequentially consistent memory is assumed; pthread semantics are those of the modelled primitives."
P = []
def p(id, title, statement, over, forall, why, files, mech, observe, tech=HIST, note=NOTE_H, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, state=state or []))
NA = {}

p("C01", "Mutex: mutual exclusion, try-lock truthfulness and scoped locking",
  "At most one thread at a time is between a successful lock or trylock and the matching unlock of a Mutex, and nobody blocked on it is left waiting once it is free. trylock never blocks, succeeds exactly when the mutex is free, and an unlock by a thread that does not hold the mutex does not release the holder's lock. A MutexLocker holds the mutex exactly during its own lifetime.",
  ["schedules", "histories"], "every interleaving of 2-3 threads with 1-2 operations each up to 2-4 preemptions; every single-threaded history of 6-7 operations including a second thread's attempts; every history of 5-6 operations over two mutexes, and nested locking of two",
  "No existing test touches threads at all; mutual exclusion is a statement over all interleavings.",
  ["thread/Thread.cpp", "thread/Thread.h"], [("Mutex::lock/unlock/trylock", "thread/Thread.cpp"), ("MutexLocker", "thread/Thread.cpp")], ["overlap of critical sections", "return values of trylock", "termination of every thread"], SCHED, NOTE_S)
p("C02", "Condition: no lost wakeups, atomic release on wait, bounded timed waits",
  "A thread that checks its predicate under the condition's lock and then waits always resumes after another thread changes the predicate under that lock and signals, before or after releasing it. Waiting releases the lock and re-acquires it before returning, so other threads can progress meanwhile and never run inside the waiter's critical section. A wait with a timeout of us microseconds (us > 0) returns no earlier than that unless woken, and does return after it, whatever the clock reads when it is called.",
  ["schedules", "histories", "inputs"], "every interleaving of 2-4 threads within 1-3 preemptions, one spurious wakeup and one early timeout; every clock phase and duration of a grid around microsecond/second carries; durations to the largest int and dates past 2038; two conditions at once; every history of 5 operations then destruction",
  "No existing test uses Condition; lost wakeups appear only in particular interleavings and the deadline arithmetic only fails at particular clock phases.",
  ["thread/Thread.cpp", "thread/Thread.h"], [("Condition::wait deadline", "thread/Thread.cpp"), ("Condition::signal/lock/unlock", "thread/Thread.cpp")], ["handed-over tokens", "deadline passed to the OS", "termination"], SCHED, NOTE_S)
p("C03", "AsynchronousTask: each request runs exactly once and await sees its result",
  "Every start-task request causes exactly one execution of the task on the worker thread; awaiting returns only after that execution has finished and its effects are visible to the caller. The task never runs unrequested, the task runs in the background without having to be awaited, the awaiting call always returns, and destruction always terminates the worker, also when no task was ever requested.",
  ["schedules", "histories"], "every interleaving within 1-4 preemptions and 1-2 spurious wakeups of 1-3 request/await rounds on 1-2 tasks, and of construction/destruction without requests",
  "Nothing in the test suite exercises asynchronous tasks; the property quantifies over schedules and spurious wakeups.",
  ["thread/AsynchronousTask.h", "thread/Thread.cpp"], [("AsynchronousTask handshake", "thread/AsynchronousTask.h"), ("Condition", "thread/Thread.cpp")], ["execution counts", "values computed by the task as read by the caller", "termination"], SCHED, NOTE_S)
p("C04", "Thread: started work runs exactly once and wait/destruction joins it",
  "A started Thread executes its body exactly once, on a thread other than the caller's; wait() and destruction of the object return only after the body has finished, and wait() on a thread that is not running returns at once. A thread that has been waited for can be started again.",
  ["schedules", "histories"], "every history of 5-6 operations from create/start/wait/destroy/id and every interleaving of the threads within 1-2 preemptions; 3-4 threads together, threads started, joined or destroyed by other threads, nested threads",
  "No test uses Thread; join-before-return is a statement over all schedules and histories.",
  ["thread/Thread.cpp", "thread/Thread.h"], [("Thread::start/wait/~Thread", "thread/Thread.cpp")], ["execution counts", "completion at the time wait/destructor return"], SCHED, NOTE_S)
p("C05", "BlockAllocator: live elements are disjoint, stable, aligned and all reclaimed",
  "Every element handed out by a block allocator is a private region of the requested size that keeps its contents and address until it is deallocated, however many elements are live and in whatever order they are freed. Freed space is reused, deallocating null does nothing, and destroying the allocator returns all its memory.",
  ["histories"], "every sequence of 4-5 bulk operations, every sequence of 8-10 single operations around the block boundaries, 600000 live elements, for element sizes 1,8,9,24; element sizes to 4 kB and beyond",
  "There is no test of the allocator; corruption depends on the allocate/free history and block counts.",
  ["thread/BlockAllocator.h"], [("BlockAllocator block list and free list", "thread/BlockAllocator.h")], ["element contents", "overlap", "heap balance"])
p("C10", "Filter implements its difference equation over any block split",
  "For all coefficient vectors (FIR or IIR of any order), the output of Filter over any sequence of process calls, of any block lengths, equals the direct-form difference equation applied to the concatenated input, and after reset behaves as new. Two Filter objects never affect each other. Construction throws exactly on the documented invalid coefficient combinations.",
  ["inputs", "histories", "configurations"], "19 coefficient sets of orders 0-64 and 45 of orders 100-4097; every sequence of 4-5 calls from 10 block lengths and reset; every ternary word of 6-7 samples under every block split; every pair of filters interleaved",
  "Existing tests check a few coefficient sets with one or two block patterns; the circular-buffer offset logic depends on call history.",
  ["dsp/signalconditioning/Filter.cpp", "dsp/signalconditioning/Filter.h"], [("circular history with offset", "dsp/signalconditioning/Filter.cpp")], ["process() output", "exceptions"])
p("C11", "FiltFilt is a stateless zero-phase forward-backward filter",
  "Each FiltFilt call returns the input filtered forwards and then backwards with the configured filter, with odd-symmetric (2*end - x) edge extension of three times the filter order on both ends (zeros where the input is too short), at the same length as the input. The result depends only on that input and the coefficients, not on earlier calls, and the response to an impulse away from the edges is time-symmetric.",
  ["inputs", "histories"], "10 coefficient sets and orders 84-600; every ternary word up to length 7-8; every sequence of 3-4 calls over 9 lengths; every impulse position",
  "Existing tests filter four inputs, each once through a fresh object; state leaking between calls needs a multi-call history to show.",
  ["dsp/signalconditioning/FiltFilt.cpp", "dsp/signalconditioning/Filter.cpp"], [("edge extension and double filtering", "dsp/signalconditioning/FiltFilt.cpp")], ["process() output"])
p("C12", "Decimators keep block-stream continuity and anti-alias",
  "Decimator and DecimatorB output, for every supported factor, sample type and in-place use, equals low-pass filtering the concatenated input stream with the class's fixed filter and keeping every factor-th sample, independent of how the stream is cut into blocks, and reset restores the initial state. The passband gain is about one and content above the output Nyquist frequency is attenuated; DecimatorB rejects unsupported factors without touching the output.",
  ["inputs", "histories", "configurations"], "all factors; every sequence of 4-5 calls of 7-8 kinds; every ternary block of 8; every split of 6-8 sub-blocks; impulse responses at all polyphase offsets; cascades of the block decimator to factor 4096",
  "No existing test covers decimators; filter state carried across calls needs histories.",
  ["dsp/rateconversion/Decimator.cpp", "dsp/rateconversion/DecimatorB.cpp"], [("anti-alias IIR state", "dsp/rateconversion/Decimator.cpp"), ("cascaded half-band stages", "dsp/rateconversion/DecimatorB.cpp")], ["process() output", "getFactor()"])
p("C13", "Resampler output is a pure function of the input stream",
  "The concatenated output of a streaming Resampler is the windowed-sinc interpolation of the concatenated input at the exact rational rate, whatever the chunking; after n input samples it has produced every output whose support is complete and nothing more. The reported latency matches the delay of the output, and one-off resampling returns ceil(n*target/source) latency-compensated samples.",
  ["inputs", "histories", "configurations"], "15 rate pairs x 3 qualities; every sequence of 4-5 chunk sizes from {0,1,2,5,13,60}; every composition of 9-11 samples; impulses at every input position; 6000-sample runs; blocks of 20 million samples in one call",
  "Existing tests use a handful of rates and one chunking; phase bookkeeping errors appear only for particular chunk histories and ratios.",
  ["dsp/rateconversion/Resampler.cpp", "dsp/rateconversion/Resampler.h"], [("polyphase state machine", "dsp/rateconversion/Resampler.cpp")], ["samples returned per call", "values", "getLatency()"])
p("C14", "FFT and FFTReal compute the DFT and its inverse for every size",
  "For every size n >= 1 the complex transform equals the discrete Fourier transform of its input and the inverse (scaled by 1/n) undoes it; a null imaginary input means zero. For every even size the real transform produces the full conjugate-symmetric spectrum, its magnitude variant the moduli, and the real inverse the original signal, reading only the first half of the spectrum. Odd real sizes are rejected with an exception.",
  ["inputs", "configurations", "histories"], "every unit impulse for 45 sizes (a basis, so linearity extends to all inputs), dense data at every size 1-200 (600), all small words, repeated use of one object, and odd sizes",
  "Existing tests transform a few signals of four points (and only construct other sizes); correctness for other radices and sizes, and object reuse, is not exercised.",
  ["dsp/transforms/FFT.cpp", "ext/kissfft/kiss_fft.c", "ext/kissfft/tools/kiss_fftr.c"], [("FFT::D / FFTReal::D", "dsp/transforms/FFT.cpp"), ("butterflies", "ext/kissfft/kiss_fft.c")], ["transform outputs"])
p("C15", "DCT computes type II/III transforms that invert each other at every size",
  "For every size the forward DCT equals the type-II cosine sum, the inverse undoes it, and the unitary variants are orthonormal (energy preserving) and mutually inverse. Results do not depend on previous calls.",
  ["inputs", "configurations", "histories"], "every unit vector for sizes 1-40 (80), all ternary words up to 6-7, every 5-6 call sequence over the four transforms, sizes up to 512; sizes to 65536 (131072)",
  "Existing tests use sizes 4 and 5 only.",
  ["dsp/transforms/DCT.cpp"], [("DCT via FFTReal of 4x length", "dsp/transforms/DCT.cpp")], ["transform outputs"])
p("C16", "PhaseVocoder tracks magnitudes and unwrapped phases across frames",
  "For every sequence of frames the reported magnitudes and phases are those of the centre-shifted frame's spectrum, and the unwrapped phases follow the phase-vocoder recurrence (expected advance plus wrapped deviation) from the previous frame. Reset restores the initial state and time- and frequency-domain entry points agree.",
  ["inputs", "histories", "configurations"], "5 sizes x 4 hops; every sequence of 5-6 calls from 5 kinds; every ternary frame of size 4 and 6; all pairs/triples of phases on a grid; steady tones over 40 frames; 70000 (300000) consecutive frames; frame sizes to 65536",
  "Existing tests drive a few fixed frames at one or two sizes; unwrapping is history dependent.",
  ["dsp/phasevocoder/PhaseVocoder.cpp"], [("unwrapPhases recurrence", "dsp/phasevocoder/PhaseVocoder.cpp")], ["magnitudes", "phases", "unwrapped phases"])
p("C18", "Detection function conditioning and peak picking follow their definition",
  "For every input length and window setting, DFProcess returns the zero-phase smoothed, adaptively (median) thresholded, norm-scaled signal, half-wave rectified unless sign keeping is configured; it is finite for finite input, including silence and inputs shorter than its windows, and touches nothing outside the buffers. PeakPicking reports exactly the strict local maxima of the conditioned signal whose fitted parabola passes the thresholds, in increasing order.",
  ["inputs", "configurations"], "4 filters x 7 windows x every length 0-40 (70) x 6 signals; every word over {0,1,3} up to 7-8 and over {0,1,4} up to 9-10; 5 thresholds x delta",
  "No existing test covers either class; short inputs and silent inputs are exactly the untested extremes.",
  ["dsp/signalconditioning/DFProcess.cpp", "dsp/onsets/PeakPicking.cpp", "maths/MathUtilities.cpp", "maths/Polyfit.h"], [("DFProcess::process/medianFilter", "dsp/signalconditioning/DFProcess.cpp"), ("PeakPicking::quadEval", "dsp/onsets/PeakPicking.cpp")], ["conditioned signal", "onset indices"])
p("C19", "Framer delivers every frame of the source exactly once, in order, zero padded",
  "For every source length, frame length and hop, frame k is the source samples from k*hop up to k*hop plus the frame length, with zeros past the end of the source; the reported number of frames is what a caller needs to cover the source, and frames beyond the end are silent. Reconfiguring and resetting restart from frame zero, and nothing outside source and frame buffers is accessed.",
  ["inputs", "histories", "configurations"], "every frame length 1-6 x hop 1-8 x source length 0-20 (40), two frames beyond the end; every 7-8 call history; lengths up to 2^40 for the count; frame lengths to 65536 over 100000-sample sources",
  "No test of Framer exists; boundary frames depend on all three lengths.",
  ["dsp/signalconditioning/Framer.cpp"], [("Framer::getFrame", "dsp/signalconditioning/Framer.cpp")], ["frame contents", "getMaxNoFrames()"])
p("C20", "MedianFilter returns the exact percentile of the last n values",
  "After every push the value reported is the configured percentile (rounded index) of the last n pushed values, values before the first push counting as zero; NaN is treated as zero and reset restores the initial state. Whole-signal filtering gives the centred running median of the same length with zero extension.",
  ["inputs", "histories", "configurations"], "sizes 1-6, 4 percentiles, every push word of length 7-8 over 4 values; every 6-7 operation history over three element types; every word up to length 8-9 for the whole-signal form; every integer percentile for sizes 1-25; sizes to 33000",
  "Existing tests check a few fixed sequences; the sorted-window bookkeeping depends on the push history.",
  ["maths/MedianFilter.h"], [("sorted window insert/remove", "maths/MedianFilter.h")], ["get()", "getAt()", "filter()"])
p("C21", "Window, Kaiser and sinc windows have their defining values and copy safely",
  "Every window type has its defining sample values at every length (periodic form), cutting multiplies by exactly those values in and out of place, and copies and assignments are independent, self-assignment safe and leak free. Kaiser windows have the values, length and beta of Kaiser's design formulas and are finite and symmetric at every length, and the sinc window is sin(x)/x centred on its middle.",
  ["inputs", "configurations", "histories"], "6 types x every length 1-300 (1500), Kaiser and sinc at every length up to 200 (500) and several shape parameters, every design attenuation 1-140 dB x bandwidths, every 5-6 operation copy/assign/cut history",
  "Existing tests check a few lengths of the standard windows and nothing about copying.",
  ["base/Window.h", "base/KaiserWindow.cpp", "base/SincWindow.cpp"], [("Window::encache/operator=", "base/Window.h"), ("KaiserWindow::init", "base/KaiserWindow.cpp"), ("SincWindow::init", "base/SincWindow.cpp")], ["window values", "heap balance"])
p("C34", "Polynomial fitting returns the least-squares coefficients",
  "For every set of points with at least as many distinct abscissae as coefficients, the fitted coefficients are the unique least-squares solution, in ascending power order, whatever the order or repetition of the points; data sampled from a polynomial within the order is recovered exactly.",
  ["inputs"], "1-4 coefficients; every ternary ordinate word on three grids of 2-7 points; every abscissa word over {-1,0,1,2}; every small-integer polynomial; up to 10 coefficients and 50000 points",
  "There is no test of polyfit; peak interpolation depends on it for all data.",
  ["maths/Polyfit.h"], [("TPolyFit::PolyFit2 / GaussJordan", "maths/Polyfit.h")], ["coefficients"])
p("C35", "MathUtilities reductions, normalisations and integer helpers are exact",
  "Mean, sum, median, extrema with their positions, norms, normalisations, circular shift, adaptive threshold, angle wrapping, rounding, factorial, gcd, integer comparison and power-of-two helpers return their mathematical definition for every input in their domain, including zero vectors, negative values and single elements. Inputs passed by const reference are left unchanged.",
  ["inputs"], "every word up to length 5-7 over {0,1,-1,2.5,-3}; all lengths/shifts up to 6/14; integers -70..5000 and around every power of two to 2^30; gcd on all pairs to 60 and of common sample rates and large numbers; comparisons over the whole range of int; rounding up to 2^200",
  "Existing tests check a handful of values per function and skip several functions entirely.",
  ["maths/MathUtilities.cpp", "maths/MathUtilities.h", "maths/MathAliases.h"], [("MathUtilities", "maths/MathUtilities.cpp")], ["return values", "modified vectors"])
p("C36", "Pitch and frequency conversions are mutually inverse",
  "For every MIDI pitch, cents offset and concert pitch, the frequency is concertA * 2^((pitch - 69 + cents/100)/12), and converting a frequency back gives the nearest semitone with a cents offset in [-50,50) that reproduces it.",
  ["inputs"], "pitches -20..150 x 9 offsets x 7 concert pitches; every cent -50..50 around every pitch -60..140 x 8 concert pitches, whole and fractional",
  "No test covers the conversions; boundary cents and rounding need the whole grid.",
  ["base/Pitch.cpp", "base/Pitch.h"], [("Pitch::getPitchForFrequency / getFrequencyForPitch", "base/Pitch.cpp")], ["return values"])
p("C06", "Separate instances used from separate threads never interfere",
  "Distinct objects of any class of the library (or distinct models of the C modules) may be used at the same time from different threads without any synchronisation: no memory is shared between them except read-only data, so results are those of single-threaded use whatever the interleaving. This includes the first use of a class in the process. (Exempt: modules documented to use the C library's rand, and the two recorded BLAS findings.)",
  ["schedules", "configurations"], "30 components x configuration pairs in two threads, three-way first use, all 60 uses at once; thorough: every unordered pair of components. Each run is race-checked over every memory access and every interleaving of a race-free run is equivalent to it",
  "No test runs two threads; interference between instances needs a specific interleaving.",
  ["dsp", "maths", "base", "hmm", "ext/kissfft", "ext/clapack"], [("no mutable file- or function-static state", "dsp"), ("ilaenv working variables", "ext/clapack/src/ilaenv.c"), ("function statics", "maths/MathUtilities.cpp")], ["conflicting accesses of different threads to the same bytes", "results"], SCHED,
  "Each scenario runs on the real code compiled so that every load, store and library memory call is reported; a happens-before check over all of them shows that no two threads touch the same bytes with a write. A race-free program without synchronisation has exactly one Mazurkiewicz trace, so the single executed schedule covers every interleaving of that use. Precompiled libc/libm internals are trusted.")
p("C17", "DetectionFunction computes each onset feature over the frame history",
  "For every sequence of frames and each of the five types (high-frequency content, spectral difference, phase deviation, complex spectral difference, broadband), the value returned is the defining function of the current spectrum, the previous magnitudes and the two previous phases, starting from zero history, with adaptive whitening (peak relaxation and floor) applied first when configured. Time- and frequency-domain entry points share that history, and the reported magnitude spectrum is the (whitened) one used.",
  ["inputs", "histories", "configurations"], "5 types x 5 whitening settings x 4 frame sizes, every 5-6 frame history over 5 kinds; every pair of 3-bin spectra over 6 values; every magnitude ratio x threshold for broadband; 300-1500 frame whitening runs; two instances in every order; frame sizes to 32768",
  "No test covers the class; its values depend on up to three previous frames and on slowly decaying whitening peaks.",
  ["dsp/onsets/DetectionFunction.cpp"], [("processTimeDomain/processFrequencyDomain/runDF", "dsp/onsets/DetectionFunction.cpp"), ("whiten", "dsp/onsets/DetectionFunction.cpp"), ("history buffers", "dsp/onsets/DetectionFunction.cpp")], ["return values", "getSpectrumMagnitude()"])
p("C22", "ConstantQ applies the constant-Q sparse kernel to every spectrum",
  "For every configuration the number of bins, FFT length, hop and Q follow from the frequency range and bins per octave, and the transform of any spectrum is the inner product with the thresholded spectral kernel of Hamming-windowed complex exponentials at geometrically spaced frequencies. It is linear and independent of earlier calls, both process overloads agree, rebuilding the kernel changes nothing, and nothing outside the buffers is touched. A tone at a bin's centre frequency peaks in that bin.",
  ["inputs", "configurations", "histories"], "9 configurations x every unit spectrum (a basis of a linear map); shapes for 60 resolutions x 8 ranges x 5 rates; every 5-6 call history; tones at every bin; transforms to 524288 points",
  "No test covers the class; correctness over all spectra and configurations needs the basis.",
  ["dsp/chromagram/ConstantQ.cpp", "dsp/chromagram/ConstantQ.h"], [("sparsekernel", "dsp/chromagram/ConstantQ.cpp"), ("process (both overloads)", "dsp/chromagram/ConstantQ.cpp")], ["constant-Q coefficients", "getK/getFFTLength/getHop"])
p("C23", "Chromagram folds constant-Q magnitudes into octave-independent chroma",
  "For every frame, chroma bin b is the sum over octaves of the magnitudes of constant-Q bins b + k*binsPerOctave of the Hamming-windowed frame, normalised to unit sum or unit maximum when configured. Frame and hop sizes follow from the configuration, time and frequency entry points agree, each result is independent of earlier frames, and silence gives zeros.",
  ["inputs", "configurations", "histories"], "6 configurations x 3 normalisations: every unit spectrum and unit impulse, every 4-5 call history over 5 kinds; tones on every semitone of four octaves; every positive word for unityNormalise; realistic configurations to nine octaves; to 300 bins per octave",
  "Existing tests check a few sinusoids at one configuration with loose peak-position assertions.",
  ["dsp/chromagram/Chromagram.cpp", "dsp/chromagram/Chromagram.h"], [("process", "dsp/chromagram/Chromagram.cpp"), ("normalisation", "dsp/chromagram/Chromagram.cpp")], ["chroma vectors", "getFrameSize/getHopSize"])
p("C24", "GetKeyMode reports the best-correlated key over its averaging windows",
  "For every sequence of frames the reported key is the running (lower) median, over the frames seen so far up to the configured window, of the key of the best correlation between the running mean chroma (over the configured averaging window) of the decimated audio and the rotated major and minor key profiles. The 24 key strengths are those correlations' per-key maxima, keys are numbered 1..24 (0 only if undecided), block and hop sizes follow from the configuration, and chord progressions in each major or minor key are recognised as that key.",
  ["inputs", "configurations", "histories"], "averages of 0-4 frames x medians of 0-6 frames: every 4-9 frame word over 2-6 chords; decimation 2,4,8; tonic-dominant progressions in all 24 keys, 2 tunings, 2 rates; overlap factors 2-16",
  "Existing tests check one sinusoid per key for a single configuration; the ring buffers only wrap in longer histories.",
  ["dsp/keydetection/GetKeyMode.cpp", "dsp/keydetection/GetKeyMode.h"], [("process", "dsp/keydetection/GetKeyMode.cpp"), ("krumCorr", "dsp/keydetection/GetKeyMode.cpp"), ("chroma and key ring buffers", "dsp/keydetection/GetKeyMode.cpp")], ["process() key", "getKeyStrengths()", "block and hop size"])
p("C25", "MFCC equals the mel-cepstrum definition for every frame",
  "For every frame, the coefficients are the discrete cosine transform of the (optionally power-raised) log10 energies of the 40-band triangular mel filter bank applied to the windowed frame's magnitude spectrum, with the zeroth coefficient included first only when requested. The number of values written is exactly the configured count, both entry points agree, and results do not depend on earlier frames; silence gives finite values.",
  ["inputs", "configurations", "histories"], "4 rates x 6 sizes: every single spectral bin at 3 amplitudes; every coefficient count 0-45; every ternary 8-bin spectrum; every 3-4 call history over 72 configurations; sizes to 32768 and rates to 384 kHz",
  "No test covers the class; stale or missing band energies need particular frame sequences.",
  ["dsp/mfcc/MFCC.cpp", "dsp/mfcc/MFCC.h"], [("filter bank construction", "dsp/mfcc/MFCC.cpp"), ("process", "dsp/mfcc/MFCC.cpp")], ["cepstra", "count returned"])
p("C26", "TempoTrackV2 returns the optimal tempo path and beat sequence",
  "For every detection function the beat periods follow a path of maximal score through the tempo-transition model over the comb-filtered autocorrelation (with the requested tempo preference), and the beats maximise the dynamic-programming objective given those periods: strictly increasing frame indices within the input. Tempi are 60*rate/(increment*period), inputs shorter than a window leave the outputs untouched, results do not depend on earlier calls and nothing outside the vectors is accessed.",
  ["inputs", "configurations", "histories"], "every detection function over {0,1,3} up to 9-10 frames x 8 periods x 3 parameter pairs; every period word; pulse trains of every period 4-40 and 15-115, tempo-change words, inputs of up to 45000-160000 values at three scales, all short lengths; result vectors preset to 11 lengths",
  "No test covers the class; optimality over all inputs needs a certificate per input.",
  ["dsp/tempotracking/TempoTrackV2.cpp"], [("calculateBeats", "dsp/tempotracking/TempoTrackV2.cpp"), ("viterbi_decode / get_rcf / filter_df", "dsp/tempotracking/TempoTrackV2.cpp")], ["beatPeriod", "tempi", "beats"])
p("C27", "TempoTrack follows its comb-filter tempo and beat-phase algorithm",
  "For every detection function TempoTrack's beats are those of its documented algorithm: per-frame unbiased autocorrelation, Rayleigh-weighted comb filter, tempo-change detection with the two-state context model, metre detection, Gaussian context-dependent comb filter and phase alignment. Beats are non-decreasing with at least one in every 128-value frame and none outside the frames, one tempo is appended per frame (0 or 30..180 bpm), each process call on one object gives the result of a fresh object, it always returns, and nothing outside the buffers is accessed.",
  ["inputs", "histories"], "pulse trains of every (third) period 12-120 x 3 phases x noise; every 3-5 segment tempo-change word; every 4-6 block word over 6 kinds; all short lengths; every 3-4 call reuse sequence; duple and triple accent patterns over a grid of fractional periods and jitter; six window/lag lengths x alphas x median windows x smoothing filters; windows of 6-12 lag lengths x 2-7 beat accents",
  "No test covers the class; context switching, reuse and boundary lengths need histories.",
  ["dsp/tempotracking/TempoTrack.cpp", "dsp/tempotracking/TempoTrack.h"], [("process", "dsp/tempotracking/TempoTrack.cpp"), ("tempoMM / stepDetect / constDetect / findMeter", "dsp/tempotracking/TempoTrack.cpp"), ("phaseMM / beatPredict", "dsp/tempotracking/TempoTrack.cpp")], ["beats", "termination", "memory accesses"])
p("C28", "DownBeat buffers the whole stream and picks the bar phase by spectral change",
  "The buffered audio is the entire decimated stream since construction or reset, in order, whatever block sequence was pushed. For every beat sequence the per-beat spectral difference is the Jensen-Shannon divergence between consecutive beat spectra (Hann-windowed beat segment, zero padded or cut to the frame), and the downbeats are every beatsPerBar-th beat at the phase with the greatest mean difference; beats empty, overlong or past the end are handled without touching other memory.",
  ["inputs", "histories", "configurations"], "every 4-6 call push/reset history over 7 factors x 2 increments; 100-600 block growth; every word of 3-5 beat intervals x 6 metres x 4 sounds; every length 0-40 x 0-6 beats; every metre 2-7 and phase; frames of 8192-65536 samples; to 66000 beats and 300 per bar",
  "No test covers the class; buffer growth and beat edge cases depend on the stream history.",
  ["dsp/tempotracking/DownBeat.cpp"], [("pushAudioBlock / makeDecimators", "dsp/tempotracking/DownBeat.cpp"), ("findDownBeats / measureSpecDiff", "dsp/tempotracking/DownBeat.cpp")], ["getBufferedAudio", "getBeatSD", "downbeats"])
p("C29", "Viterbi decoding returns a most likely state path for every model",
  "For every model (whose covariance determinant is within the range of a double) and observation sequence the decoded path has the maximal joint likelihood over all state paths under the Gaussian emissions, initial distribution and transitions (zeros included), over sequences of any length without underflow. The Gaussian log density and density agree with their definition, matrix inversion yields the inverse and determinant (zero for singular matrices), and nothing leaks.",
  ["inputs", "configurations"], "every observation word to length 9-11 over 3 values x 30 two-state models; every row-shape combination of three-state models; every 2x2 and symmetric 3x3 matrix over small alphabets; 1-8 states x 1-5 dimensions x lengths to 300; matrices to 130x130 and densities to 130 dimensions; 128-300 states",
  "No test covers hmm.c; optimality is a statement over all paths and inputs.",
  ["hmm/hmm.c", "hmm/hmm.h"], [("viterbi_decode", "hmm/hmm.c"), ("loggauss / gauss / invert", "hmm/hmm.c")], ["decoded states", "densities", "inverses"])
p("C30", "HMM training performs exact, monotone Baum-Welch steps",
  "For every model and observation sequence the forward-backward pass gives the exact posterior state and transition probabilities and log likelihood (sums over all paths), the Baum-Welch update is the EM update for those posteriors with a shared covariance, and training performs between one and fifty such steps, none decreasing the likelihood, leaving distributions normalised and the covariance symmetric. Initial models have normalised positive distributions, means near the data mean and the data's variances, whatever random numbers are drawn.",
  ["inputs", "configurations", "histories"], "every two-state distribution choice x likelihood word up to length 5-6 with sums over all state paths; three-state row combinations; 1-4 states x 1-3 dimensions x 4 data kinds; overlapping clusters needing up to 50 rounds, with the exact stopping round; every outcome of every random draw for small models; 128-300 states",
  "No test covers hmm.c; training properties hold over all models and random initialisations.",
  ["hmm/hmm.c", "hmm/hmm.h"], [("forward_backwards", "hmm/hmm.c"), ("baum_welch", "hmm/hmm.c"), ("hmm_init / hmm_train", "hmm/hmm.c")], ["posteriors", "re-estimated parameters", "log likelihoods"])
p("C31", "ClusterMeltSegmenter turns any feature history into well-formed segments",
  "Over any history of initialise, extractFeatures, setFeatures, segment and clear, the segmentation returned is contiguous from sample 0 to the end of the features (frames times hop), adjacent segments have different types, types lie in 1..number of clusters, and it is exactly the run-length form of the clustering of the features extracted so far. Each extracted feature is the mean magnitude feature over half-overlapping analysis frames of the (decimated) window: the first, and those that end before the window does. No history reads or writes outside its buffers or leaks.",
  ["inputs", "histories", "configurations"], "3 feature types x 7 rates x 3 window lengths x 1-3 blocks; every 3-9 feature word over 3 prototypes x cluster counts x 4 random behaviours; every 6-7 call history; 2-3 section sequences; to 33000 (66000) features and 129 (257) clusters; all rates x window/hop sizes",
  "No test covers segmentation; its buffers depend on call order, rate and feature type.",
  ["dsp/segmentation/ClusterMeltSegmenter.cpp", "dsp/segmentation/Segmenter.cpp"], [("extractFeatures*", "dsp/segmentation/ClusterMeltSegmenter.cpp"), ("makeSegmentation", "dsp/segmentation/ClusterMeltSegmenter.cpp"), ("initialise/clear/destructor", "dsp/segmentation/ClusterMeltSegmenter.cpp")], ["features", "segmentation", "heap balance"])
p("C32", "Clustering pipeline stages match their definitions and stay in bounds",
  "State histograms are the counts of states in the odd window centred on each frame divided by their sum of squares (edges repeating the first and last full windows), MPEG-7 and chroma feature conversions follow their definitions, and annealed cluster assignment follows the documented deterministic-annealing update and always yields a cluster index per frame from 1 to the number of clusters. The complete pipeline is the composition of those stages: features (the leading principal components and the envelope, or chroma), HMM training and decoding, state histograms, clustering. For every feature size, frame count, window and cluster count the pipeline stays within its buffers and frees what it allocates.",
  ["inputs", "configurations"], "every state word to length 8-12 with every odd window; every small feature matrix over 5 values; every 1-6(8) histogram word x 1-4 clusters x 3 neighbourhoods x 5 random behaviours; pipelines for 1-40 coefficients equal to the composition of their stages; realistic sizes; to 1000 states, 260 clusters and windows of 601",
  "No test covers the C clustering code; bounds depend on every size combination.",
  ["dsp/segmentation/cluster_melt.c", "dsp/segmentation/cluster_segmenter.c"], [("create_histograms", "dsp/segmentation/cluster_segmenter.c"), ("cluster_melt", "dsp/segmentation/cluster_melt.c"), ("mpeg7_constq / cq2chroma / constq_segment", "dsp/segmentation/cluster_segmenter.c")], ["histograms", "assignments", "memory accesses"])
p("C33", "PCA projects data on to its principal components",
  "For every data matrix pca_project replaces the first ncomponents columns with the centred data's coordinates along the orthonormal eigenvectors of its scatter matrix in order of decreasing variance: component variances equal the leading eigenvalues, components are mutually uncorrelated, and with all components distances are preserved. Columns outside the matrix and rows are not otherwise touched, and nothing leaks, including for constant, rank-deficient and single-row data.",
  ["inputs", "configurations"], "every 2-4 x 2 matrix over {0,1,2,-3} and 3-4 x 3 over {0,1,-2} with every component count; shapes up to 10x24; every permutation of variances; degenerate data; offsets to 1e6 times the spread; up to 150 (256) columns",
  "No test covers PCA; correctness over all matrices and column counts is untested.",
  ["maths/pca/pca.c"], [("tred2 / tqli", "maths/pca/pca.c"), ("pca_project", "maths/pca/pca.c")], ["projected matrix"])
p("C37", "Tonal centroid and harmonic-change functions follow their definition",
  "For every chroma vector the tonal centroid is the six-dimensional sum over pitch classes on the circles of fifths, major thirds and minor thirds with radii 1, 0.6 and 1.1; chroma vectors normalise to unit L1 norm, or zeros when near silent. A TCSGram keeps vectors in order with the times implied by the frame duration and can be cleared and reused, and the harmonic change function is the Euclidean distance between the Gaussian-smoothed centroids before and after each frame, a missing neighbour counting as the zero vector.",
  ["inputs", "histories", "configurations"], "all 4096 chords x 3 weightings; every 3-level assignment of 9-12 classes; every vector to 6 bins over 4 values; every 7-9 call TCSGram history in dirty memory; every 0-6(8) centroid word x widths 0-4; 1-60 frames x widths 0-12; widths to 500",
  "No test covers dsp/tonal.",
  ["dsp/tonal/TonalEstimator.cpp", "dsp/tonal/TonalEstimator.h", "dsp/tonal/TCSgram.cpp", "dsp/tonal/ChangeDetectionFunction.cpp"], [("transform2TCS", "dsp/tonal/TonalEstimator.cpp"), ("TCSGram", "dsp/tonal/TCSgram.cpp"), ("ChangeDetectionFunction::process", "dsp/tonal/ChangeDetectionFunction.cpp")], ["centroids", "times", "change function"])
p("C38", "Distances, beat spectrum and autocorrelation equal their definitions",
  "For every pair of vectors the cosine distance is 1 - cosine similarity (1 for zero or mismatched vectors) and the Kullback-Leibler distances are those of Gaussian models (symmetrised) and of discrete distributions (one-sided or symmetrised). The beat spectrum is the mean frame distance per lag with peak one, and the unbiased autocorrelation is the mean lagged product with non-positive values replaced by a tiny positive one. Inputs are unmodified and objects reusable.",
  ["inputs"], "every pair of vectors to 4 values over 4 levels; every pair of Gaussian models to 2-3 dimensions; every pair of distributions on 1-4 outcomes; every frame word to 8-10; every signal word to 8-10 and every length to 200; nearly equal frames down to relative differences of 1e-6; frames of up to 2048 values",
  "No test covers these classes.",
  ["maths/CosineDistance.cpp", "maths/KLDivergence.cpp", "dsp/rhythm/BeatSpectrum.cpp", "maths/Correlation.cpp"], [("CosineDistance::distance", "maths/CosineDistance.cpp"), ("KLDivergence", "maths/KLDivergence.cpp"), ("BeatSpectrum::process", "dsp/rhythm/BeatSpectrum.cpp"), ("Correlation::doAutoUnBiased", "maths/Correlation.cpp")], ["return values", "output arrays"])
p("C39", "Every wavelet filter pair is a valid perfect-reconstruction filter bank",
  "For each of the 43 wavelets the decomposition filters returned have the wavelet's length, low-pass gain, zero high-pass gain and vanishing moments, satisfy the perfect-reconstruction condition, and belong to the named family: orthonormal with quadrature-mirror high pass (Haar, Daubechies, Symlets, Coiflets), symmetric (biorthogonal). Output vectors' previous contents do not matter, names are correct and distinct, and analysis followed by synthesis returns every signal.",
  ["inputs", "configurations", "histories"], "all 43 wavelets; every ordered pair of calls; every 6-8 sample signal over 3 values for each wavelet",
  "No test covers the tables; one wrong digit among hundreds of coefficients goes unnoticed.",
  ["dsp/wavelet/Wavelet.cpp"], [("createDecompositionFilters", "dsp/wavelet/Wavelet.cpp"), ("getWaveletName", "dsp/wavelet/Wavelet.cpp")], ["filter coefficients", "names"])
p("C40", "Results are a function of configuration and inputs only",
  "Every component's results are bitwise determined by its configuration and the data given to it since construction: not by what the heap or stack contained before, by other components used before, by other instances used in alternation, or by instances destroyed in mid-use. Components other than HMM training and the segmenter neither draw random numbers nor read the clock, and no operation changes the process's floating-point control settings or locale. Destroying an instance returns all the memory it took.",
  ["histories", "configurations"], "33 components x 4 configurations, against results from a pristine process: 36 memory fill patterns x 1-3 calls; every ordered pair of predecessor and successor; all 252 interleavings of two instances of a component; every unordered mixed pair; every abandoned prefix",
  "Uninitialised state and cross-instance leakage give the right answer in a fresh test process.",
  ["dsp", "maths", "base", "hmm", "ext/kissfft"], [("constructors' initialisation of every member", "dsp"), ("scratch buffers", "dsp"), ("no static state", "dsp")], ["all outputs, bitwise", "live heap bytes", "SSE/x87 control words, locale, random numbers and clock reads"])
