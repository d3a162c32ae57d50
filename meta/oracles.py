ORACLE = {
"C01": "a count of threads inside the critical section (asserted at every step of it), the model state of the mutex (free/owner) for trylock's answer, and the scheduler's deadlock detector for liveness.",
"C02": "tokens produced equal tokens consumed; the waiter re-checks under the lock and nobody else may be inside; the deadline handed to pthread_cond_timedwait is exactly now+us for every clock phase; deadlock detection finds lost wakeups.",
"C03": "per-request execution counter and a result computed by the task read without further synchronisation after await (so a missing happens-before edge is a reported race); deadlock detection.",
"C04": "run counter, active counter, completion flag at the time wait()/destructor returns; thread identity; scheduler's list of live threads at the end.",
"C05": "an explicit map of live elements with a pattern filled over each element's bytes; overlap, alignment, contents and address are re-verified after every operation, and the heap balance at destruction.",
"C06": "happens-before race detection on all non-stack memory while two threads each drive their own instance in fixed order (race detection by vector clocks covers all schedules of that pair of programs that are equivalent, independent of the order run), plus equality of the results with a single-threaded run.",
"C10": "direct-form difference equation evaluated on the concatenated input.",
"C11": "reference filter applied forwards and backwards to the explicitly extended signal.",
"C12": "reference IIR/half-band cascade with the class's published coefficients on the concatenated stream; frequency response bounds computed from the impulse response.",
"C13": "direct evaluation of the windowed-sinc interpolation sum at every output instant, with the documented kernel parameters and latency; exact output counts.",
"C14": "O(n^2) DFT sums in long double-like accuracy; round trip; conjugate symmetry.",
"C15": "type-II/III cosine sums, plain and unitary.",
"C16": "DFT of the rotated frame for magnitude and wrapped phase; unwrapped phase must be congruent to it modulo 2*pi and within pi of the linear-advance prediction from the previous frame.",
"C17": "published definition of each detection function (HFC, spectral difference, phase deviation, complex domain, broadband) computed from reference spectra of the last two frames, with whitening model.",
"C18": "definitions of DC removal, alpha normalisation, zero-phase filtering, moving median and the quadratic-fit peak rule, recomputed from scratch for every input.",
"C19": "direct slice of the source, zero padded.",
"C20": "sorted copy of the last n pushed values.",
"C21": "closed formulas of each window; Bessel series; value semantics checked by comparison with fresh objects.",
"C22": "constant-Q kernel recomputed by direct DFT of each windowed complex exponential, with the relative threshold; both process entry points compared with the full (unsparse) product.",
"C23": "reference constant-Q magnitudes of the Hamming-windowed frame folded modulo the octave.",
"C24": "reference decimator + chromagram + ring of chroma + profile correlations + median vote, undecided ties accepted either way; major/minor triads give their key.",
"C25": "window, magnitude, 40 triangular filters, log power, cosine transform, recomputed by direct sums.",
"C26": "optimality certificates: the total score of the returned path equals the optimum found by an independent dynamic programme (checked against brute force over all paths for the short words).",
"C27": "independent executable model of the published algorithm, with undecided-tie tracking.",
"C28": "reference decimation of the concatenated stream; half-rectified spectral difference between adjacent beats and argmax over bar phases; buffer growth.",
"C29": "brute force over all state paths (2-3 states, up to 5-7 observations); closed-form densities and inverses.",
"C30": "posteriors by brute force over all paths; closed-form EM update; likelihood recomputed by brute force never falls.",
"C31": "reference feature extraction (decimator, constant-Q / chroma / MFCC), then run-length form of the clustering computed by the library's own cluster_segment on the same features (that is checked by C32), well-formedness of the segmentation.",
"C32": "definitions of each stage: Viterbi-labelled state histograms, normalisation, projection, soft assignments; well-formed output and memory safety on every history.",
"C33": "eigen-decomposition certificates: projections are centred, mutually uncorrelated, ordered by variance and of the same total variance as the leading eigenvalues computed by Jacobi rotations.",
"C34": "normal equations (residual orthogonal to every monomial), exact recovery of polynomials, correlation coefficient by definition; ill-conditioned requests must fail cleanly.",
"C35": "the mathematical definition of each helper.",
"C36": "equal-temperament formula; nearest-semitone and round-trip inequalities.",
"C37": "tonal-centroid basis by formula; list/time bookkeeping as a vector model; Gaussian-smoothed centroid distances.",
"C38": "definitions by direct sums.",
"C39": "orthonormality / biorthogonality of each filter bank, perfect reconstruction through one analysis/synthesis level of every ternary word, documented lengths; overwriting of the output vectors.",
"C40": "bit-for-bit equality with the same calls made on a fresh instance in zeroed memory, in a process forked before anything else was used.",
}
COST = {"C02": "about 40 s", "C06": "about 30 s", "C20": "about 16 s", "C22": "about 3 s (20 s under sanitizers' worst case)", "C23": "about 30 s", "C24": "about 35 s", "C25": "about 12 s", "C26": "about 12 s", "C27": "about 30 s", "C28": "about 18 s", "C29": "about 16 s", "C31": "about 50 s", "C40": "about 80 s"}
