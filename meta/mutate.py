#!/usr/bin/env python3
"""Mutation testing of the checks: usage mutate.py OUT.log SEED PER100 [file-substring...]
Works on /repo in place: run it only where /repo is a private copy. For each source file below, small
textual mutations are applied one at a time and the mapped checks are run; survivors are logged."""
import sys, os, re, random, subprocess, time, glob
MAP = [("thread/Thread.cpp", "C01 C02 C04"), ("thread/AsynchronousTask.h", "C03"), ("thread/BlockAllocator.h", "C05"),
 ("dsp/signalconditioning/Filter.cpp", "C10"), ("dsp/signalconditioning/FiltFilt.cpp", "C11"), ("dsp/signalconditioning/Framer.cpp", "C19"), ("dsp/signalconditioning/DFProcess.cpp", "C18"),
 ("dsp/rateconversion/Decimator.cpp", "C12"), ("dsp/rateconversion/DecimatorB.cpp", "C12"), ("dsp/rateconversion/Resampler.cpp", "C13"),
 ("dsp/transforms/FFT.cpp", "C14"), ("dsp/transforms/DCT.cpp", "C15"), ("dsp/phasevocoder/PhaseVocoder.cpp", "C16"), ("dsp/onsets/DetectionFunction.cpp", "C17"), ("dsp/onsets/PeakPicking.cpp", "C18"),
 ("maths/MedianFilter.h", "C20"), ("base/Window.h", "C21"), ("base/KaiserWindow.cpp", "C21"), ("base/KaiserWindow.h", "C21"), ("base/SincWindow.cpp", "C21"), ("base/SincWindow.h", "C21"), ("base/Pitch.cpp", "C36"),
 ("dsp/chromagram/ConstantQ.cpp", "C22"), ("dsp/chromagram/Chromagram.cpp", "C23"), ("dsp/keydetection/GetKeyMode.cpp", "C24"), ("dsp/mfcc/MFCC.cpp", "C25"),
 ("dsp/tempotracking/TempoTrackV2.cpp", "C26"), ("dsp/tempotracking/TempoTrack.cpp", "C27"), ("dsp/tempotracking/DownBeat.cpp", "C28"), ("hmm/hmm.c", "C29 C30"),
 ("dsp/segmentation/ClusterMeltSegmenter.cpp", "C31"), ("dsp/segmentation/Segmenter.cpp", "C31"), ("dsp/segmentation/cluster_segmenter.c", "C31 C32"), ("dsp/segmentation/cluster_melt.c", "C32"),
 ("maths/pca/pca.c", "C33"), ("maths/Polyfit.h", "C34"), ("maths/MathUtilities.cpp", "C35"), ("maths/MathAliases.h", "C35 C14"), ("dsp/tonal/TCSgram.cpp", "C37"), ("dsp/tonal/TonalEstimator.cpp", "C37"), ("dsp/tonal/TonalEstimator.h", "C37"), ("dsp/tonal/ChangeDetectionFunction.cpp", "C37"),
 ("maths/CosineDistance.cpp", "C38"), ("maths/KLDivergence.cpp", "C38"), ("maths/Correlation.cpp", "C38"), ("dsp/rhythm/BeatSpectrum.cpp", "C38"), ("dsp/wavelet/Wavelet.cpp", "C39"),
 ("ext/kissfft/kiss_fft.c", "C14"), ("ext/kissfft/tools/kiss_fftr.c", "C14")]
OPS = [(r"(?<![<>=-])<(?![<=])(?= )", ["<=", ">"]), (r"<=", ["<", ">="]), (r"(?<![->])>(?![>=])(?= )", [">=", "<"]), (r"(?<!>)>=", [">", "<="]), (r"==", ["!="]), (r"!=", ["=="]),
 (r" \+ ", [" - ", " "+"* "]), (r"(?<=[\w\)\]]) - ", [" + "]), (r"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", [" / ", " + "]), (r"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", [" * "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"/=", ["*="]), (r"\+\+", ["--"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
 (r"(?<![\w.])(\d+)(?![\w.])", ["inc", "dec"]), (r"(?<![\w.])(\d+\.\d*)(?![\w.])", ["scale"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]), (r"\bfabs\(", ["("]), (r"\bceil\(", ["floor("]), (r"\bfloor\(", ["ceil("]), (r"\bsqrt\(", ["("]), (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("])]
def sh(c, t=900):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 99, "timeout")
def code_lines(src):
    out, block, dbg = [], False, 0
    for i, l in enumerate(src):
        s = l.strip()
        if block:
            if "*/" in s: block = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: block = True
            continue
        if re.match(r"#ifdef.*DEBUG", s): dbg = 1; continue
        if dbg:
            if s.startswith("#e"): dbg = 0
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("*") or "cerr" in s or "printf" in s or "std::endl" in s: continue
        out.append(i)
    return out
def mutants(f):
    src = open("/repo/" + f, encoding="latin-1").read().split("\n"); r = []
    for i in code_lines(src):
        l = src[i]; c = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, c):
                for rep in reps:
                    t = m.group(0)
                    new = str(int(t) + 1) if rep == "inc" else str(max(0, int(t) - 1)) if rep == "dec" else "(%s*1.01)" % t if rep == "scale" else rep
                    if new == t: continue
                    if "push_back" in l and "Wavelet" in f and pat.startswith(r"(?<![\w.])(\d+)"): continue
                    r.append((i, l[:m.start()] + new + l[m.end():]))
        s = c.strip()
        if s.endswith(";") and not re.match(r"(return|break|continue|int|double|float|size_t|const|static|vector|bool|unsigned|using|typedef|delete|free|struct|class|friend|virtual|enum|long|std::|d_vec_t|i_vec_t|d_mat_t|char)\b", s) and ("=" in s or "(" in s) and not s.startswith("}"): r.append((i, ""))
        if s.startswith("if (") and s.endswith("{"): r.append((i, re.sub(r"if \((.*)\) *\{", r"if (!(\1)) {", l)))
    return src, r
def obj(f):
    if f.endswith(".h"):
        return None
    cc = "gcc" if f.endswith(".c") else "g++"
    r = sh("cd /repo && %s -O2 -c %s -o /tmp/mut.o -w -I. -Iext/kissfft -Iext/kissfft/tools -Iext/clapack/include -Iext/cblas/include -Iinclude -Dkiss_fft_scalar=double -DUSE_PTHREADS -DNO_BLAS_WRAP -DADD_ && objdump -d -s --no-show-raw-insn /tmp/mut.o | md5sum" % (cc, f)); return r.stdout if r.returncode == 0 else "ERR"
log = open(sys.argv[1], "a", buffering=1); rnd = random.Random(int(sys.argv[2])); per100 = float(sys.argv[3]); only = sys.argv[4:]
os.environ["MC_GRACE"] = "0"
for f, props in MAP:
    if only and not any(o in f for o in only): continue
    src, ms = mutants(f); base = obj(f); n = max(3, int(per100 * len(code_lines(src)) / 100)); rnd.shuffle(ms); done = killed = surv = 0
    for i, new in ms:
        if done >= n: break
        m = list(src); m[i] = new; open("/repo/" + f, "w", encoding="latin-1").write("\n".join(m))
        o = obj(f)
        if o == "ERR" or (o is not None and o == base): continue
        t = time.time(); verdict = "SURVIVED"
        for p in props.split():
            r = sh("cd /verif && bin/check %s quick" % p)
            if r.returncode == 1: verdict = "killed " + p; break
            if r.returncode != 0: verdict = ("nocompile" if "error:" in r.stdout else "rc%d" % r.returncode) + " " + p; break
        if verdict.startswith("nocompile"): continue
        done += 1; killed += verdict.startswith("killed"); surv += verdict == "SURVIVED"
        log.write("%-9s %s:%d | %s | %s (%.0fs)\n" % (verdict, f, i + 1, src[i].strip(), new.strip() or "<deleted>", time.time() - t))
    open("/repo/" + f, "w", encoding="latin-1").write("\n".join(src))
    log.write("== %s: %d mutants, %d killed, %d survived\n" % (f, done, killed, surv))
