CHECKS = {
 "C01": dict(src=["c01_mutex.cpp"], flavour="sched"),
 "C02": dict(src=["c02_condition.cpp"], flavour="sched"),
 "C03": dict(src=["c03_asynctask.cpp"], flavour="sched"),
 "C04": dict(src=["c04_thread.cpp"], flavour="sched"),
 "C10": dict(src=["c10_filter.cpp"]),
 "C05": dict(src=["c05_blockalloc.cpp"], lib=False),
 "C11": dict(src=["c11_filtfilt.cpp"]),
 "C18": dict(src=["c18_peaks.cpp"]),
 "C19": dict(src=["c19_framer.cpp"]),
 "C34": dict(src=["c34_polyfit.cpp"]),
 "C35": dict(src=["c35_mathutils.cpp"]),
 "C12": dict(src=["c12_decimator.cpp"]),
 "C14": dict(src=["c14_fft.cpp"]),
 "C15": dict(src=["c15_dct.cpp"]),
 "C16": dict(src=["c16_pvoc.cpp"]),
 "C20": dict(src=["c20_median.cpp"]),
 "C21": dict(src=["c21_windows.cpp"]),
 "C36": dict(src=["c36_pitch.cpp"]),
 "C13": dict(src=["c13_resampler.cpp"]),
 "C17": dict(src=["c17_df.cpp"]),
 "C22": dict(src=["c22_cq.cpp"], hang=60),
 "C23": dict(src=["c23_chroma.cpp"], hang=60),
 "C24": dict(src=["c24_key.cpp"]),
 "C25": dict(src=["c25_mfcc.cpp"]),
 "C26": dict(src=["c26_ttv2.cpp"]),
 "C27": dict(src=["c27_ttv1.cpp"]),
 "C28": dict(src=["c28_downbeat.cpp"]),
 "C29": dict(src=["c29_viterbi.cpp"]),
 "C30": dict(src=["c30_hmmtrain.cpp"], link=["-Wl,--wrap=rand", "-Wl,--wrap=srand"]),
 "C33": dict(src=["c33_pca.cpp"]),
 "C32": dict(src=["c32_clustering.cpp"], link=["-Wl,--wrap=rand", "-Wl,--wrap=srand"]),
 "C31": dict(src=["c31_segmenter.cpp"], hang=120, link=["-Wl,--wrap=rand", "-Wl,--wrap=srand"]),
 "C37": dict(src=["c37_tonal.cpp"]),
 "C39": dict(src=["c39_wavelet.cpp"]),
 "C38": dict(src=["c38_distances.cpp"]),
 "C40": dict(src=["c40_determinism.cpp"], flavour="dirty"),
 "C06": dict(src=["c06_isolation.cpp"], flavour="sched"),
}
