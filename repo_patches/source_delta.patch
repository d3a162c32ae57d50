From 6f9dd0d90ee9299f3e9436e29787f61729c7df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:34 +0000
Subject: [PATCH 01/39] fix: zero-order IIR Filter wrote one element past its
 feedback buffer

---
 dsp/signalconditioning/Filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Filter.cpp b/dsp/signalconditioning/Filter.cpp
index b737860..c0c2437 100644
--- a/dsp/signalconditioning/Filter.cpp
+++ b/dsp/signalconditioning/Filter.cpp
@@ -50,7 +50,8 @@ Filter::Filter(Parameters params)
     m_offb = m_offmax;
 
     if (!m_fir) {
-        m_bufa.resize(m_order + m_offmax);
+        // +1 because m_bufa[m_offmax] is written even when the order is 0
+        m_bufa.resize(m_order + m_offmax + 1);
     }
 
     m_bufb.resize(m_sz + m_offmax);
-- 
2.43.0


From 63c7de31a375719eaf058561c3291d00c2101e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 02/39] fix: Condition::wait(us) passed an invalid timespec
 when the deadline fell exactly on a second

---
 thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/Thread.cpp b/thread/Thread.cpp
index 54820a0..8ad201a 100644
--- a/thread/Thread.cpp
+++ b/thread/Thread.cpp
@@ -510,7 +510,7 @@ Condition::wait(int us)
         gettimeofday(&now, 0);
 
         now.tv_usec += us;
-        while (now.tv_usec > 1000000) {
+        while (now.tv_usec >= 1000000) {
             now.tv_usec -= 1000000;
             ++now.tv_sec;
         }
-- 
2.43.0


From 16b5e1790bf03d3952ac64861eeadf44311d56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 03/39] fix: AsynchronousTask::awaitTask returned before the
 task had run on a spurious wakeup

---
 thread/AsynchronousTask.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread/AsynchronousTask.h b/thread/AsynchronousTask.h
index e34bec0..2a6580c 100644
--- a/thread/AsynchronousTask.h
+++ b/thread/AsynchronousTask.h
@@ -70,7 +70,9 @@ protected:
         m_todo.unlock();
     }
     void awaitTask() {
-        m_done.wait();
+        while (m_inTask) {
+            m_done.wait();
+        }
         m_done.unlock();
     }
 
-- 
2.43.0


From c524e8ba45b05cd9555b355dbabfe4c0a74953e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 04/39] fix: BlockAllocator freed live elements when growing
 past 1024 blocks

---
 thread/BlockAllocator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 6b4c9f5..0c7ae19 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -35,6 +35,8 @@ THE SOFTWARE.
 #define QM_DSP_BLOCK_ALLOCATOR_H
 
 #include <cstdlib>
+#include <deque>
+#include <vector>
 
 /**
  * BlockAllocator is a simple allocator for fixed-size (usually small)
@@ -174,11 +176,9 @@ private:
 
     struct Blocks
     {
-        std::vector<Block> data;
-
-        Blocks() {
-            data.reserve(1024);
-        }
+        // A deque, because a Block owns its memory and must not be
+        // copied or relocated when more of them are added
+        std::deque<Block> data;
     };
 
     const int m_sz;
-- 
2.43.0


From 6289c21d4cc37ddb50b0e8c7345de69b20ef0e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 05/39] fix: FiltFilt result depended on previously processed
 blocks

---
 dsp/signalconditioning/FiltFilt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/signalconditioning/FiltFilt.cpp b/dsp/signalconditioning/FiltFilt.cpp
index 3f011ca..4e8a9ef 100644
--- a/dsp/signalconditioning/FiltFilt.cpp
+++ b/dsp/signalconditioning/FiltFilt.cpp
@@ -71,6 +71,7 @@ void FiltFilt::process(const double *const QM_R__ src,
     
     ////////////////////////////////
     // Do 0Ph filtering
+    m_filter.reset();
     m_filter.process(filtScratchIn, filtScratchOut, nExt);
         
     // reverse the series for FILTFILT 
-- 
2.43.0


From 554eb581b2a10098e1d3596cd142541bc41409f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 06/39] fix: DFProcess median threshold read outside inputs
 shorter than its window

---
 dsp/signalconditioning/DFProcess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 996eb1e..b4ca163 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -112,7 +112,7 @@ void DFProcess::medianFilter(double *src, double *dst)
             break;
         }
 
-        k = i + m_winPost + 1;
+        k = std::min(i + m_winPost + 1, m_length);
 
         for( j = 0; j < k; j++) {
             y[ j ] = src[ j ];
@@ -137,13 +137,13 @@ void DFProcess::medianFilter(double *src, double *dst)
         index++;
     }
 
-    for( i = std::max( m_length - m_winPost, 1); i < m_length; i++) {
+    for( i = index; i < m_length; i++) {
         
         if (index >= m_length) {
             break;
         }
 
-        k = std::max( i - m_winPre, 1);
+        k = std::max( i - m_winPre, 0);
 
         l = 0;
         for( j = k; j < m_length; j++) {
-- 
2.43.0


From f941d6361aa2764fe95483f17643617a0d9c8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 07/39] fix: DFProcess produced NaN for silent input

---
 dsp/signalconditioning/DFProcess.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index b4ca163..25f7bc8 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -186,6 +186,9 @@ void DFProcess::removeDCNormalize( double *src, double*dst )
 
     MathUtilities::getAlphaNorm( src, m_length, m_alphaNormParam, &DFAlphaNorm );
 
+    // a silent input has zero norm, and must stay silent
+    if (DFAlphaNorm == 0) DFAlphaNorm = 1;
+
     for (int i = 0; i < m_length; i++) {
         dst[ i ] = ( src[ i ] - DFMin ) / DFAlphaNorm; 
     }
-- 
2.43.0


From 85fd622f6991aa861bca1d851dd77e770b41ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:44 +0000
Subject: [PATCH 08/39] fix: Framer::getFrame wrote before its buffer when
 called past the end of the source

---
 dsp/signalconditioning/Framer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Framer.cpp b/dsp/signalconditioning/Framer.cpp
index 5281046..757fa7f 100644
--- a/dsp/signalconditioning/Framer.cpp
+++ b/dsp/signalconditioning/Framer.cpp
@@ -61,7 +61,10 @@ void Framer::getFrame(double *dst)
 
     } else { // m_srcIndex is within m_frameLength of m_sampleLen
 
-        int rem = int(m_sampleLen - m_srcIndex);
+        int rem = 0; // no samples remain if m_srcIndex is past the end
+        if (m_srcIndex < m_sampleLen) {
+            rem = int(m_sampleLen - m_srcIndex);
+        }
         int zero = m_frameLength - rem;
 
         for (int i = 0; i < rem; i++) {
-- 
2.43.0


From 3e09cee909506bdc3fe419aad2a96a04e8b9e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 09/39] fix: Window assignment leaked the previous window data

---
 base/Window.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/Window.h b/base/Window.h
index 8c32753..e5970cf 100644
--- a/base/Window.h
+++ b/base/Window.h
@@ -53,6 +53,7 @@ public:
         if (&w == this) return *this;
         m_type = w.m_type;
         m_size = w.m_size;
+        delete[] m_cache;
         encache();
         return *this;
     }
-- 
2.43.0


From 4438d55e81d02e1c8f60ab3fd3127dda429dfa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 10/39] fix: KaiserWindow of length 1 contained NaN

---
 base/KaiserWindow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index 306b6aa..1edcb31 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -56,7 +56,8 @@ KaiserWindow::init()
     double denominator = bessel0(m_beta);
     bool even = (m_length % 2 == 0);
     for (int i = 0; i < (even ? m_length/2 : (m_length+1)/2); ++i) {
-        double k = double(2*i) / double(m_length-1) - 1.0;
+        double k = (m_length > 1 ?
+                    double(2*i) / double(m_length-1) - 1.0 : 0.0);
         m_window.push_back(bessel0(m_beta * sqrt(1.0 - k*k)) / denominator);
     }
     for (int i = 0; i < (even ? m_length/2 : (m_length-1)/2); ++i) {
-- 
2.43.0


From 52c810702292c585816feed16c203479c8d637ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 11/39] fix: DecimatorB divided by zero before rejecting a zero
 factor

---
 dsp/rateconversion/DecimatorB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/rateconversion/DecimatorB.cpp b/dsp/rateconversion/DecimatorB.cpp
index b6cbe3e..7da095d 100644
--- a/dsp/rateconversion/DecimatorB.cpp
+++ b/dsp/rateconversion/DecimatorB.cpp
@@ -40,7 +40,6 @@ void DecimatorB::initialise(int inLength, int decFactor)
 {
     m_inputLength = inLength;
     m_decFactor = decFactor;
-    m_outputLength = m_inputLength / m_decFactor;
 
     if (m_decFactor < 2 || !MathUtilities::isPowerOfTwo(m_decFactor)) {
         std::cerr << "ERROR: DecimatorB::initialise: Decimation factor must be a power of 2 and at least 2 (was: " << m_decFactor << ")" << std::endl;
@@ -54,6 +53,8 @@ void DecimatorB::initialise(int inLength, int decFactor)
         return;
     }        
 
+    m_outputLength = m_inputLength / m_decFactor;
+
     m_aaBuffer = new double[m_inputLength];
     m_tmpBuffer = new double[m_inputLength];
 
-- 
2.43.0


From d3099b39f49816cd628485f15a4d48af0d724746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 12/39] fix: ConstantQ interleaved process wrote one element
 past its result buffer

---
 dsp/chromagram/ConstantQ.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d268756..63ffe0f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -168,7 +168,6 @@ double* ConstantQ::process( const double* fftdata )
 
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
-        m_CQdata[ row+1 ] = 0;
     }
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
-- 
2.43.0


From e4208f66a25820db413db413e41472f44e10b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 13/39] fix: ConstantQ interleaved process paired each kernel
 value with the wrong spectrum bin

---
 dsp/chromagram/ConstantQ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 63ffe0f..d73af1a 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -181,8 +181,8 @@ double* ConstantQ::process( const double* fftdata )
         if (col == 0) continue;
         const double & r1 = real[i];
         const double & i1 = imag[i];
-        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col - 2 ];
-        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col - 2 + 1 ];
+        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col ];
+        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col + 1 ];
         // add the multiplication
         m_CQdata[ 2*row  ] += (r1*r2 - i1*i2);
         m_CQdata[ 2*row+1] += (r1*i2 + i1*r2);
-- 
2.43.0


From c2c0ecb0d23a2902c20c27dd9e589965d5182b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 14/39] fix: ConstantQ::sparsekernel leaked the previous kernel
 when called again

---
 dsp/chromagram/ConstantQ.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d73af1a..77a0b3f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -123,6 +123,7 @@ void ConstantQ::sparsekernel()
     delete [] transfWindowRe;
     delete [] transfWindowIm;
 
+    delete m_sparseKernel;
     m_sparseKernel = sk;
 }
 
-- 
2.43.0


From b48a7da5036dc7e88da829914faff91d4e070697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 15/39] fix: ConstantQ process indexed into an empty kernel
 when thresholding removed every value

---
 dsp/chromagram/ConstantQ.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 77a0b3f..708bf32 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -170,6 +170,8 @@ double* ConstantQ::process( const double* fftdata )
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
     }
+    if (sk->real.empty()) return m_CQdata;
+
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
     const double *real = &(sk->real[0]);
@@ -207,6 +209,8 @@ void ConstantQ::process(const double *FFTRe, const double* FFTIm,
         CQIm[ row ] = 0;
     }
 
+    if (sk->real.empty()) return;
+
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
     const double *real = &(sk->real[0]);
-- 
2.43.0


From 4fb9ca9e942fa7af602119aafe6d0624ed14202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 16/39] fix: GetKeyMode wrote outside its buffers when asked
 for no averaging

---
 dsp/keydetection/GetKeyMode.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/keydetection/GetKeyMode.cpp b/dsp/keydetection/GetKeyMode.cpp
index 879f8a8..7ce3fde 100644
--- a/dsp/keydetection/GetKeyMode.cpp
+++ b/dsp/keydetection/GetKeyMode.cpp
@@ -100,6 +100,10 @@ GetKeyMode::GetKeyMode(Config config) :
         (m_hpcpAverage * chromaConfig.FS / m_chromaFrameSize);
     m_medianWinSize = (int)ceil
         (m_medianAverage * chromaConfig.FS / m_chromaFrameSize);
+
+    // An averaging time of zero means no averaging: just the last frame
+    if (m_chromaBufferSize < 1) m_chromaBufferSize = 1;
+    if (m_medianWinSize < 1) m_medianWinSize = 1;
     
     // Reset counters
     m_bufferIndex = 0;
-- 
2.43.0


From 801937f1a2596cceccd9b66b28dcddfe46c32331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 17/39] fix: TempoTrackV2 read before its score buffer when the
 beat period exceeded the input length

---
 dsp/tempotracking/TempoTrackV2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index 72812b2..fe0d13a 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -465,12 +465,13 @@ TempoTrackV2::calculateBeats(const vector<double> &df,
 
     // STARTING POINT, I.E. LAST BEAT.. PICK A STRONG POINT IN cumscore VECTOR
     d_vec_t tmp_vec;
-    for (int i = df_len - beat_period[beat_period.size()-1] ; i < df_len; i++) {
+    int searchstart = df_len - beat_period[beat_period.size()-1];
+    if (searchstart < 0) searchstart = 0;
+    for (int i = searchstart; i < df_len; i++) {
         tmp_vec.push_back(cumscore[i]);
     }
 
-    int startpoint = get_max_ind(tmp_vec) +
-        df_len - beat_period[beat_period.size()-1] ;
+    int startpoint = get_max_ind(tmp_vec) + searchstart;
 
     // can happen if no results obtained earlier (e.g. input too short)
     if (startpoint >= int(backlink.size())) {
-- 
2.43.0


From ec79eec82fbf6a96a84b1d70f9559e23c1679e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 18/39] fix: TempoTrackV2 wrote outside a beat period vector
 shorter than the detection function

---
 dsp/tempotracking/TempoTrackV2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index fe0d13a..6b9de33 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -148,6 +148,10 @@ TempoTrackV2::calculateBeatPeriod(const vector<double> &df,
     int col_counter = -1;
     int df_len = int(df.size());
 
+    if (int(beat_period.size()) < df_len) {
+        beat_period.resize(df_len);
+    }
+
     // main loop for beat period calculation
     for (int i = 0; i+winlen < df_len; i+=step) {
         
-- 
2.43.0


From ebe4085a226a97dc6613c4bd5f5abf69705b7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:15 +0000
Subject: [PATCH 19/39] fix: TempoTrack process read past its source when used
 more than once

---
 dsp/tempotracking/TempoTrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index ac0aadb..12b4338 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -651,6 +651,7 @@ vector<int> TempoTrack::process( vector <double> DF,
     for(int clear = 0; clear < m_lagLength; clear++){ PW[ clear ] = 0.0;}
 
     m_DFFramer.setSource( &causalDF[0], m_dataLength );
+    m_DFFramer.resetCounters();
 
     int TTFrames = m_DFFramer.getMaxNoFrames();
 
-- 
2.43.0


From 13d03cc005b495ed3c29b219ad02d41ffa4b2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:15 +0000
Subject: [PATCH 20/39] fix: TempoTrack::findMeter leaked its scratch buffer
 and read outside the autocorrelation

---
 dsp/tempotracking/TempoTrack.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 12b4338..512d386 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -436,17 +436,13 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
     double temp4A = 0.0;
     double temp4B = 0.0;
 
-    double* dbf = new double[ len ]; int t = 0;
-    for( int u = 0; u < len; u++ ){ dbf[ u ] = 0.0; }
-
     if( (double)len < 6 * p + 2 ) {
         
-        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
+        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1 && i < len; i++ ) {
             temp3A += ACF[ i ];
-            dbf[ t++ ] = ACF[ i ];
         }
         
-        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1; i++ ) {
+        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1 && i < len; i++ ) {
             temp4A += ACF[ i ];
         }
 
@@ -455,19 +451,19 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
 
     } else {
         
-        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
+        for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1 && i < len; i++ ) {
             temp3A += ACF[ i ];
         }
         
-        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1; i++ ) {
+        for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1 && i < len; i++ ) {
             temp4A += ACF[ i ];
         }
 
-        for( i = ( 6 * p - 2 ); i < ( 6 * p + 2 ) + 1; i++ ) {
+        for( i = ( 6 * p - 2 ); i < ( 6 * p + 2 ) + 1 && i < len; i++ ) {
             temp3B += ACF[ i ];
         }
         
-        for( i = ( 2 * p - 2 ); i < ( 2 * p + 2 ) + 1; i++ ) {
+        for( i = ( 2 * p - 2 ); i < ( 2 * p + 2 ) + 1 && i < len; i++ ) {
             temp4B += ACF[ i ];
         }
 
-- 
2.43.0


From e9f008194b323fc541f2acf2a843b247f5e4601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:15 +0000
Subject: [PATCH 21/39] fix: TempoTrack::tempoMM read past the autocorrelation
 for long beat periods

---
 dsp/tempotracking/TempoTrack.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 512d386..1ec4c85 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -309,7 +309,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2; i++ ) {
+        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -322,7 +322,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3; i++ ) {
+        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -335,7 +335,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = ( 4 * maxIndexRCF + 3) - 3; i < ( 4 * maxIndexRCF + 3) + 4; i++ ) {
+        for( i = ( 4 * maxIndexRCF + 3) - 3; i < ( 4 * maxIndexRCF + 3) + 4 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -365,7 +365,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2; i++ ) {
+        for( i = (2 * maxIndexRCF + 1) - 1; i < (2 * maxIndexRCF + 1) + 2 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
@@ -378,7 +378,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
         maxValTemp = 0.0;
         count = 0;
 
-        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3; i++ ) {
+        for( i = (3 * maxIndexRCF + 2 ) - 2; i < (3 * maxIndexRCF + 2 ) + 3 && i < m_winLength; i++ ) {
             if( ACF[ i ] > maxValTemp ) {
                 maxValTemp = ACF[ i ];
                 maxIndexTemp = count;
-- 
2.43.0


From 3ba4a926a20b8b42dcebc765a3379aac0a0a0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 22/39] fix: TempoTrack never returned when the
 context-dependent comb filter found no period

---
 dsp/tempotracking/TempoTrack.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 1ec4c85..4cf501e 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -393,6 +393,13 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
 
     delete [] pdPeaks;
 
+    if (MathUtilities::round( period ) < 1) {
+        // nothing periodic was found: fall back to a moderate tempo,
+        // as a period of less than one frame can't be used to step
+        // from beat to beat
+        period = 5168 / 120;
+    }
+
     return period;
 }
 
-- 
2.43.0


From 448988e0cd6fd32cede2b27e8862fb285242d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 23/39] fix: TempoTrack truncated period ratios to integers
 when choosing the beat period

---
 dsp/tempotracking/TempoTrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index 4cf501e..4e0cdd5 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -232,7 +232,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
                 double log2PeriodRatio = log( static_cast<double>(i)/
                                               static_cast<double>(j) ) /
                     log(2.0);
-                rcfMat[i][j] = ( abs(1.0-abs(log2PeriodRatio)) );
+                rcfMat[i][j] = ( fabs(1.0-fabs(log2PeriodRatio)) );
                 rcfMat[i][j] += ( 0.01*( 1./(m_tempoScratch[i]+m_tempoScratch[j]) ) );
             }
         }
-- 
2.43.0


From a01549c109bea09a9f48abf6baf4236f634c34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 24/39] fix: DownBeat::resetAudioBuffer kept decimator state,
 so later audio began with the tail of the old

---
 dsp/tempotracking/DownBeat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/tempotracking/DownBeat.cpp b/dsp/tempotracking/DownBeat.cpp
index a5101f6..ac7e450 100644
--- a/dsp/tempotracking/DownBeat.cpp
+++ b/dsp/tempotracking/DownBeat.cpp
@@ -132,6 +132,8 @@ DownBeat::resetAudioBuffer()
     m_buffer = 0;
     m_buffill = 0;
     m_bufsiz = 0;
+    if (m_decimator1) m_decimator1->resetFilter();
+    if (m_decimator2) m_decimator2->resetFilter();
 }
 
 void
-- 
2.43.0


From da322b9ad5b49a8e24d784d102c43f57428cf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 25/39] fix: hmm_close leaked the initial state distribution

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index e00e829..e5bc8a6 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -131,6 +131,7 @@ void hmm_close(model_t* model)
         free(model->a[i]);
         free(model->mu[i]);
     }
+    free(model->p0);
     free(model->a);
     free(model->mu);
     for (i = 0; i < model->L; i++) {
-- 
2.43.0


From 19c0c1a67609eb9677b6442df316a2a9bab5ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 26/39] fix: HMM covariance inversion leaked its pivot indices

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index e5bc8a6..5ace73c 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -609,6 +609,7 @@ void invert(double** cov, int L, double** icov, double* detcov)
 #ifndef HAVE_ATLAS	
     free(work);
 #endif
+    free(ipiv);
     free(a);	
 }
 
-- 
2.43.0


From 0fbbaddfe68dc885690ad9e91ea6ac5390475b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 27/39] fix: PCA projected on to unsorted eigenvectors, so
 leading components were not the principal ones

---
 maths/pca/pca.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index fa8d1de..ddd95e0 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -280,6 +280,25 @@ void pca_project(double** data, int n, int m, int ncomponents)
 /* evals now contains the eigenvalues,
    columns of symmat now contain the associated eigenvectors. */   
 
+/* The QL algorithm leaves the eigenvalues in no particular order: sort
+   them, with their eigenvectors, so that the largest comes last. */
+    for (i = 0; i < m-1; i++) {
+        k = i;
+        for (j = i+1; j < m; j++) {
+            if (evals[j] < evals[k]) k = j;
+        }
+        if (k != i) {
+            double tmp = evals[i];
+            evals[i] = evals[k];
+            evals[k] = tmp;
+            for (j = 0; j < m; j++) {
+                tmp = symmat[j][i];
+                symmat[j][i] = symmat[j][k];
+                symmat[j][k] = tmp;
+            }
+        }
+    }
+
 /*
   printf("\nEigenvalues:\n");
   for (j = m-1; j >= 0; j--) {
-- 
2.43.0


From 161af7fa2421cf170f37f674844430570c0d529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 28/39] fix: constq_segment read and wrote outside its features
 with fewer coefficients than components

---
 dsp/segmentation/cluster_segmenter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/segmentation/cluster_segmenter.c b/dsp/segmentation/cluster_segmenter.c
index 1b3e591..ae9123f 100644
--- a/dsp/segmentation/cluster_segmenter.c
+++ b/dsp/segmentation/cluster_segmenter.c
@@ -214,6 +214,9 @@ void constq_segment(int* q, double** features, int frames_read, int bins, int nc
 
         /* do PCA on the features (but not the envelope) */
         int ncomponents = 20;
+        if (ncomponents > ncoeff) {
+            ncomponents = ncoeff;
+        }
         pca_project(features, frames_read, ncoeff, ncomponents);
                 
         /* copy the envelope so that it immediatly follows the chosen components */
-- 
2.43.0


From 734a277e16445713f361f9d2a8836bec1e479b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 29/39] fix: release the MFCC extractor of ClusterMeltSegmenter
 in its destructor

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 6fbb3b5..33be8d6 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -116,6 +116,7 @@ ClusterMeltSegmenter::~ClusterMeltSegmenter()
 {
     delete window;
     delete constq;
+    delete mfcc;
     delete decimator;
     delete fft;
 }
-- 
2.43.0


From 06e97cdee6e0af9030f922fcf6918580093dd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 30/39] fix: do not leak the previous extractors when
 ClusterMeltSegmenter is initialised again

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 33be8d6..f5de045 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -51,6 +51,15 @@ void ClusterMeltSegmenter::initialise(int fs)
 {
     samplerate = fs;
 
+    delete constq;
+    constq = 0;
+    delete mfcc;
+    mfcc = 0;
+    delete decimator;
+    decimator = 0;
+    delete fft;
+    fft = 0;
+
     if (featureType == FEATURE_TYPE_CONSTQ ||
         featureType == FEATURE_TYPE_CHROMA) {
         
-- 
2.43.0


From 7a5cb5725b47be898d06c9002b1770768a2a1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 31/39] fix: do not read past the decimated window in
 ClusterMeltSegmenter feature extraction

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index f5de045..e083eef 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -181,7 +181,8 @@ void ClusterMeltSegmenter::extractFeaturesConstQ(const double* samples, int nsam
     int pcount = nsamples;
 
     if (decimator) {
-        pcount = nsamples / decimator->getFactor();
+        // the decimator always processes exactly one window
+        pcount = getWindowsize() / decimator->getFactor();
         double *decout = new double[pcount];
         decimator->process(samples, decout);
         psource = decout;
@@ -272,7 +273,8 @@ void ClusterMeltSegmenter::extractFeaturesMFCC(const double* samples, int nsampl
     int pcount = nsamples;
 
     if (decimator) {
-        pcount = nsamples / decimator->getFactor();
+        // the decimator always processes exactly one window
+        pcount = getWindowsize() / decimator->getFactor();
         double *decout = new double[pcount];
         decimator->process(samples, decout);
         psource = decout;
-- 
2.43.0


From 2b34a77b043f4ec65dfdafc4d81672c0d4ca4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 32/39] fix: initialise the frame duration of TCSGram

---
 dsp/tonal/TCSgram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/tonal/TCSgram.cpp b/dsp/tonal/TCSgram.cpp
index 4806096..e681841 100644
--- a/dsp/tonal/TCSgram.cpp
+++ b/dsp/tonal/TCSgram.cpp
@@ -23,7 +23,8 @@
 #include "maths/MathUtilities.h"
 
 TCSGram::TCSGram() :
-    m_uNumBins(6)
+    m_uNumBins(6),
+    m_dFrameDurationMS(0.0)
 {
 }
 
-- 
2.43.0


From 594124fcbb521e7a2ced7d47866c86518cc21896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 33/39] fix: keep ChromaVector::normalizeL1 and clear within
 the vector's size

---
 dsp/tonal/TonalEstimator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/tonal/TonalEstimator.h b/dsp/tonal/TonalEstimator.h
index 3a434d0..a063ff9 100644
--- a/dsp/tonal/TonalEstimator.h
+++ b/dsp/tonal/TonalEstimator.h
@@ -41,12 +41,12 @@ public:
         // normalize the chroma vector (L1 norm)
         double dSum = 0.0;
         
-        for (size_t i = 0; i < 12; (dSum += std::abs((*this)[i++]))) ;
-        for (size_t i = 0; i < 12; dSum > 0.0000001?((*this)[i] /= dSum):(*this)[i]=0.0, i++) ;
+        for (size_t i = 0; i < size(); (dSum += std::abs((*this)[i++]))) ;
+        for (size_t i = 0; i < size(); dSum > 0.0000001?((*this)[i] /= dSum):(*this)[i]=0.0, i++) ;
     }
 
     void clear() {
-        for (size_t i = 0; i < 12; ++i) (*this)[i] = 0.0;
+        for (size_t i = 0; i < size(); ++i) (*this)[i] = 0.0;
     }
 };
 
-- 
2.43.0


From ec711043fb7de44474fc46314e89230a51b2f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 34/39] fix: give the bundled LAPACK's ilaenv automatic working
 variables

---
 ext/clapack/src/ilaenv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ext/clapack/src/ilaenv.c b/ext/clapack/src/ilaenv.c
index 425f141..38ff960 100644
--- a/ext/clapack/src/ilaenv.c
+++ b/ext/clapack/src/ilaenv.c
@@ -19,14 +19,14 @@ integer ilaenv_(integer *ispec, char *name__, char *opts, integer *n1,
     integer s_cmp(char *, char *, ftnlen, ftnlen);
 
     /* Local variables */
-    static integer i__;
-    static char c1[1], c2[2], c3[3], c4[2];
-    static integer ic, nb, iz, nx;
-    static logical cname;
-    static integer nbmin;
-    static logical sname;
+    integer i__;
+    char c1[1], c2[2], c3[3], c4[2];
+    integer ic, nb, iz, nx;
+    logical cname;
+    integer nbmin;
+    logical sname;
     extern integer ieeeck_(integer *, real *, real *);
-    static char subnam[6];
+    char subnam[6];
     extern integer iparmq_(integer *, char *, char *, integer *, integer *, 
 	    integer *, integer *);
 
-- 
2.43.0


From 45a1e2ebec243cc78af24ce64f15f554bba492d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:23 +0000
Subject: [PATCH 35/39] fix: DetectionFunction whitening without a floor
 produced NaN for silent bins

---
 dsp/onsets/DetectionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/onsets/DetectionFunction.cpp b/dsp/onsets/DetectionFunction.cpp
index 7319f22..1d63c22 100644
--- a/dsp/onsets/DetectionFunction.cpp
+++ b/dsp/onsets/DetectionFunction.cpp
@@ -123,7 +123,7 @@ void DetectionFunction::whiten()
         }
         if (m < m_whitenFloor) m = m_whitenFloor;
         m_magPeaks[i] = m;
-        m_magnitude[i] /= m;
+        if (m > 0) m_magnitude[i] /= m;
     }
 }
 
-- 
2.43.0


From 8b580f3ac89a085c0b9890156a6a2a51bc80352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:45 +0000
Subject: [PATCH 36/39] fix: DCT::forward was contaminated by rounding residue
 of a preceding inverse

---
 dsp/transforms/DCT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsp/transforms/DCT.cpp b/dsp/transforms/DCT.cpp
index 1ce1abe..97c5f53 100644
--- a/dsp/transforms/DCT.cpp
+++ b/dsp/transforms/DCT.cpp
@@ -35,8 +35,12 @@ DCT::~DCT()
 void
 DCT::forward(const double *in, double *out)
 {
+    // the even positions must be exactly zero: a previous inverse()
+    // leaves its rounding residue there
     for (int i = 0; i < m_n; ++i) {
+        m_time2[i*2] = 0.0;
         m_time2[i*2 + 1] = in[i];
+        m_time2[m_n*4 - i*2 - 2] = 0.0;
         m_time2[m_n*4 - i*2 - 1] = in[i];
     }
 
-- 
2.43.0


From 44e6a884a0ad8fc8b4f1325fb1296d5a70be86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:01 +0000
Subject: [PATCH 37/39] fix: Kaiser windows of high attenuation were inaccurate

The power series for the zeroth-order Bessel function was cut off at
20 terms, which is too few for arguments above about 16 (attenuations
of more than about 150 dB).
---
 base/KaiserWindow.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index 1edcb31..31ac1c8 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -13,8 +13,6 @@
 
 #include "KaiserWindow.h"
 
-#include "maths/MathUtilities.h"
-
 KaiserWindow::Parameters
 KaiserWindow::parametersForTransitionWidth(double attenuation,
                                            double transition)
@@ -31,21 +29,15 @@ KaiserWindow::parametersForTransitionWidth(double attenuation,
     return p;
 }
 
-static double besselTerm(double x, int i)
-{
-    if (i == 0) {
-        return 1;
-    } else {
-        double f = MathUtilities::factorial(i);
-        return pow(x/2, i*2) / (f*f);
-    }
-}
-
 static double bessel0(double x)
 {
-    double b = 0.0;
-    for (int i = 0; i < 20; ++i) {
-        b += besselTerm(x, i);
+    // Sum the power series until the terms no longer contribute: how
+    // many that takes depends on x
+    double b = 1.0;
+    double term = 1.0;
+    for (int i = 1; term > b * 1e-20; ++i) {
+        term *= (x / (2 * i)) * (x / (2 * i));
+        b += term;
     }
     return b;
 }
-- 
2.43.0


From 1b637e81a6059316cbd64d7e1703a3351a245174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:54 +0000
Subject: [PATCH 38/39] fix: MathUtilities::compareInt overflowed for values
 far apart

---
 maths/MathUtilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maths/MathUtilities.cpp b/maths/MathUtilities.cpp
index a8ada2e..9aa18fb 100644
--- a/maths/MathUtilities.cpp
+++ b/maths/MathUtilities.cpp
@@ -229,7 +229,8 @@ void MathUtilities::circShift( double* pData, int length, int shift)
 
 int MathUtilities::compareInt (const void * a, const void * b)
 {
-    return ( *(int*)a - *(int*)b );
+    int x = *(const int *)a, y = *(const int *)b;
+    return ( x > y ) - ( x < y );
 }
 
 void MathUtilities::normalise(double *data, int length, NormaliseType type)
-- 
2.43.0


From f9f207419adb6995e15a530c6ac6cd233af073c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:10 +0000
Subject: [PATCH 39/39] fix: Pitch::getPitchForFrequency did not return the
 nearest semitone below MIDI pitch 0

---
 base/Pitch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/Pitch.cpp b/base/Pitch.cpp
index 2b8fd8b..aac05f2 100644
--- a/base/Pitch.cpp
+++ b/base/Pitch.cpp
@@ -32,7 +32,8 @@ Pitch::getPitchForFrequency(float frequency,
 {
     float p = 12.0 * (log(frequency / (concertA / 2.0)) / log(2.0)) + 57.0;
 
-    int midiPitch = int(p + 0.00001);
+    // round down, not towards zero, so as to be right below pitch 0
+    int midiPitch = int(floor(p + 0.00001));
     float centsOffset = (p - midiPitch) * 100.0;
 
     if (centsOffset >= 50.0) {
-- 
2.43.0

