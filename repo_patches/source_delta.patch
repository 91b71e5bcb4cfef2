From 36a26e5c745c09a70a6f4ed21b7745ad4f09881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 01/71] fix: RingBuffer wraps negative indexes for every buffer
 size

---
 include/maec/dsp/buffer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 5862f6d..1972f0a 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1895,7 +1895,15 @@ protected:
      * @param nindex Index to normalize
      * @return Normalized index
      */
-    int normalize_index(int nindex) const { return nindex % this->size(); }
+    int normalize_index(int nindex) const {
+
+        // Work with signed values, so rewinding past the start also wraps:
+
+        const int bsize = static_cast<int>(this->size());
+        const int rem = nindex % bsize;
+
+        return rem < 0 ? rem + bsize : rem;
+    }
 
 public:
     /**
-- 
2.43.0


From 28b4da9300eca0ffdc579d8e0de24afb78cfd90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 02/71] fix: iir.hpp can be included by more than one source
 file

---
 include/maec/dsp/iir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index ac44a41..c49856a 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -43,7 +43,7 @@ namespace dsp::iir {
  * @param sra Sample rate in hertz
  * @return double Mapped frequency in radians from -pi to pi
  */
-double freq_map(double freq, double sra) {
+inline double freq_map(double freq, double sra) {
 
     return dsp::consts::pi_2 * (freq / sra);
 }
-- 
2.43.0


From 62a6d47b92b6942e2e72a1a86112580fe27275aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 03/71] fix: IIRFilter pairs each B coefficient with the output
 it belongs to

---
 include/maec/dsp/iir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index c49856a..35c2848 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -231,7 +231,7 @@ private:
             // We then multiply the output value by the B coefficient,
             // and add it to the final value:
 
-            final_value += outputs[index - i] * bcoes[i];
+            final_value += outputs[index - 1 - i] * bcoes[i];
         }
 
         // Add final value to container
-- 
2.43.0


From 94360e1002d4b5a8429deb980793aaeffe92020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 04/71] fix: IIRFilter without A or B coefficients no longer
 divides by zero

---
 include/maec/dsp/iir.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 35c2848..4f253ee 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstddef>
@@ -264,12 +265,14 @@ public:
         // Resize the input and output buffers to the size of the number of
         // poles:
 
-        this->inputs.resize(this->acoes.size());
-        this->outputs.resize(this->bcoes.size());
+        // (the buffers are written for every sample, so they can't be empty)
+
+        this->inputs.resize(std::max<std::size_t>(this->acoes.size(), 1));
+        this->outputs.resize(std::max<std::size_t>(this->bcoes.size(), 1));
 
         // The index should be the max of the number of A and B poles:
 
-        this->index = std::max(this->acoes.size(), this->bcoes.size());
+        this->index = std::max(this->inputs.size(), this->outputs.size());
     }
 
     /**
-- 
2.43.0


From 09fae4ee56971251840ded237a10789d42156d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:32 +0000
Subject: [PATCH 05/71] fix: SinglePole derives its coefficients from the
 cutoff fraction

---
 include/maec/dsp/iir.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 4f253ee..e6a2e77 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -645,7 +645,7 @@ public:
 
             // Determine the X value:
 
-            double xval = this->frac_to_x(this->get_freq_high());
+            double xval = this->frac_to_x(this->get_frac_high());
 
             // Generate A & B coefficients:
 
@@ -666,14 +666,14 @@ public:
 
             // Determine the x value:
 
-            double xval = this->frac_to_x(this->get_freq_low());
+            double xval = this->frac_to_x(this->get_frac_low());
 
             // Generate A & B coefficients:
 
             this->set_a(0, (1 + xval) / 2);
             this->set_a(1, -(1 + xval) / 2);
 
-            this->set_b(0, this->get_freq_low());
+            this->set_b(0, xval);
         }
     }
 };
-- 
2.43.0


From 5efc243a9df2b8df2c43a0e059927c8a5a34505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 06/71] fix: dot_product accumulates in the type it returns

---
 include/maec/dsp/matrix.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index b28523b..2f52565 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -20,6 +20,9 @@
 
 #pragma once
 
+#include <iterator>
+#include <type_traits>
+
 #include "dsp/buffer.hpp"
 
 namespace dsp::mat {
@@ -53,10 +56,10 @@ namespace dsp::mat {
  * @param num Number of values to compute
  * @return Scalar result of dot product
  */
-template <typename A, typename B, typename T = typename std::iterator_traits<A>::value_type>
+template <typename A, typename B, typename T = std::remove_cv_t<typename std::iterator_traits<A>::value_type>>
 T dot_product(const A& aiter, const B& biter, int num) {
 
-    int done = 0;
+    T done = 0;
 
     // Iterate over each value in the provided iterators:
 
-- 
2.43.0


From cf7cfa29b321057722e09a2b155eddbfbba5dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:01 +0000
Subject: [PATCH 07/71] fix: matrix_mult compiles and handles matrices that are
 not square

---
 include/maec/dsp/matrix.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index 2f52565..e306767 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -132,18 +132,22 @@ T dot_product(const A& aiter, const B& biter, int num) {
 template <typename T, typename U, typename V>
 void matrix_mult(const dsp::buff::Buffer<T>& buf1, const dsp::buff::Buffer<U>& buf2, dsp::buff::Buffer<V>& out) {
 
-    // Configure the out buffer to match our size:
+    // The rows of a matrix are its channels, the columns are its samples.
+    // Configure the out buffer to match the rows of A and the columns of B:
 
-    out.set_channels(buf2.channels());
-    out.set_channel_capacity(buf1.channel_capacity());
+    const int rows = static_cast<int>(buf1.channels());
+    const int cols = static_cast<int>(buf2.channel_capacity());
+
+    out.set_channels(rows);
+    out.resize(rows * cols);
 
     // Iterate over the rows:
 
-    for (int row = 0; row < buf1.channel_capacity(); ++row) {
+    for (int row = 0; row < rows; ++row) {
 
         // Iterate over the cols:
 
-        for (int col = 0; col < buf2.channels(); ++col) {
+        for (int col = 0; col < cols; ++col) {
 
             // Grab the iterators:
 
-- 
2.43.0


From d6fa5bd7f2454412d8e6417593f9288331b35741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 08/71] fix: the module count stays accurate when a chain is
 synced again

---
 include/maec/sink_module.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 9390465..519fc23 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -84,6 +84,10 @@ public:
      *
      */
     void info_sync() override {
+        // We are the first module in the chain, start counting again:
+
+        this->chain_instance.module_num = 1;
+
         // Configure the AudioInfo:
 
         this->get_info()->from_chain(this->chain_instance);
-- 
2.43.0


From bc3622cb5d423ad4eb358d0e4ffd513fe581eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 09/71] fix: Counter counts each sample of a multi channel
 buffer once

---
 src/meta_audio.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 45cb705..cbcd027 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,8 +19,9 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples +=
-        static_cast<int>(this->buff.size()) * this->buff.channels();
+    // (the size of a buffer includes every channel)
+
+    this->m_samples += static_cast<int>(this->buff.size());
 }
 
 void LatencyModule::reset() {
-- 
2.43.0


From 6361f2024dde04880f39ce162c65a881f95f281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 10/71] fix: LatencyModule expects the duration of a frame once
 per frame

---
 src/meta_audio.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index cbcd027..2d2e1a1 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -66,8 +66,9 @@ void LatencyModule::meta_process() {
 
     // Get size of buffer:
 
-    const int samples =
-        static_cast<int>(this->buff.size() * this->buff.channels());
+    // (this includes every channel)
+
+    const int samples = static_cast<int>(this->buff.size());
 
     // Update chain timer:
 
@@ -86,7 +87,8 @@ void LatencyModule::meta_process() {
     // Determine the latency:
 
     this->operation_latency =
-        this->operation_time - this->timer.get_time(samples);
+        this->operation_time -
+        this->timer.get_time(samples, static_cast<int>(this->buff.channels()));
 
     // Add to total latency:
 
-- 
2.43.0


From d5ea61718f49f4a845fc1219ba6016896efdef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 11/71] fix: LatencyModule averages start over after a reset

---
 include/maec/meta_audio.hpp | 8 ++++++--
 src/meta_audio.cpp          | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 05032fa..eff2f4c 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -228,7 +228,9 @@ public:
      * @return int Average operation time in nanoseconds
      */
     int64_t average_time() const {
-        return this->total_operation_time / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_time / this->processed();
     }
 
     /**
@@ -240,7 +242,9 @@ public:
      * @return int Average operation latency in nanoseconds
      */
     int64_t average_latency() const {
-        return this->total_operation_latency / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_latency / this->processed();
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 2d2e1a1..b622737 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -33,6 +33,10 @@ void LatencyModule::reset() {
     this->total_operation_latency = 0;
     this->total_operation_time = 0;
 
+    // Reset the number of operations and samples encountered:
+
+    Counter::reset();
+
     // Reset chain timer:
 
     this->timer.reset();
-- 
2.43.0


From 0b2620e3a116bca346eeb30e6f3b419660afc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 12/71] fix: BufferModule no longer writes past buffers smaller
 than the one it repeats

---
 src/meta_audio.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index b622737..2d6992e 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -105,13 +105,10 @@ void LatencyModule::meta_process() {
 
 void BufferModule::process() {
 
-    // First, create a buffer to use:
+    // Output a copy of our old buffer:
+    // (the copy always matches the size of the buffer being repeated)
 
-    this->reserve();
-
-    // Next, fill it using the contents of our old buffer:
-
-    std::copy(this->gbuff->ibegin(), this->gbuff->iend(), this->buff.ibegin());
+    this->set_buffer(AudioBuffer(*(this->gbuff)));
 }
 
 void UniformBuffer::process() {
-- 
2.43.0


From c5d06b68972345182920b55d12a56f01b65e7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 13/71] fix: UniformBuffer fills every channel of its output

---
 src/meta_audio.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 2d6992e..7b64b86 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -117,7 +117,11 @@ void UniformBuffer::process() {
 
     this->reserve();
 
-    while (this->index < this->get_info()->out_buffer) {
+    // Number of values to fill, this includes every channel:
+
+    const int osize = static_cast<int>(this->buff.size());
+
+    while (this->index < osize) {
 
         // Determine if in buffer is out of values:
 
@@ -142,7 +146,7 @@ void UniformBuffer::process() {
         // Determine the number of samples yet to fill:
 
         int remaining =
-            std::min(this->get_info()->out_buffer - this->index,
+            std::min(osize - this->index,
                      static_cast<int>(this->ibuff.size()) - this->iindex);
 
         // Fill the current buffer with this value:
-- 
2.43.0


From 75583575aa62d853ae8c66cd5cdd839486b85c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 14/71] fix: ModuleMixUp copies buffers of any size and channel
 count

---
 src/module_mixer.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index d62979b..9d7d1fb 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -173,14 +173,10 @@ void ModuleMixUp::forward(BaseModule* mod) {
 
 AudioBuffer&& ModuleMixUp::get_buffer() {
 
-    // Configure the temporary buffer
+    // Copy the current buffer into the temporary buffer:
+    // (the copy always matches the size and channels of the current buffer)
 
-    tbuff.set_channels(this->get_info()->channels);
-    tbuff.set_samplerate(this->get_info()->sample_rate);
-
-    tbuff.resize(this->get_info()->out_buffer);
-
-    std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());
+    this->tbuff = this->buff;
 
     // Finally, return the buffer:
 
-- 
2.43.0


From 423ca2d1b3daf2e531b318e431f5efdd7b5a39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 15/71] fix: ModuleMixUp can take part in an info sync

---
 src/module_mixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index 9d7d1fb..3fb546d 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -169,6 +169,10 @@ void ModuleMixUp::forward(BaseModule* mod) {
     // Add the forward module to our vector:
 
     this->out.push_back(mod);
+
+    // Keep it as our forward module, so we can be synced:
+
+    AudioModule<>::forward(mod);
 }
 
 AudioBuffer&& ModuleMixUp::get_buffer() {
-- 
2.43.0


From f896cc82626efe3b426cf55f18762c2289f2cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:38 +0000
Subject: [PATCH 16/71] fix: ModuleParam keeps its configuration when a new
 constant is set

---
 src/module_param.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_param.cpp b/src/module_param.cpp
index 17000ce..ad90166 100644
--- a/src/module_param.cpp
+++ b/src/module_param.cpp
@@ -39,6 +39,10 @@ void ModuleParam::set_constant(double val) {
     this->const_mod = std::make_unique<ConstModule>(val);
 
     this->link(this->const_mod.get());
+
+    // The new module must use our current configuration:
+
+    this->meta_info_sync();
 }
 
 void ModuleParam::conf_mod(BaseModule* mod) {
-- 
2.43.0


From ab68c96a7d4daa178514b93845c8e7eeddb6d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 17/71] fix: ParallelModule can't miss the request to stop

---
 include/maec/parallel.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cd63c04..d00aabd 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -197,9 +197,14 @@ public:
 
         AudioModule<>::stop();
 
-        // Set the done value to be true
+        {
+            // Set the done value to be true
+            // (the lock ensures a thread about to wait does not miss this)
+
+            std::lock_guard<std::mutex> lock(qmut);
 
-        done = true;
+            done = true;
+        }
 
         // Notify all condition variables
 
-- 
2.43.0


From 0a2849be33b14d8a014f8fe7cc000e0ee288e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 18/71] fix: ParallelModule uses a larger queue as soon as it
 is set

---
 include/maec/parallel.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index d00aabd..5620dcd 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -129,7 +129,18 @@ public:
      *
      * @param size New queue size
      */
-    void max_size(std::size_t size) { qsize = size; }
+    void max_size(std::size_t size) {
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+
+            qsize = size;
+        }
+
+        // The thread may be waiting on the old size
+
+        this->cv.notify_all();
+    }
 
     /**
      * @brief Gets the current size of the queue
-- 
2.43.0


From 029b207eb208d8853199cfb98b8b0995afb27ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 19/71] fix: ParallelModule stops its thread before the modules
 it is processing

---
 include/maec/parallel.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 5620dcd..f17d609 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -234,6 +234,21 @@ public:
         }
     }
 
+    /**
+     * @brief Custom meta stop operation
+     *
+     * We stop our thread before any backwards modules are stopped,
+     * as it may be processing them.
+     * From there, the usual meta stop operation is preformed.
+     *
+     */
+    void meta_stop() override {
+
+        ParallelModule::stop();
+
+        AudioModule<>::meta_stop();
+    }
+
     /**
      * @brief Custom meta process operation
      *
-- 
2.43.0


From 4e725bab384bfb4835504e397bcd069ab191f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 20/71] fix: oscillators advance once per frame, so each
 channel has the right frequency

---
 src/fund_oscillator.cpp | 56 ++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index c88abdf..b552241 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -34,9 +34,12 @@ void SineOscillator::process() {
                                         this->get_phase() /
                                         this->buff.get_samplerate()));
 
-        // Increment the phase:
+        // Increment the phase, once every channel of this frame is done:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -64,9 +67,12 @@ void SquareOscillator::process() {
                     ? 1.0
                     : -1.0;
 
-        // Increment the phase:
+        // Increment the phase, once every channel of this frame is done:
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
 
-        this->inc_phase(1);
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -94,9 +100,12 @@ void SawtoothOscillator::process() {
                             &placeholder)) -
                 1.0;
 
-        // Increment the phase:
+        // Increment the phase, once every channel of this frame is done:
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
 
-        this->inc_phase(1);
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -136,9 +145,12 @@ void TriangleOscillator::process() {
 
         *iter = temp;
 
-        // Increment the phase:
+        // Increment the phase, once every channel of this frame is done:
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
 
-        this->inc_phase(1);
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -172,7 +184,12 @@ void ModSineOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -210,7 +227,12 @@ void ModSquareOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -248,7 +270,12 @@ void ModSawtoothOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -300,6 +327,11 @@ void ModTriangleOscillator::process() {
 
         // Determine the new phase:
 
-        this->inc_phase(freqv * (1 / sampler));
+        // (once every channel of this frame is done)
+
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
-- 
2.43.0


From 4927491786cd38ed9e25a3862101f0b39664e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 21/71] fix: convolution filters keep channels apart and
 preserve the buffer format

---
 include/maec/filter_module.hpp | 75 +++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/include/maec/filter_module.hpp b/include/maec/filter_module.hpp
index dc7634c..45416d6 100644
--- a/include/maec/filter_module.hpp
+++ b/include/maec/filter_module.hpp
@@ -222,41 +222,68 @@ public:
         // Grab the input block:
 
         auto ibuff = this->get_buffer();
-        const std::size_t input_size = ibuff.size();
+        // Each channel is filtered on it's own
+
+        const std::size_t channels = ibuff.channels();
+        const std::size_t input_size = ibuff.channel_capacity();
         const std::size_t kernel_size = this->kernel->size();
+        const std::size_t tail_size = kernel_size - 1;
+
+        // Tails are saved per channel, start over if the channel count changed
 
-        // Allocate a full convolution output buffer (N + M - 1 samples)
-        // zero-initialised so the overlap-add accumulation is correct:
+        if (this->overlap_tail.size() != channels * tail_size) {
 
-        std::vector<double> conv_out(dsp::conv::length_conv(input_size, kernel_size), 0.0);
+            this->overlap_tail.assign(channels * tail_size, 0.0);
+        }
 
-        // Run the convolution:
+        // Output buffer, matches the incoming buffer
 
-        dsp::conv::input_conv(ibuff.ibegin(), input_size, this->kernel->ibegin(),
-                   kernel_size, conv_out.begin());
+        auto nbuff = AudioBuffer(static_cast<int>(input_size),
+                                 static_cast<int>(channels),
+                                 ibuff.get_samplerate());
 
-        // Overlap-add: fold the saved tail from the previous block
-        // The tail holds the last (M - 1) samples from the previous full
-        // convolution.  They overlap with the first (M - 1) samples of the
-        // current convolution output, so we add them in place:
+        for (std::size_t chan = 0; chan < channels; ++chan) {
 
-        const std::size_t prev_tail = this->overlap_tail.size();
-        for (std::size_t i = 0; i < prev_tail; ++i) {
-            conv_out[i] += this->overlap_tail[i];
-        }
+            // Position of this channel in the buffers:
+
+            const auto pos = static_cast<int>(chan * input_size);
+
+            // Allocate a full convolution output buffer (N + M - 1 samples)
+            // zero-initialised so the overlap-add accumulation is correct:
+
+            std::vector<double> conv_out(dsp::conv::length_conv(input_size, kernel_size), 0.0);
 
-        // Save new tail for the next block
+            // Run the convolution:
 
-        this->overlap_tail.assign(conv_out.begin() + input_size,
-                                  conv_out.end());
+            dsp::conv::input_conv(ibuff.sbegin() + pos, input_size,
+                                  this->kernel->ibegin(), kernel_size,
+                                  conv_out.begin());
 
-        // Trim output to exactly N samples and set on the buffer
-        // Only the first input_size samples are forwarded downstream;
-        // the tail will be contributed to the next block via overlap_tail.
+            // Overlap-add: fold the saved tail from the previous block
+            // The tail holds the last (M - 1) samples from the previous full
+            // convolution.  They overlap with the first (M - 1) samples of the
+            // current convolution output, so we add them in place:
 
-        auto nbuff = AudioBuffer(input_size, 1);
-        std::copy(conv_out.begin(), conv_out.begin() + input_size,
-                  nbuff.ibegin());
+            auto tail = this->overlap_tail.begin() +
+                        static_cast<std::ptrdiff_t>(chan * tail_size);
+
+            for (std::size_t i = 0; i < tail_size; ++i) {
+                conv_out[i] += *(tail + static_cast<std::ptrdiff_t>(i));
+            }
+
+            // Save new tail for the next block
+
+            std::copy(conv_out.begin() + static_cast<std::ptrdiff_t>(input_size),
+                      conv_out.end(), tail);
+
+            // Trim output to exactly N samples
+            // Only the first input_size samples are forwarded downstream;
+            // the tail will be contributed to the next block via overlap_tail.
+
+            std::copy(conv_out.begin(),
+                      conv_out.begin() + static_cast<std::ptrdiff_t>(input_size),
+                      nbuff.sbegin() + pos);
+        }
 
         this->set_buffer(std::move(nbuff));
     }
-- 
2.43.0


From af2cbf5c0f30ca4b6894acb35ff18faa7ac30929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 22/71] fix: SetValue no longer writes before its buffer once
 the stop time has passed

---
 include/maec/envelope.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index bf4861a..c901292 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -23,6 +23,8 @@
 
 #include <memory>
 
+#include <algorithm>
+
 #include "chrono.hpp"
 #include "source_module.hpp"
 #include "utils.hpp"
@@ -208,8 +210,12 @@ public:
      * @return int
      */
     int64_t remaining_samples() {
-        return (this->get_stop_time() - this->get_timer()->get_time()) /
-               this->get_timer()->get_npf();
+        // (if we are past the stop time, then there is nothing left)
+
+        return std::max<int64_t>(
+            (this->get_stop_time() - this->get_timer()->get_time()) /
+                this->get_timer()->get_npf(),
+            0);
     }
 };
 
-- 
2.43.0


From 44233681e26ae3d37f4fd4e451cce1ab4b1444d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 23/71] fix: ChainEnvelope no longer hangs on stop times that
 fall between samples

---
 src/envelope.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index be73435..23c4247 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -294,8 +294,12 @@ void ChainEnvelope::process() {
 
         this->get_timer()->add_sample(num);
 
+        // Determine if the current envelope has any samples left:
+        // (the stop time may fall in between two samples)
+
         if (this->current->get_stop_time() >= 0 &&
-            this->get_time() >= this->current->get_stop_time()) {
+            this->current->get_stop_time() - this->get_time() <
+                this->get_timer()->get_npf()) {
 
             // Get a new envelope:
 
-- 
2.43.0


From ad6471a804dbb19f4a77603b019e8ae288522c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 24/71] fix: SetValue and ChainEnvelope handle every channel of
 a buffer

---
 include/maec/envelope.hpp | 10 ++++++++--
 src/envelope.cpp          | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index c901292..9d11783 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -212,9 +212,15 @@ public:
     int64_t remaining_samples() {
         // (if we are past the stop time, then there is nothing left)
 
-        return std::max<int64_t>(
+        // (each frame has a sample for every channel)
+
+        const int channels = this->get_timer()->get_channels();
+        const int64_t frames =
             (this->get_stop_time() - this->get_timer()->get_time()) /
-                this->get_timer()->get_npf(),
+            this->get_timer()->get_npf();
+
+        return std::max<int64_t>(
+            (frames * channels) - (this->get_timer()->get_sample() % channels),
             0);
     }
 };
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 23c4247..bbbbbef 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -258,11 +258,15 @@ void ChainEnvelope::process() {
 
     int processed = 0;
 
+    // Number of values to fill, this includes every channel:
+
+    const int total = static_cast<int>(tbuff.size());
+
     // Iterate until buffer is full:
 
-    while (processed < this->get_info()->out_buffer) {
+    while (processed < total) {
 
-        int num = this->get_info()->out_buffer - processed;
+        int num = total - processed;
 
         // First, determine the number of samples current envelope will output:
 
@@ -274,7 +278,10 @@ void ChainEnvelope::process() {
 
         // Set size of current envelope to num value:
 
+        // (the timer of the envelope knows how many channels are present)
+
         this->current->get_info()->out_buffer = num;
+        this->current->get_info()->channels = 1;
 
         // Grab buffer from current envelope:
 
-- 
2.43.0


From b0d6e5035e93f7efe86e888cb66e0485d41ae507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 25/71] fix: ChainEnvelope returns the start value until the
 first envelope starts

---
 src/envelope.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index bbbbbef..5b0bb21 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -157,6 +157,14 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
 void ChainEnvelope::optimize() {
 
+    // Determine if there is dead time before the first envelope:
+
+    if (this->can_optimize && this->envs.size() == 1 &&
+        this->envs.front()->get_start_time() > 0) {
+
+        this->create_internal(0);
+    }
+
     // Iterate until all modules are optimized:
 
     int size = static_cast<int>(this->envs.size()) - 1;
-- 
2.43.0


From 3f2fa4c633804583992a710199cee50674636d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 26/71] fix: ChainEnvelope can be started again

---
 include/maec/envelope.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 9d11783..88fe816 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -534,7 +534,13 @@ public:
      * @brief Start method
      *
      */
-    void start() override { this->next_envelope(); }
+    void start() override {
+
+        // Always start at the first envelope:
+
+        this->env_index = -1;
+        this->next_envelope();
+    }
 
     /**
      * @brief Optimizes the internal structure of the ChainEnvelope
-- 
2.43.0


From 0b1a85a2e864391222cc3f1f12ad0869114b949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 27/71] fix: ADSREnvelope decays after the attack is complete

---
 src/envelope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 5b0bb21..fa13ca3 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -348,7 +348,7 @@ void ADSREnvelope::start() {
     dec->set_start_value(1);
     dec->set_stop_value(this->sustain);
     dec->set_start_time(this->attack);
-    dec->set_stop_time(this->decay);
+    dec->set_stop_time(this->attack + this->decay);
 
     this->add_envelope(dec.get());
     this->envs.add_object(dec);
@@ -359,7 +359,7 @@ void ADSREnvelope::start() {
 
     sus->set_start_value(this->sustain);
     sus->set_stop_value(this->sustain);
-    sus->set_start_time(this->decay);
+    sus->set_start_time(this->attack + this->decay);
     sus->set_stop_time(-1);
 
     this->add_envelope(sus.get());
-- 
2.43.0


From 08923a9ed63d2da21ca87d8a6a7c16d2d4a57bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 28/71] fix: ADSREnvelope can be processed after it is started

---
 src/envelope.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index fa13ca3..5f4882c 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -365,7 +365,9 @@ void ADSREnvelope::start() {
     this->add_envelope(sus.get());
     this->envs.add_object(sus);
 
-    //
+    // Move to the first envelope:
+
+    ChainEnvelope::start();
 }
 
 void ADSREnvelope::finish() {
-- 
2.43.0


From b385b39d50ed678fa9def4b45eb192f20defe698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 29/71] fix: ChainEnvelope handles stop times that are very far
 away

---
 src/envelope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 5f4882c..b67a77c 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -280,8 +280,8 @@ void ChainEnvelope::process() {
 
         if (this->current->get_stop_time() >= 0) {
 
-            num = std::min(
-                num, static_cast<int>(this->current->remaining_samples()));
+            num = static_cast<int>(std::min<int64_t>(
+                num, this->current->remaining_samples()));
         }
 
         // Set size of current envelope to num value:
-- 
2.43.0


From fa79846b57158ee9debff78c2b4f1442e82ef7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 30/71] fix: CharIStream no longer reads past the end of its
 array

---
 src/io/mstream.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index c731d52..87cdaf1 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -16,13 +16,28 @@
 
 void CharIStream::read(char* byts, int num) {
 
+    // Determine the number of bytes we can provide:
+
+    const std::size_t left =
+        this->index < this->arr.size() ? this->arr.size() - this->index : 0;
+    const std::size_t count = std::min(static_cast<std::size_t>(num), left);
+
     // Copy the contents over:
 
-    std::copy_n(arr.begin() + this->index, num, byts);
+    std::copy_n(arr.begin() + (this->arr.size() - left), count, byts);
 
     // Increment index:
 
-    this->index += num;
+    this->index += count;
+
+    // Determine if we ran out of bytes:
+
+    if (count < static_cast<std::size_t>(num)) {
+
+        // Nothing left to read, just close:
+
+        this->stop();
+    }
 }
 
 void CharOStream::write(char* byts, int num) {
-- 
2.43.0


From 5aa3bf77b1e28c88f8d5938291c2e70467441fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 31/71] fix: CharOStream writes at the position it was asked to
 seek to

---
 src/io/mstream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index 87cdaf1..7e99d92 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -42,6 +42,15 @@ void CharIStream::read(char* byts, int num) {
 
 void CharOStream::write(char* byts, int num) {
 
+    // Determine if we seeked past the end of the array:
+
+    if (this->index > this->arr.size()) {
+
+        // Fill the gap, so the bytes end up at the requested position:
+
+        this->arr.resize(this->index);
+    }
+
     // Offset to use when determining back insertion:
 
     std::size_t offset = 0;
-- 
2.43.0


From 077e675e0b464b30aa5cef172a4cf7362502dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 32/71] fix: WaveSource can be constructed

---
 include/maec/io/wav.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 42dc25d..8dd4f12 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -717,6 +717,7 @@ private:
  * 
  */
 class WaveSource : public SourceModule, public WaveReader {
+public:
 
     WaveSource() = default;
 
-- 
2.43.0


From 42c02c4baa62402baf20b5d1e807982653640d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 33/71] fix: WaveWriter starts the stream it writes to

---
 src/io/wav.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c8302b0..2e4fb16 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -439,6 +439,13 @@ BufferPointer WaveReader::get_data() {
 
 void WaveWriter::start() {
 
+    // Start the stream, if this has not been done already:
+
+    if (this->stream->get_state() == BaseMOStream::mstate::init) {
+
+        this->stream->start();
+    }
+
     // First, create the wave header:
 
     WavHeader whead;
-- 
2.43.0


From 25ace029616dfb0fa8760f4b602e2208a11fce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 34/71] fix: WaveReader no longer allocates what an unknown
 chunk claims to hold

---
 include/maec/io/wav.hpp | 10 ++++++++++
 src/io/wav.cpp          | 38 +++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 8dd4f12..7d54f3c 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -594,6 +594,16 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Skips a number of bytes in the stream
+     *
+     * We read and discard the given number of bytes,
+     * or until the stream is unable to provide any more.
+     *
+     * @param num Number of bytes to skip
+     */
+    void skip(uint32_t num);
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 2e4fb16..c972336 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -11,6 +11,8 @@
 
 #include "io/wav.hpp"
 
+#include <algorithm>
+#include <array>
 #include <vector>
 
 #include "audio_buffer.hpp"
@@ -250,6 +252,25 @@ void WaveReader::stop() {
     this->stream->stop();
 }
 
+void WaveReader::skip(uint32_t num) {
+
+    // Read in small steps, the size comes from the file and can't be trusted
+
+    std::array<char, 512> junk = {};
+
+    while (num > 0 && !this->stream->bad()) {
+
+        const auto step =
+            std::min(num, static_cast<uint32_t>(junk.size()));
+
+        this->stream->read(junk.data(), static_cast<int>(step));
+
+        this->total_read += step;
+
+        num -= step;
+    }
+}
+
 void WaveReader::read_chunk_header(ChunkHeader& chunk) {
 
     // Read the chunk header:
@@ -303,23 +324,10 @@ BufferPointer WaveReader::get_data() {
 
             if (this->head.chunk_id != "data") {
 
-                // Create UnknownChunk:
-
-                UnknownChunk chunk(this->head.chunk_size);
-
-                // Not a data chunk, read data into an unknown chunk:
-
-                this->stream->read(chunk.data.data(), this->head.chunk_size);
-
-                // Also copy over other pieces of info:
-
-                chunk.chunk_id = head.chunk_id;
-                chunk.chunk_size = head.chunk_size;
-
-                // We are past this weird chunk! Continue
+                // Not a data chunk, skip the contents
                 // TODO: Should we save these chunks somewhere?
 
-                this->total_read += this->head.chunk_size;
+                this->skip(this->head.chunk_size);
 
                 continue;
             }
-- 
2.43.0


From 57848861b6a154cafb1557c423bd8a97d6b66b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 35/71] fix: WaveReader skips the extension of a format chunk

---
 src/io/wav.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c972336..270f8c9 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -235,6 +235,15 @@ void WaveReader::start() {
 
     this->read_format_chunk(form);
 
+    // The format chunk may have an extension, skip what we did not read:
+
+    const uint32_t fsize = WavFormat::size() - ChunkHeader::size();
+
+    if (chead.chunk_size > fsize) {
+
+        this->skip(chead.chunk_size - fsize);
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
-- 
2.43.0


From 64a2e4426a5339424a4c399e558ef5cc0424034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 36/71] fix: WaveReader handles data chunks with very large
 sizes

---
 include/maec/io/wav.hpp | 2 +-
 src/io/wav.cpp          | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 7d54f3c..c888bb9 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -608,7 +608,7 @@ private:
     int buffer_size = 0;
 
     /// Number of bytes read from chunk
-    int chunk_read = 0;
+    uint32_t chunk_read = 0;
 
     /// Total number of bytes read
     uint32_t total_read = 0;
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 270f8c9..92923e7 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -366,19 +366,20 @@ BufferPointer WaveReader::get_data() {
             (this->buffer_size * this->get_channels() - read) *
             this->get_bytes_per_sample();
 
-        const int chunk_bytes =
-            static_cast<int>(head.chunk_size - this->chunk_read);
+        // (the size of a chunk may not fit into an int)
+
+        const uint32_t chunk_bytes = head.chunk_size - this->chunk_read;
 
         int to_read = 0;
 
-        if (chunk_bytes <= buffer_bytes) {
+        if (chunk_bytes <= static_cast<uint32_t>(buffer_bytes)) {
 
             // This chunk is NOT big enough to fill a buffer
             // We read all we can and then read a new chunk
 
             this->needs_chunk = true;
 
-            to_read = chunk_bytes;
+            to_read = static_cast<int>(chunk_bytes);
         }
 
         else {
-- 
2.43.0


From 0cedcb8c97d7583a7511161af28d722a14456913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:50 +0000
Subject: [PATCH 37/71] fix: WaveReader is done when the header of a file can't
 be used

---
 src/io/wav.cpp | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 92923e7..a6561c5 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -191,22 +191,16 @@ void WaveReader::start() {
 
     // Ensure we are in a format we expect:
 
-    if (head.chunk_id != "RIFF") {
+    // (We also ensure the format is something we expect)
 
-        // Invalid header!
-        // We do not support this file
-        // TODO: Do something here
-        int dhd = 0;
-    }
+    if (head.chunk_id != "RIFF" || head.format != "WAVE") {
 
-    // Ensure the format is something we expect:
+        // Invalid header!
+        // We do not support this file, do not read any further:
 
-    if (head.format != "WAVE") {
+        this->stop();
 
-        // Invalid format type!
-        // We do not support this file
-        // TODO: Again, do something here
-        int dhd = 0;
+        return;
     }
 
     // Save the size of the file:
@@ -214,19 +208,29 @@ void WaveReader::start() {
     this->set_size(head.chunk_size + 8);
 
     // Next, read the format chunk
-    // TODO: Is it always guaranteed that format will always be second chunk?
 
     ChunkHeader chead;
 
     this->read_chunk_header(chead);
 
+    // The format chunk may not be the first chunk, skip until we find it:
+
+    while (chead.chunk_id != "fmt " && !this->done()) {
+
+        this->skip(chead.chunk_size);
+
+        this->read_chunk_header(chead);
+    }
+
     // Determine this chunk is a format chunk:
 
     if (chead.chunk_id != "fmt ") {
 
-        // This chunk is not format chunk
-        // TODO: Gotta do something here
-        int dhd = 0;
+        // There is no format chunk, do not read any further:
+
+        this->stop();
+
+        return;
     }
 
     // Read the wave format chunk
@@ -244,6 +248,18 @@ void WaveReader::start() {
         this->skip(chead.chunk_size - fsize);
     }
 
+    // Determine if we are able to work with this format:
+    // (We need at least one channel and whole bytes to work with)
+
+    if (form.channels == 0 || form.bits_per_sample < 8) {
+
+        // Invalid format, do not read any further:
+
+        this->stop();
+
+        return;
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
-- 
2.43.0


From fd68dad17b69e94fefb2913684e3a04e651264f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 38/71] fix: WaveReader skips the padding byte of chunks with
 an odd size

---
 include/maec/io/wav.hpp | 11 +++++++++++
 src/io/wav.cpp          | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index c888bb9..f8a38e3 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -604,6 +604,17 @@ private:
      */
     void skip(uint32_t num);
 
+    /**
+     * @brief Skips the padding of a chunk
+     *
+     * Chunks are aligned to an even number of bytes,
+     * so chunks with an odd size are followed by a padding byte
+     * that is not a part of the chunk size.
+     *
+     * @param size Size of the chunk
+     */
+    void skip_padding(uint32_t size);
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index a6561c5..36c50ea 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -218,6 +218,7 @@ void WaveReader::start() {
     while (chead.chunk_id != "fmt " && !this->done()) {
 
         this->skip(chead.chunk_size);
+        this->skip_padding(chead.chunk_size);
 
         this->read_chunk_header(chead);
     }
@@ -246,6 +247,7 @@ void WaveReader::start() {
     if (chead.chunk_size > fsize) {
 
         this->skip(chead.chunk_size - fsize);
+        this->skip_padding(chead.chunk_size);
     }
 
     // Determine if we are able to work with this format:
@@ -296,6 +298,16 @@ void WaveReader::skip(uint32_t num) {
     }
 }
 
+void WaveReader::skip_padding(uint32_t size) {
+
+    // The end of the file does not need to be padded
+
+    if (size % 2 != 0 && !this->done()) {
+
+        this->skip(1);
+    }
+}
+
 void WaveReader::read_chunk_header(ChunkHeader& chunk) {
 
     // Read the chunk header:
@@ -353,6 +365,7 @@ BufferPointer WaveReader::get_data() {
                 // TODO: Should we save these chunks somewhere?
 
                 this->skip(this->head.chunk_size);
+                this->skip_padding(this->head.chunk_size);
 
                 continue;
             }
@@ -417,6 +430,11 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        if (this->needs_chunk) {
+
+            this->skip_padding(this->head.chunk_size);
+        }
+
         // Determine which type to read in:
 
         if (this->get_bits_per_sample() == 16) {
-- 
2.43.0


From d76e2d7cc64aa07f9e0b7b1ee725eab08e93db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 39/71] fix: conv_fft compiles and convolves signals of any
 size

---
 include/maec/dsp/conv.hpp | 47 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/include/maec/dsp/conv.hpp b/include/maec/dsp/conv.hpp
index d72b35a..3855488 100644
--- a/include/maec/dsp/conv.hpp
+++ b/include/maec/dsp/conv.hpp
@@ -26,7 +26,13 @@
 
 #pragma once
 
+#include <algorithm>
+#include <complex>
+#include <vector>
+
 #include "audio_buffer.hpp"
+#include "dsp/ft.hpp"
+#include "dsp/util.hpp"
 
 namespace dsp::conv {
 
@@ -293,35 +299,46 @@ void conv_fft(I input, int input_size, K kernel, int kernel_size, O output) {
     // TODO: RESEARCH OTHER METHODS! This can take a lot of memory...
     // Not to mention being super slow in theory...
 
-    std::vector<double> pinput(output_size);
-    std::vector<double> pkernel(output_size);
+    // The FFT needs a size that is a power of two and large
+    // enough to hold the output, otherwise the result wraps around:
 
-    // Fill normal content:
+    int fft_size = 2;
 
-    std::copy_n(input, input_size, pinput.begin());
-    std::copy_n(kernel, kernel_size, pkernel.begin());
+    while (fft_size < output_size) {
+        fft_size *= 2;
+    }
+
+    std::vector<double> pinput(fft_size);
+    std::vector<double> pkernel(fft_size);
 
-    // Fill in zero components:
+    // Fill normal content, remaining components are zero:
 
-    std::fill_n(pinput.begin() + input_size, output_size - input_size, 0.0);
-    std::fill_n(pkernel.begin() + kernel_size, output_size - kernel_size, 0.0);
+    std::copy_n(input, input_size, pinput.begin());
+    std::copy_n(kernel, kernel_size, pkernel.begin());
 
     // For now, define array for output data:
 
-    std::vector<std::complex<double>> infp(output_size);
-    std::vector<std::complex<double>> kernfp(output_size);
-    std::vector<std::complex<double>> outf(output_size);
+    int spectrum_size = static_cast<int>(dsp::ft::length_ft(fft_size));
+
+    std::vector<std::complex<double>> infp(spectrum_size);
+    std::vector<std::complex<double>> kernfp(spectrum_size);
+    std::vector<std::complex<double>> outf(spectrum_size);
 
-    fft_r_radix2(input, input_size, infp.begin());
-    fft_r_radix2(kernel, kernel_size, kernfp.begin());
+    dsp::ft::fft_r_radix2(pinput.begin(), fft_size, infp.begin());
+    dsp::ft::fft_r_radix2(pkernel.begin(), fft_size, kernfp.begin());
 
     // Multiply signals:
 
-    util::multiply_signals(output_size, infp.begin(), kernfp.begin(), outf.begin());
+    dsp::util::multiply_signals(spectrum_size, infp.begin(), kernfp.begin(),
+                                outf.begin());
 
     // Send inputs back through inverse FFT:
 
-    ifft_r_radix2(outf.begin(), output_size, output);
+    dsp::ft::ifft_r_radix2(outf.begin(), spectrum_size, pinput.begin());
+
+    // Copy the part that holds the convolution:
+
+    std::copy_n(pinput.begin(), output_size, output);
 }
 
 }  // namespace dsp::conv
-- 
2.43.0


From 2bdbdc8c59b6a0cde08acfbff55140eeb4f44c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 40/71] fix: members can be accessed through maec iterators

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 1972f0a..4a66c0a 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -491,7 +491,7 @@ public:
      *
      * @return pointer
      */
-    pointer base() const { return &(this->point); }
+    pointer base() const { return this->point; }
 
 private:
     /// Current pointer we are on
-- 
2.43.0


From 33a5c19c70620fb0e23a3d0d3983f1397d675fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 41/71] fix: Buffer::shrink compiles

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 4a66c0a..197c9fa 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1746,7 +1746,7 @@ public:
      * For more info.
      *
      */
-    constexpr void shrink() { this->buff.shrink_to_fit(); }
+    constexpr void shrink() { this->get_buff().shrink_to_fit(); }
 
     /**
      * @brief Removes all values from vector
-- 
2.43.0


From c276b2617b7f94037b661c3359e8edfe5335303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 42/71] fix: SeqIterator can iterate over an empty buffer

---
 include/maec/dsp/buffer.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 197c9fa..dae67a9 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -829,10 +829,22 @@ public:
          * @return int The sample of the iterator in the current channel
          */
         int get_sample(int index) const {
+
+            // Buffers with nothing to iterate over have no samples:
+
+            if (this->buff->channel_capacity() == 0) {
+                return 0;
+            }
+
             return static_cast<int>(index % this->buff->channel_capacity());
         }
 
         int get_channel(int index) const {
+
+            if (this->buff->channel_capacity() == 0) {
+                return 0;
+            }
+
 #ifdef _DEBUG
             // This section is specific to MSVC debug mode,
             // as without the modulo we get safe iterator errors,
-- 
2.43.0


From 9f6fc12fa843254d05631d78c79ef318f0f4985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 43/71] fix: RingBuffer iterators can be created for an empty
 buffer

---
 include/maec/dsp/buffer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index dae67a9..7bac589 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1912,6 +1912,13 @@ protected:
         // Work with signed values, so rewinding past the start also wraps:
 
         const int bsize = static_cast<int>(this->size());
+
+        // There is nothing to wrap around in an empty buffer:
+
+        if (bsize == 0) {
+            return 0;
+        }
+
         const int rem = nindex % bsize;
 
         return rem < 0 ? rem + bsize : rem;
-- 
2.43.0


From e2fe6d6ace16bb28d2a0662746693404f83eaf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 44/71] fix: int16 samples survive a conversion to mf and back

---
 include/maec/audio_buffer.hpp | 2 +-
 src/audio_buffer.cpp          | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/maec/audio_buffer.hpp b/include/maec/audio_buffer.hpp
index 3cb3be5..01077dd 100644
--- a/include/maec/audio_buffer.hpp
+++ b/include/maec/audio_buffer.hpp
@@ -242,7 +242,7 @@ unsigned char mf_uchar(double val);
 /**
  * @brief Converts a 16bit integer to mf
  *
- * We divide the integer by 32767,
+ * We divide the integer by 32767 (32768 for negative values),
  * and then cast to mf
  *
  * @param val Value to convert
diff --git a/src/audio_buffer.cpp b/src/audio_buffer.cpp
index 6c487cd..ec94de3 100644
--- a/src/audio_buffer.cpp
+++ b/src/audio_buffer.cpp
@@ -76,6 +76,13 @@ unsigned char mf_uchar(double val) {
 
 double int16_mf(int16_t val) {
 
+    if (val < 0) {
+
+        // Divide by lowest value, this mirrors mf_int16():
+
+        return static_cast<double>(val) / 32768.;
+    }
+
     // Divide by largest value:
 
     return static_cast<double>(val) / 32767.;
-- 
2.43.0


From de47f4a87c1ce035c69363316580af3869bd4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 45/71] fix: source modules that override start, stop or finish
 change state

---
 include/maec/source_module.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/maec/source_module.hpp b/include/maec/source_module.hpp
index 819c0d7..50cdf40 100644
--- a/include/maec/source_module.hpp
+++ b/include/maec/source_module.hpp
@@ -50,7 +50,14 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_start() override { this->start(); }
+    void meta_start() override {
+
+        // Set the state, even if start() is overridden:
+
+        BaseModule::start();
+
+        this->start();
+    }
 
     /**
      * @brief Meta stop method
@@ -59,7 +66,14 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_stop() override { this->stop(); }
+    void meta_stop() override {
+
+        // Set the state, even if stop() is overridden:
+
+        BaseModule::stop();
+
+        this->stop();
+    }
 
     /**
      * @brief Meta info sync method
@@ -77,5 +91,12 @@ public:
      * we do NOT preform any finishes on backwards modules
      *
      */
-    void meta_finish() override { this->finish(); }
+    void meta_finish() override {
+
+        // Set the state, even if finish() is overridden:
+
+        BaseModule::finish();
+
+        this->finish();
+    }
 };
-- 
2.43.0


From 2a1da81125b082e56460b5b11aa6ae9e0fd6436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 46/71] fix: ModuleMixDown sets the finishing state when finish
 is overridden

---
 src/module_mixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index 3fb546d..ccf72fa 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -92,6 +92,10 @@ void ModuleMixDown::meta_finish() {
         mod->meta_finish();
     }
 
+    // Call the parent finish method
+
+    BaseModule::finish();
+
     // Call the user defined finish method
 
     this->finish();
-- 
2.43.0


From f69aaee3e0d140249902c07017292d9c82d58fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 47/71] fix: ModuleMixUp syncs from an output that knows its
 chain

---
 include/maec/module_mixer.hpp |  9 +++++++++
 src/module_mixer.cpp          | 17 +++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/maec/module_mixer.hpp b/include/maec/module_mixer.hpp
index f410fd2..593e7da 100644
--- a/include/maec/module_mixer.hpp
+++ b/include/maec/module_mixer.hpp
@@ -207,6 +207,15 @@ public:
      */
     void forward(BaseModule* mod) override;
 
+    /**
+     * @brief Preforms an info sync for this module
+     *
+     * We are identical to the parent info sync,
+     * except that we use the info of an output module
+     * that is already part of a synced chain.
+     */
+    void info_sync() override;
+
     /**
      * @brief Get the buffer object
      *
diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index ccf72fa..2b5674c 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -179,6 +179,23 @@ void ModuleMixUp::forward(BaseModule* mod) {
     AudioModule<>::forward(mod);
 }
 
+void ModuleMixUp::info_sync() {
+
+    // Some outputs may not be synced yet, use one that knows its chain:
+
+    for (auto* mod : this->out) {
+
+        if (mod->get_chain_info() != nullptr) {
+
+            AudioModule<>::forward(mod);
+        }
+    }
+
+    // Call the parent info sync
+
+    AudioModule<>::info_sync();
+}
+
 AudioBuffer&& ModuleMixUp::get_buffer() {
 
     // Copy the current buffer into the temporary buffer:
-- 
2.43.0


From a24eef07e0f9e14a1637ae1452abd2ccc428784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 48/71] fix: chrono.hpp can be included twice

---
 include/maec/chrono.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 2e916ea..090189c 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -23,6 +23,10 @@
  * We measure time values in nanoseconds.
  */
 
+#pragma once
+
+#include <cstdint>
+
 #include "const.hpp"
 
 /**
-- 
2.43.0


From 0c434b2967a35a1ef022dfd9fe9fdf8f99744c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 49/71] fix: oscillators wrap negative phases

---
 src/fund_oscillator.cpp | 50 ++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index b552241..43858a8 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -16,6 +16,11 @@
 
 const double TWO_PI = 2.0 * std::numbers::pi_v<double>;
 
+/// Position in the current cycle, in [0, 1), also for negative positions
+static double cycle(double pos) {
+    return pos - std::floor(pos);
+}
+
 void SineOscillator::process() {
 
     // Create a new buffer:
@@ -49,10 +54,6 @@ void SquareOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -61,9 +62,8 @@ void SquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf((this->get_frequency() * this->get_phase() /
-                       this->buff.get_samplerate()),
-                      &placeholder) < 0.5)
+        *iter = (cycle((this->get_frequency() * this->get_phase() /
+                       this->buff.get_samplerate())) < 0.5)
                     ? 1.0
                     : -1.0;
 
@@ -82,10 +82,6 @@ void SawtoothOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -94,10 +90,9 @@ void SawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf(((this->get_frequency() * this->get_phase() /
+        *iter = (2.0 * cycle(((this->get_frequency() * this->get_phase() /
                               this->buff.get_samplerate()) +
-                             0.5),
-                            &placeholder)) -
+                             0.5))) -
                 1.0;
 
         // Increment the phase, once every channel of this frame is done:
@@ -115,10 +110,6 @@ void TriangleOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -127,9 +118,8 @@ void TriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf((this->get_frequency() * this->get_phase() /
-                            this->buff.get_samplerate()),
-                           &placeholder);
+        double temp = cycle((this->get_frequency() * this->get_phase() /
+                            this->buff.get_samplerate()));
 
         if (temp < 0.25) {
             temp *= 4.0;
@@ -207,10 +197,6 @@ void ModSquareOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -219,7 +205,7 @@ void ModSquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf(this->get_phase(), &placeholder) < 0.5) ? 1.0 : -1.0;
+        *iter = (cycle(this->get_phase()) < 0.5) ? 1.0 : -1.0;
 
         // Get frequency value:
 
@@ -250,10 +236,6 @@ void ModSawtoothOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -262,7 +244,7 @@ void ModSawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf((this->get_phase() + 0.5), &placeholder)) - 1.0;
+        *iter = (2.0 * cycle((this->get_phase() + 0.5))) - 1.0;
 
         // Get the frequency value:
 
@@ -293,10 +275,6 @@ void ModTriangleOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -305,7 +283,7 @@ void ModTriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf(this->get_phase(), &placeholder);
+        double temp = cycle(this->get_phase());
 
         if (temp < 0.25) {
             temp *= 4.0;
-- 
2.43.0


From 5e6a03422822e4d1bfebc4d2139ed2c94ee0f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 50/71] fix: envelopes added to a chain that holds its last
 value take over from it

---
 src/envelope.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index b67a77c..83f9a65 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -138,8 +138,14 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
     // Determine if we are optimized
     // (Value exists at the end):
 
+    bool holding = false;
+
     if (!this->inter.empty()) {
 
+        // Determine if the value at the end is in use:
+
+        holding = this->current == this->inter.back().get();
+
         // Remove last value:
 
         this->envs.pop_back();
@@ -153,6 +159,14 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
     // Optimize?
 
     this->optimize();
+
+    if (holding) {
+
+        // Value in use was removed, move to what has replaced it:
+
+        this->env_index--;
+        this->next_envelope();
+    }
 }
 
 void ChainEnvelope::optimize() {
-- 
2.43.0


From a3e674ef626106ad5230386f0860dc9480cf99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 51/71] fix: chained envelopes play until their stop time when
 it is in between two frames

---
 include/maec/envelope.hpp | 21 +++++++++++++++++++++
 src/envelope.cpp          |  6 ++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 88fe816..493e7d7 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -223,6 +223,27 @@ public:
             (frames * channels) - (this->get_timer()->get_sample() % channels),
             0);
     }
+
+    /**
+     * @brief Determines the number of samples before the stop time
+     *
+     * Unlike remaining_samples(), a last frame that starts before the stop
+     * time but ends after it is included.
+     *
+     * @return int64_t Number of samples that start before the stop time
+     */
+    int64_t samples_before_stop() {
+
+        const int channels = this->get_timer()->get_channels();
+        const int64_t npf = this->get_timer()->get_npf();
+        const int64_t frames =
+            (this->get_stop_time() - this->get_timer()->get_time() + npf - 1) /
+            npf;
+
+        return std::max<int64_t>(
+            (frames * channels) - (this->get_timer()->get_sample() % channels),
+            0);
+    }
 };
 
 /**
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 83f9a65..cb27486 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -295,7 +295,7 @@ void ChainEnvelope::process() {
         if (this->current->get_stop_time() >= 0) {
 
             num = static_cast<int>(std::min<int64_t>(
-                num, this->current->remaining_samples()));
+                num, this->current->samples_before_stop()));
         }
 
         // Set size of current envelope to num value:
@@ -324,11 +324,9 @@ void ChainEnvelope::process() {
         this->get_timer()->add_sample(num);
 
         // Determine if the current envelope has any samples left:
-        // (the stop time may fall in between two samples)
 
         if (this->current->get_stop_time() >= 0 &&
-            this->current->get_stop_time() - this->get_time() <
-                this->get_timer()->get_npf()) {
+            this->get_time() >= this->current->get_stop_time()) {
 
             // Get a new envelope:
 
-- 
2.43.0


From 3ba5d1559a1f560ea0e8c7952ce1dd0f1419c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 52/71] fix: byte rate of wave data does not overflow

---
 include/maec/io/wav.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index f8a38e3..c40664b 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -283,7 +283,7 @@ public:
      * @param chan New channel count to set
      */
     void set_channels(int chan) { this->channels = chan;
-        this->set_byterate(this->channels * this->get_samplerate() * this->get_bytes_per_sample());
+        this->update_byterate();
         this->set_blockalign(this->channels * this->get_bytes_per_sample());
     }
 
@@ -303,7 +303,7 @@ public:
      * @param samp New samplerate to set
      */
     void set_samplerate(int samp) { this->sample_rate = samp;
-        this->set_byterate(this->sample_rate * this->get_channels() * this->get_bytes_per_sample());
+        this->update_byterate();
     }
 
     /**
@@ -372,7 +372,7 @@ public:
      * @param bps Number of bits per sample to set
      */
     void set_bits_per_sample(int bps) { this->bits_per_sample = bps; this->bytes_per_sample = bps / 8;
-        this->set_byterate(this->bytes_per_sample * this->get_samplerate() * this->get_channels());
+        this->update_byterate();
         this->set_blockalign(this->bytes_per_sample * this->get_channels());
     }
 
@@ -398,8 +398,7 @@ public:
      * @param bps Number of bytes per sample to set
      */
     void set_bytes_per_sample(int bps) { this->bytes_per_sample = bps; this->bits_per_sample = bps * 8;
-        this->set_byterate(this->bytes_per_sample * this->get_samplerate() *
-                           this->get_channels());
+        this->update_byterate();
         this->set_blockalign(this->bytes_per_sample * this->get_channels());
     }
 
@@ -423,6 +422,17 @@ public:
 
 private:
 
+    /**
+     * @brief Computes the byte rate from the other values
+     *
+     * (the values may come from a file and can be arbitrarily large)
+     */
+    void update_byterate() {
+        this->set_byterate(static_cast<int>(
+            static_cast<int64_t>(this->get_samplerate()) *
+            this->get_channels() * this->get_bytes_per_sample()));
+    }
+
     /// Format of the audio
     int format = 1;
 
-- 
2.43.0


From d39ff26b3209a9c0da0a77f10cfadd83cb8a3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 53/71] fix: WaveReader does not trust chunk and file sizes

---
 src/io/wav.cpp | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 36c50ea..5621835 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -17,6 +17,9 @@
 
 #include "audio_buffer.hpp"
 
+/// Max number of bytes to read from the stream at once
+const int64_t MAX_READ = 1 << 20;
+
 void ChunkHeader::decode(BaseMIStream& stream) {
 
     // Create array to hold data:
@@ -204,8 +207,10 @@ void WaveReader::start() {
     }
 
     // Save the size of the file:
+    // (the size may be unknown, which is the largest size there is)
 
-    this->set_size(head.chunk_size + 8);
+    this->set_size(static_cast<int>(
+        std::min<uint32_t>(head.chunk_size, UINT32_MAX - 8) + 8));
 
     // Next, read the format chunk
 
@@ -349,7 +354,8 @@ BufferPointer WaveReader::get_data() {
     int read = 0;
 
     // Loop as long as our mstream is valid
-    while (!this->done() && read < buffer_size * this->get_channels()) {
+    while (!this->done() &&
+           read < static_cast<int>(bpoint->size())) {
 
         // Read wave file header:
 
@@ -391,32 +397,23 @@ BufferPointer WaveReader::get_data() {
         // We either read the entire buffer size,
         // or the number of bytes left in this chunk, whichever is smallest
 
-        const int buffer_bytes =
-            (this->buffer_size * this->get_channels() - read) *
+        const int64_t buffer_bytes =
+            (static_cast<int64_t>(this->buffer_size) * this->get_channels() -
+             read) *
             this->get_bytes_per_sample();
 
-        // (the size of a chunk may not fit into an int)
-
-        const uint32_t chunk_bytes = head.chunk_size - this->chunk_read;
-
-        int to_read = 0;
-
-        if (chunk_bytes <= static_cast<uint32_t>(buffer_bytes)) {
+        // (the size of a chunk may not fit into an int,
+        //  and we do not know if there really is that much data)
 
-            // This chunk is NOT big enough to fill a buffer
-            // We read all we can and then read a new chunk
+        const int64_t chunk_bytes = head.chunk_size - this->chunk_read;
 
-            this->needs_chunk = true;
+        const int to_read = static_cast<int>(
+            std::min({chunk_bytes, buffer_bytes, MAX_READ}));
 
-            to_read = static_cast<int>(chunk_bytes);
-        }
-
-        else {
+        // Determine if we will reach the end of this chunk:
+        // (if this is the case, then we read a new chunk afterwards)
 
-            // Chunk is big enough, read size of vector:
-
-            to_read = buffer_bytes;
-        }
+        this->needs_chunk = to_read == chunk_bytes;
 
         // Read data into vector:
 
-- 
2.43.0


From f336c616d830718e66379bdd42862f3dd83913b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 54/71] fix: WaveWriter pads data with an odd size

---
 src/io/wav.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 5621835..60bb66d 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -548,6 +548,15 @@ void WaveWriter::stop() {
 
     std::array<char, 4> sout = {};
 
+    // Chunks are aligned to an even number of bytes:
+
+    const int padding = this->get_size() % 2;
+
+    if (padding != 0) {
+
+        this->stream->write(sout.begin(), padding);
+    }
+
     // Determine if we need to correct wave header size:
 
     if (this->get_size() >= 12) {
@@ -558,7 +567,7 @@ void WaveWriter::stop() {
 
         // Encode the total size:
 
-        uint32_char(this->get_size() - 8, sout.begin());
+        uint32_char(this->get_size() + padding - 8, sout.begin());
 
         // Write to file:
 
-- 
2.43.0


From 9593bb408f92b088ffb0a2153d23eb375da81f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 55/71] fix: freq_response computes the response of the filter
 with its coefficients

The A and B coefficients were exchanged, the B coefficients had the wrong
sign and delay, and the phase was inverted.
---
 include/maec/dsp/iir.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index e6a2e77..4c4d005 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -84,21 +84,23 @@ std::complex<double> freq_response(double rad, const A& acoes, const B& bcoes) {
     // unit.
 
     // First, compute the numerator
+    // (A coefficients weigh the current and previous inputs)
 
     std::complex<double> num = 0;
 
-    for (std::size_t j = 0; j < bcoes.size(); ++j) {
+    for (std::size_t j = 0; j < acoes.size(); ++j) {
 
-        num += bcoes[j] * std::exp(j * rad * 1i);
+        num += acoes[j] * std::exp(-1. * j * rad * 1i);
     }
 
     // Next compute the denominator
+    // (B coefficients weigh the previous outputs, the first is one sample old)
 
     std::complex<double> denom = 1;
 
-    for (std::size_t j = 0; j < acoes.size(); ++j) {
+    for (std::size_t j = 0; j < bcoes.size(); ++j) {
 
-        denom += acoes[j] * std::exp(j * rad * 1i);
+        denom -= bcoes[j] * std::exp(-1. * (j + 1) * rad * 1i);
     }
 
     // The result will be the division between the two
-- 
2.43.0


From 402ca6678080f7cafb6b9ed2173aece4d9fc66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 56/71] fix: ALSA devices are not used after they were closed

---
 src/io/alsa_module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index dc336c5..112fa6b 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -177,8 +177,8 @@ void DeviceInfo::update() {
 
     // Do some freeing:
 
-    snd_pcm_close(pcm);
     snd_pcm_hw_free(pcm);
+    snd_pcm_close(pcm);
 }
 
 int ALSABase::get_device_count() {
@@ -375,13 +375,13 @@ void ALSABase::alsa_stop() {
 
     snd_pcm_drain(this->pcm);
 
-    // Close the PCM device:
-
-    snd_pcm_close(this->pcm);
-
     // Free the hardware:
 
     snd_pcm_hw_free(this->pcm);
+
+    // Close the PCM device:
+
+    snd_pcm_close(this->pcm);
 }
 
 void ALSASink::process() {
-- 
2.43.0


From c94504fce35c3395bc77e0aa41fb6e69506da46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 57/71] fix: getting info on an ALSA device does not leave it
 open

---
 src/io/alsa_module.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 112fa6b..5bba4d0 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -89,6 +89,10 @@ void DeviceInfo::create_device(void** hint, int id) {
         return;
     }
 
+    // Close the device, as loading extra info opens it again:
+
+    snd_pcm_close(pcm);
+
     this->update();
 }
 
-- 
2.43.0


From da217842d4e2b4450babcba149543808f01a0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 58/71] fix: ALSA devices can lack a description

---
 src/io/alsa_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 5bba4d0..d965611 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -38,7 +38,7 @@ void DeviceInfo::create_device(void** hint, int id) {
     // Set name and description:
 
     this->name = std::string(n);
-    this->description = std::string(descr);
+    this->description = std::string(descr == nullptr ? "" : descr);
 
     // Determine the IO type:
 
-- 
2.43.0


From 7111c90abd9a386826024601bfbd77e693da3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 59/71] fix: searching an ALSA device frees the names

---
 src/io/alsa_module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index d965611..5c07e90 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -275,7 +275,11 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
         // Get the name from the hint:
 
-        std::string const hname(snd_device_name_get_hint(*n, "NAME"));
+        char* name_hint = snd_device_name_get_hint(*n, "NAME");
+
+        std::string const hname(name_hint);
+
+        free(name_hint);
 
         // Determine if the name is our target:
 
-- 
2.43.0


From e6541dc596fea10ee7126c1e8f56de9b66b12698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 60/71] fix: ALSASink counts frames and not samples

A buffer with more than one channel was read far past its end.
---
 src/io/alsa_module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 5c07e90..136140f 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -396,7 +396,7 @@ void ALSASink::process() {
 
     // First, define our temporary vector:
 
-    std::vector<int16_t> temp(buff.size() * buff.channels());
+    std::vector<int16_t> temp(buff.size());
 
     // Next, squish it:
 
@@ -416,7 +416,8 @@ void ALSASink::process() {
 
     this->return_code =
         snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),
-                       static_cast<snd_pcm_uframes_t>(temp.size()));
+                       static_cast<snd_pcm_uframes_t>(temp.size() /
+                                                      buff.channels()));
 
     if (this->return_code == -EPIPE) {
         // Underrun occurred
-- 
2.43.0


From f2888c90da788a3b16e9f3c11e79d8faa8dee360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 61/71] fix: chains of an ALSASink get the format of its device

They kept the default channels and sample rate, and modules were counted
again at each sync.
---
 src/io/alsa_module.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 136140f..6757483 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -448,12 +448,18 @@ void ALSASink::info_sync() {
 
     this->set_period(this->get_device().period);
 
-    // Set the desired buffer size:
+    // Set the desired buffer size,
+    // and let the chain have the format of the device:
 
-    auto bsize = this->get_device().period_size / 2;
+    auto* chain = this->get_chain_info();
 
-    this->get_info()->out_buffer = bsize;
-    this->get_info()->in_buffer = bsize;
+    chain->buffer_size = this->get_device().period_size / 2;
+    chain->channels = this->get_device().channels;
+    chain->sample_rate = this->get_device().sample_rate;
+
+    // Finally, upcall:
+
+    PeriodSink::info_sync();
 }
 
 #endif
-- 
2.43.0


From 1e3b27c86cb83864790e6c38da8ccb7b279e7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 62/71] fix: chain timers count samples in 64 bits

---
 include/maec/chrono.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 090189c..f6d5646 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -89,7 +89,7 @@ private:
     int channels = 1;
 
     /// Current sample
-    int sample = 0;
+    int64_t sample = 0;
 
     /// Nanoseconds per frame
     int64_t nano_frame = NANO / dsp::consts::SAMPLE_RATE;
@@ -195,7 +195,7 @@ public:
      * @param channel Number of channels
      * @return int64_t Elapsed time in nanoseconds
      */
-    int64_t get_time(int sample, int channel) const {
+    int64_t get_time(int64_t sample, int channel) const {
         return static_cast<int64_t>(sample / channel) * this->nano_frame;
     }
 
@@ -210,7 +210,7 @@ public:
      * @param sample Number of samples
      * @return int74_t Elapsed time in nanoseconds
      */
-    int64_t get_time(int sample) const {
+    int64_t get_time(int64_t sample) const {
         return static_cast<int64_t>(sample) * this->nano_frame;
     }
 
@@ -224,7 +224,7 @@ public:
      *
      * @param samp
      */
-    void set_sample(int samp) { this->sample = samp; }
+    void set_sample(int64_t samp) { this->sample = samp; }
 
     /**
      * @brief Increments the sample
@@ -244,14 +244,14 @@ public:
      *
      * @param val Value to add to sample number
      */
-    void add_sample(int val) { this->sample += val; }
+    void add_sample(int64_t val) { this->sample += val; }
 
     /**
      * @brief Gets the current sample
      *
      * We return the current sample in this timer.
      *
-     * @return int Current sample
+     * @return int64_t Current sample
      */
-    int get_sample() const { return this->sample; }
+    int64_t get_sample() const { return this->sample; }
 };
-- 
2.43.0


From 4b020511e48f930c31d21f3b7c1d4f390fdd556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 63/71] fix: Counter counts in 64 bits

---
 include/maec/meta_audio.hpp | 12 ++++++------
 src/meta_audio.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index eff2f4c..7f3f60b 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -36,10 +36,10 @@ class Counter : public AudioModule<> {
 
 private:
     /// Number of times we have been processed
-    int m_processed = 0;
+    int64_t m_processed = 0;
 
     /// Number of samples we have encountered
-    int m_samples = 0;
+    int64_t m_samples = 0;
 
 public:
     /**
@@ -57,16 +57,16 @@ public:
     /**
      * @brief Gets the number of times we have been processed
      *
-     * @return int Number of times we have been processed
+     * @return int64_t Number of times we have been processed
      */
-    int processed() const { return this->m_processed; }
+    int64_t processed() const { return this->m_processed; }
 
     /**
      * @brief Gets the number of samples we have encountered
      *
-     * @return int Number of samples encountered
+     * @return int64_t Number of samples encountered
      */
-    int samples() const { return this->m_samples; }
+    int64_t samples() const { return this->m_samples; }
 
     /**
      * @brief Counts how many samples we encounter, and how many times we have
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 7b64b86..c63c322 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -21,7 +21,7 @@ void Counter::process() {
 
     // (the size of a buffer includes every channel)
 
-    this->m_samples += static_cast<int>(this->buff.size());
+    this->m_samples += static_cast<int64_t>(this->buff.size());
 }
 
 void LatencyModule::reset() {
-- 
2.43.0


From edb203a24f37e01aca22c9549825ba9e10fae4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 64/71] fix: IIRFilter keeps its index in range

---
 include/maec/dsp/iir.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 4c4d005..865bb75 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -242,6 +242,16 @@ private:
 
         outputs[index++] = final_value;
 
+        // Keep the index in the range of the ring buffers
+        // (the size of both divides what we go back):
+
+        const std::size_t round = inputs.size() * outputs.size();
+
+        if (index >= 2 * round) {
+
+            index -= round;
+        }
+
         // Finally, return final value:
 
         return final_value;
-- 
2.43.0


From b5f3de93739a67e1836006bc37b64f5881c4aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 65/71] fix: buffers take their size, channels and rate as any
 integers

---
 include/maec/dsp/buffer.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 7bac589..a81ee82 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -21,6 +21,7 @@
 #include <cstddef>
 #include <initializer_list>
 #include <iterator>
+#include <type_traits>
 #include <vector>
 
 #include "const.hpp"
@@ -1638,6 +1639,24 @@ public:
                               double sra = dsp::consts::SAMPLE_RATE)
         : BaseBuffer<std::vector<T>>(vect, channels, sra) {}
 
+    /**
+     * @brief Constructs to a given size, for any kind of integers
+     *
+     * Without this, sizes that are not exactly of the types above
+     * would be taken as the values to place into the buffer.
+     *
+     * @param size Size of buffer to allocate
+     * @param channels Number of channels
+     * @param sra Sample rate to utilize
+     */
+    template <std::integral S, std::integral C = int, typename R = double>
+        requires std::is_arithmetic_v<R>
+    constexpr explicit Buffer(S size, C channels = 1,
+                              R sra = dsp::consts::SAMPLE_RATE)
+        : BaseBuffer<std::vector<T>>(static_cast<std::size_t>(size),
+                                     static_cast<int>(channels),
+                                     static_cast<double>(sra)) {}
+
     /**
      * @brief Constructs using the iterator constructor of the undelying
      * container
@@ -1655,7 +1674,7 @@ public:
      * @param end Stop iterator
      * @param channels Number of channels present
      */
-    template <class ITER1, class ITER2>
+    template <std::input_iterator ITER1, std::input_iterator ITER2>
     constexpr explicit Buffer(const ITER1& begin, const ITER2& end,
                               int channels = 1, double sra = dsp::consts::SAMPLE_RATE)
         : BaseBuffer<std::vector<T>>(begin, end, channels, sra) {}
-- 
2.43.0


From 0fb0c9be35fa50df9cb063281c4ddf5afdd03282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 66/71] fix: buffers of a range take the channels and rate as
 any numbers

---
 include/maec/dsp/buffer.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index a81ee82..f36cc82 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1674,10 +1674,13 @@ public:
      * @param end Stop iterator
      * @param channels Number of channels present
      */
-    template <std::input_iterator ITER1, std::input_iterator ITER2>
+    template <std::input_iterator ITER1, std::input_iterator ITER2,
+              std::integral C = int, typename R = double>
+        requires std::is_arithmetic_v<R>
     constexpr explicit Buffer(const ITER1& begin, const ITER2& end,
-                              int channels = 1, double sra = dsp::consts::SAMPLE_RATE)
-        : BaseBuffer<std::vector<T>>(begin, end, channels, sra) {}
+                              C channels = 1, R sra = dsp::consts::SAMPLE_RATE)
+        : BaseBuffer<std::vector<T>>(begin, end, static_cast<int>(channels),
+                                     static_cast<double>(sra)) {}
 
     /**
      * @brief Constructs using an initializer list
-- 
2.43.0


From 850efcfa544f074ed1e6b993b1e4c6887f4bfbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 67/71] fix: constant iterators of a buffer can be advanced and
 subscripted

---
 include/maec/dsp/buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index f36cc82..a22667e 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -99,7 +99,7 @@ public:
     using iterator_category = std::random_access_iterator_tag;
     using difference_type = std::ptrdiff_t;
 
-    using iterator_type = typename dsp::util::ChooseType<IsConst, const I, I>::type;
+    using iterator_type = I;
 
     using value_type = typename dsp::util::ChooseType<IsConst, const T, T>::type;
     using pointer = value_type*;
@@ -456,7 +456,7 @@ public:
      */
     reference operator[](int val) const {
 
-        return *(static_cast<iterator_type*>(this)->resolve_pointer(val));
+        return *(static_cast<const I*>(this)->resolve_pointer(val));
     }
 
     /**
-- 
2.43.0


From d7b25c4d99c729f2aba791ac3caef4f88d1e1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 68/71] fix: a parallel module can be stopped from its thread
 as soon as it runs

---
 include/maec/parallel.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index f17d609..1f2483e 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -181,11 +181,12 @@ public:
             // Set the done value to be false
             
             this->done = false;
-        }
 
-        // Create the thread that runs the target function
+            // Create the thread that runs the target function
+            // (it waits for the lock, so it only works once we know it)
 
-        thread = std::thread{&ParallelModule::run_thread, this};
+            thread = std::thread{&ParallelModule::run_thread, this};
+        }
     }
 
     /**
-- 
2.43.0


From f2f6739bab5dc966d6cd7588213903b31c45fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 69/71] fix: ADSR envelopes follow settings changed before they
 are started again

---
 include/maec/envelope.hpp |  9 +++++++++
 src/envelope.cpp          | 15 +++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 493e7d7..4685811 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -563,6 +563,15 @@ public:
         this->next_envelope();
     }
 
+    /**
+     * @brief Removes all envelopes from this chain
+     *
+     * The envelopes that have been added are forgotten,
+     * and any internal envelopes are destroyed.
+     *
+     */
+    void clear();
+
     /**
      * @brief Optimizes the internal structure of the ChainEnvelope
      *
diff --git a/src/envelope.cpp b/src/envelope.cpp
index cb27486..809f2d7 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -169,6 +169,16 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
     }
 }
 
+void ChainEnvelope::clear() {
+
+    this->current = nullptr;
+    this->env_index = -1;
+    this->optimized = 0;
+
+    this->envs.clear();
+    this->inter.clear();
+}
+
 void ChainEnvelope::optimize() {
 
     // Determine if there is dead time before the first envelope:
@@ -341,6 +351,11 @@ void ChainEnvelope::process() {
 
 void ADSREnvelope::start() {
 
+    // Drop the envelopes of an earlier start, the settings may have changed:
+
+    this->clear();
+    this->envs.clear();
+
     // Add linear ramp for attack:
 
     std::unique_ptr<BaseEnvelope> att = std::make_unique<LinearRamp>();
-- 
2.43.0


From 952bd59c5bcacc1aa71cc8510332a72035bdc06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 70/71] fix: wave readers and writers start anew with each
 stream

---
 src/io/wav.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 60bb66d..eb37c40 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -186,6 +186,13 @@ void WaveReader::start() {
 
     stream->start();
 
+    // Nothing of this stream has been read yet
+    // (we may have been used with another stream before):
+
+    this->total_read = 0;
+    this->chunk_read = 0;
+    this->needs_chunk = true;
+
     // Next, read file header:
 
     WavHeader head;
@@ -495,6 +502,10 @@ void WaveWriter::start() {
         this->stream->start();
     }
 
+    // Nothing has been written to this stream yet:
+
+    this->set_size(0);
+
     // First, create the wave header:
 
     WavHeader whead;
-- 
2.43.0


From 4c162076dd592d5465f55061e8aad6f72ef23b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 71/71] fix: start counting finished modules again when a chain
 is started

---
 include/maec/sink_module.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 519fc23..e73c910 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -77,6 +77,21 @@ public:
     //     this->info_sync();
     // }
 
+    /**
+     * @brief Starts the chain
+     *
+     * No module of a chain that starts (again) has finished yet,
+     * so the number of finished modules is reset
+     * before the modules behind us are started.
+     *
+     */
+    void meta_start() override {
+
+        this->chain_instance.module_finish = 0;
+
+        AudioModule<void, B>::meta_start();
+    }
+
     /**
      * @brief Preforms an info sync
      *
-- 
2.43.0

