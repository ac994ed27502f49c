From c9f10cbcde21af856d914b828ad3d7ef5c6455e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 01/37] fix: iterating an empty buffer sequentially divided by
 zero

---
 include/maec/dsp/buffer.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 5862f6d..9dcd475 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -829,7 +829,12 @@ public:
          * @return int The sample of the iterator in the current channel
          */
         int get_sample(int index) const {
-            return static_cast<int>(index % this->buff->channel_capacity());
+
+            // An empty buffer has no samples, avoid dividing by zero
+
+            const auto capacity = this->buff->channel_capacity();
+
+            return capacity == 0 ? 0 : static_cast<int>(index % capacity);
         }
 
         int get_channel(int index) const {
@@ -842,7 +847,12 @@ public:
             return static_cast<int>(index / this->buff.channel_capacity()) %
                    this->buff.channels();
 #else
-            return static_cast<int>(index / this->buff->channel_capacity());
+
+            // An empty buffer has no channels, avoid dividing by zero
+
+            const auto capacity = this->buff->channel_capacity();
+
+            return capacity == 0 ? 0 : static_cast<int>(index / capacity);
 #endif
         }
 
-- 
2.43.0


From eb2bdbb503be0c4bd089fa8826ec01e809987f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 02/37] fix: ring buffer addressed the wrong element for
 negative indices

---
 include/maec/dsp/buffer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 9dcd475..0d29de4 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1905,7 +1905,12 @@ protected:
      * @param nindex Index to normalize
      * @return Normalized index
      */
-    int normalize_index(int nindex) const { return nindex % this->size(); }
+    int normalize_index(int nindex) const {
+        const int len = static_cast<int>(this->size());
+        const int rem = nindex % len;
+
+        return rem < 0 ? rem + len : rem;
+    }
 
 public:
     /**
-- 
2.43.0


From 0656b895a0eb6b3a383fd9e525fdc8f8f9d1c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 03/37] fix: negative 16-bit samples converted to values below
 -1 and did not convert back

---
 src/audio_buffer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/audio_buffer.cpp b/src/audio_buffer.cpp
index 6c487cd..3834a45 100644
--- a/src/audio_buffer.cpp
+++ b/src/audio_buffer.cpp
@@ -76,6 +76,13 @@ unsigned char mf_uchar(double val) {
 
 double int16_mf(int16_t val) {
 
+    if (val < 0) {
+
+        // Divide by largest negative value:
+
+        return static_cast<double>(val) / 32768.;
+    }
+
     // Divide by largest value:
 
     return static_cast<double>(val) / 32767.;
-- 
2.43.0


From ab88f6d4dd40768dcc710f37644f397eb7c22ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 04/37] fix: in-memory streams read past their end and
 misplaced writes after a seek past it; starting an open file stream broke it

---
 include/maec/io/mstream.hpp | 11 ++++++++++-
 src/io/mstream.cpp          | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/include/maec/io/mstream.hpp b/include/maec/io/mstream.hpp
index cc02a31..51b5b15 100644
--- a/include/maec/io/mstream.hpp
+++ b/include/maec/io/mstream.hpp
@@ -258,6 +258,8 @@ public:
      * @brief Reads chars from the array
      * 
      * We copy chars from the array into the output.
+     * If the array does not contain enough chars,
+     * then we output what is left and stop this stream.
      * 
      * @param byts Char array to store results into
      * @param num Number of bytes to read
@@ -392,9 +394,16 @@ public:
      * 
      * This method opens the fstream and prepares it for operation.
      * We pass the open mode to the fstream.
+     * If the fstream is already open, then we do nothing.
      * 
      */
-    void open() { this->fstream.open(filepath, mode); }
+    void open() {
+
+        if (!this->fstream.is_open()) {
+
+            this->fstream.open(filepath, mode);
+        }
+    }
 
     /**
      * @brief Closes the fstream
diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index c731d52..e873480 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -16,17 +16,45 @@
 
 void CharIStream::read(char* byts, int num) {
 
-    // Copy the contents over:
+    // Determine the number of bytes we can provide:
 
-    std::copy_n(arr.begin() + this->index, num, byts);
+    const std::size_t left =
+        this->index < this->arr.size() ? this->arr.size() - this->index : 0;
+    const std::size_t total = num > 0 ? static_cast<std::size_t>(num) : 0;
+    const std::size_t count = std::min(total, left);
 
-    // Increment index:
+    if (count > 0) {
 
-    this->index += num;
+        // Copy the contents over:
+
+        std::copy_n(arr.begin() + this->index, count, byts);
+
+        // Increment index:
+
+        this->index += count;
+    }
+
+    // Determine if we ran out of data:
+
+    if (count < total) {
+
+        // Nothing left to provide, just stop:
+
+        this->stop();
+    }
 }
 
 void CharOStream::write(char* byts, int num) {
 
+    // Determine if we are past the end of the array:
+
+    if (this->index > this->arr.size()) {
+
+        // Fill the gap with zeros:
+
+        this->arr.resize(this->index);
+    }
+
     // Offset to use when determining back insertion:
 
     std::size_t offset = 0;
-- 
2.43.0


From 27dfcbe9d68243c2350ab7c6b7059958f49105f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 05/37] fix: WAV reader mishandled extra chunks, format
 extensions, padding, truncated and malformed input; writer never started its
 stream and could not be reused

---
 include/maec/io/wav.hpp |  15 +++-
 src/io/wav.cpp          | 181 ++++++++++++++++++++++++++++++----------
 2 files changed, 151 insertions(+), 45 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 42dc25d..5da994d 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -594,11 +594,18 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Skips the contents of a chunk we are not interested in
+     *
+     * @param size Number of bytes to skip, padding is handled automatically
+     */
+    void skip_chunk(uint32_t size);
+
     /// Size of buffer to output
     int buffer_size = 0;
 
     /// Number of bytes read from chunk
-    int chunk_read = 0;
+    uint32_t chunk_read = 0;
 
     /// Total number of bytes read
     uint32_t total_read = 0;
@@ -697,7 +704,10 @@ private:
      */
     void increment_size(int num) { this->set_size(this->get_size() + num); }
 
-    /// Stream we are reading from
+    /// Number of bytes of audio data written
+    uint32_t data_size = 0;
+
+    /// Stream we are writing to
     BaseMOStream* stream = nullptr;
 };
 
@@ -717,6 +727,7 @@ private:
  * 
  */
 class WaveSource : public SourceModule, public WaveReader {
+public:
 
     WaveSource() = default;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c8302b0..7534347 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -11,6 +11,8 @@
 
 #include "io/wav.hpp"
 
+#include <algorithm>
+#include <array>
 #include <vector>
 
 #include "audio_buffer.hpp"
@@ -177,6 +179,12 @@ void UnknownChunk::encode(BaseMOStream& stream) {
 
 void WaveReader::start() {
 
+    // Reset our position, we are starting from scratch:
+
+    this->total_read = 0;
+    this->chunk_read = 0;
+    this->needs_chunk = true;
+
     // First, start the stream:
 
     stream->start();
@@ -189,42 +197,46 @@ void WaveReader::start() {
 
     // Ensure we are in a format we expect:
 
-    if (head.chunk_id != "RIFF") {
+    if (head.chunk_id != "RIFF" || head.format != "WAVE") {
 
         // Invalid header!
         // We do not support this file
-        // TODO: Do something here
-        int dhd = 0;
-    }
 
-    // Ensure the format is something we expect:
-
-    if (head.format != "WAVE") {
+        this->stop();
 
-        // Invalid format type!
-        // We do not support this file
-        // TODO: Again, do something here
-        int dhd = 0;
+        return;
     }
 
     // Save the size of the file:
 
-    this->set_size(head.chunk_size + 8);
+    this->set_size(static_cast<int>(head.chunk_size + 8));
 
-    // Next, read the format chunk
-    // TODO: Is it always guaranteed that format will always be second chunk?
+    // Next, find the format chunk, it is NOT always the second chunk
 
     ChunkHeader chead;
 
     this->read_chunk_header(chead);
 
-    // Determine this chunk is a format chunk:
+    while (!this->done() && chead.chunk_id != "fmt ") {
+
+        // We are not interested in this chunk, move on:
+
+        this->skip_chunk(chead.chunk_size);
+
+        this->read_chunk_header(chead);
+    }
+
+    // Determine if we have a usable format chunk:
+
+    const uint32_t fsize = WavFormat::size() - ChunkHeader::size();
 
-    if (chead.chunk_id != "fmt ") {
+    if (this->done() || chead.chunk_size < fsize) {
 
-        // This chunk is not format chunk
-        // TODO: Gotta do something here
-        int dhd = 0;
+        // No format, nothing can be read
+
+        this->stop();
+
+        return;
     }
 
     // Read the wave format chunk
@@ -233,14 +245,37 @@ void WaveReader::start() {
 
     this->read_format_chunk(form);
 
+    if (stream->bad() || form.channels == 0) {
+
+        // Incomplete or invalid format, nothing can be read
+
+        this->stop();
+
+        return;
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
     this->set_channels(form.channels);
     this->set_samplerate(form.sample_rate);
+    this->set_bits_per_sample(form.bits_per_sample);
     this->set_byterate(form.byte_rate);
     this->set_blockalign(form.block_align);
-    this->set_bits_per_sample(form.bits_per_sample);
+
+    // Skip any extension of the format chunk:
+
+    this->skip_chunk(chead.chunk_size - fsize);
+
+    // Determine if we support this kind of data:
+
+    if (form.format != 1 ||
+        (form.bits_per_sample != 8 && form.bits_per_sample != 16)) {
+
+        // We have no idea how to read this
+
+        this->stop();
+    }
 }
 
 void WaveReader::stop() {
@@ -275,6 +310,31 @@ void WaveReader::read_format_chunk(WavFormat& chunk) {
     this->total_read += 16;
 }
 
+void WaveReader::skip_chunk(uint32_t size) {
+
+    // Array to throw data into:
+
+    std::array<char, 512> data = {};
+
+    // Chunks are padded to an even number of bytes:
+
+    uint64_t left = static_cast<uint64_t>(size) + (size & 1);
+
+    // The size might be bogus, so stop when there is nothing left
+
+    while (left > 0 && !this->done()) {
+
+        const int num =
+            static_cast<int>(std::min<uint64_t>(left, data.size()));
+
+        this->stream->read(data.data(), num);
+
+        this->total_read += num;
+
+        left -= num;
+    }
+}
+
 BufferPointer WaveReader::get_data() {
 
     // Define the BufferPointer to return:
@@ -299,27 +359,21 @@ BufferPointer WaveReader::get_data() {
 
             this->read_chunk_header(this->head);
 
-            // Determine if this is a data chunk:
-
-            if (this->head.chunk_id != "data") {
-
-                // Create UnknownChunk:
+            // Determine if we could read the header:
 
-                UnknownChunk chunk(this->head.chunk_size);
+            if (this->stream->bad()) {
 
-                // Not a data chunk, read data into an unknown chunk:
-
-                this->stream->read(chunk.data.data(), this->head.chunk_size);
+                break;
+            }
 
-                // Also copy over other pieces of info:
+            // Determine if this is a data chunk:
 
-                chunk.chunk_id = head.chunk_id;
-                chunk.chunk_size = head.chunk_size;
+            if (this->head.chunk_id != "data") {
 
                 // We are past this weird chunk! Continue
                 // TODO: Should we save these chunks somewhere?
 
-                this->total_read += this->head.chunk_size;
+                this->skip_chunk(this->head.chunk_size);
 
                 continue;
             }
@@ -345,14 +399,13 @@ BufferPointer WaveReader::get_data() {
         // We either read the entire buffer size,
         // or the number of bytes left in this chunk, whichever is smallest
 
-        const int buffer_bytes =
+        const uint32_t buffer_bytes =
             (this->buffer_size * this->get_channels() - read) *
             this->get_bytes_per_sample();
 
-        const int chunk_bytes =
-            static_cast<int>(head.chunk_size - this->chunk_read);
+        const uint32_t chunk_bytes = head.chunk_size - this->chunk_read;
 
-        int to_read = 0;
+        uint32_t to_read = 0;
 
         if (chunk_bytes <= buffer_bytes) {
 
@@ -371,11 +424,13 @@ BufferPointer WaveReader::get_data() {
             to_read = buffer_bytes;
         }
 
-        // Read data into vector:
+        // Read data into vector, anything we can't read is silence:
 
-        std::vector<char> tdata(to_read);
+        std::vector<char> tdata(
+            to_read,
+            this->get_bits_per_sample() == 8 ? static_cast<char>(128) : '\0');
 
-        this->stream->read(tdata.data(), to_read);
+        this->stream->read(tdata.data(), static_cast<int>(to_read));
 
         this->total_read += to_read;
 
@@ -383,6 +438,18 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        // Determine if we need to skip the padding of this chunk:
+
+        if (this->needs_chunk && (this->head.chunk_size & 1) != 0 &&
+            !this->done()) {
+
+            char pad = 0;
+
+            this->stream->read(&pad, 1);
+
+            this->total_read += 1;
+        }
+
         // Determine which type to read in:
 
         if (this->get_bits_per_sample() == 16) {
@@ -439,6 +506,17 @@ BufferPointer WaveReader::get_data() {
 
 void WaveWriter::start() {
 
+    // Start the stream:
+
+    this->stream->start();
+
+    // Nothing has been written yet, go to the start of the stream:
+
+    this->set_size(0);
+    this->data_size = 0;
+
+    this->stream->seek(0);
+
     // First, create the wave header:
 
     WavHeader whead;
@@ -492,6 +570,20 @@ void WaveWriter::stop() {
 
     std::array<char, 4> sout = {};
 
+    // Chunks are padded to an even number of bytes,
+    // determine if we need to (and did not yet) pad the audio data
+
+    const uint32_t hsize =
+        WavHeader::size() + WavFormat::size() + ChunkHeader::size();
+
+    if ((this->data_size & 1) != 0 &&
+        static_cast<uint32_t>(this->get_size()) == hsize + this->data_size) {
+
+        this->stream->write(sout.begin(), 1);
+
+        this->increment_size(1);
+    }
+
     // Determine if we need to correct wave header size:
 
     if (this->get_size() >= 12) {
@@ -519,9 +611,7 @@ void WaveWriter::stop() {
 
         // Encode data chunk size:
 
-        uint32_char(this->get_size() - WavHeader::size() - WavFormat::size() -
-                        ChunkHeader::size(),
-                    sout.begin());
+        uint32_char(this->data_size, sout.begin());
 
         // Write to file:
 
@@ -572,6 +662,7 @@ void WaveWriter::write_data(BufferPointer data) {
     // Add to total written:
 
     this->increment_size(odata.size());
+    this->data_size += odata.size();
 }
 
 void WaveSource::start() {
@@ -602,6 +693,10 @@ void WaveSource::stop() {
 
 void WaveSource::process() {
 
+    // The size of the chain might have changed since we started:
+
+    WaveReader::set_buffer_size(this->get_info()->out_buffer);
+
     // Ask the WaveReader to generate AudioBuffer:
 
     auto buff = WaveReader::get_data();
-- 
2.43.0


From cd31242fde17999a24299101c51708168e30e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 06/37] fix: sources that override a state hook never reported
 their state

---
 include/maec/source_module.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/maec/source_module.hpp b/include/maec/source_module.hpp
index 819c0d7..bb0bfd6 100644
--- a/include/maec/source_module.hpp
+++ b/include/maec/source_module.hpp
@@ -50,7 +50,12 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_start() override { this->start(); }
+    void meta_start() override {
+
+        BaseModule::start();
+
+        this->start();
+    }
 
     /**
      * @brief Meta stop method
@@ -59,7 +64,12 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_stop() override { this->stop(); }
+    void meta_stop() override {
+
+        BaseModule::stop();
+
+        this->stop();
+    }
 
     /**
      * @brief Meta info sync method
@@ -77,5 +87,10 @@ public:
      * we do NOT preform any finishes on backwards modules
      *
      */
-    void meta_finish() override { this->finish(); }
+    void meta_finish() override {
+
+        BaseModule::finish();
+
+        this->finish();
+    }
 };
-- 
2.43.0


From 98761cf3e10951f4e455e229d31f96f0d1ade413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 07/37] fix: a finished fan-in with a deferred completion never
 reported finishing

---
 src/module_mixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index d62979b..60b5358 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -92,6 +92,10 @@ void ModuleMixDown::meta_finish() {
         mod->meta_finish();
     }
 
+    // Set our state
+
+    BaseModule::finish();
+
     // Call the user defined finish method
 
     this->finish();
-- 
2.43.0


From 6d3b0a878f90ed3a15449f0e96bcebf5731d4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 08/37] fix: repeated info syncs counted the modules of a chain
 again and again

---
 include/maec/sink_module.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 9390465..9ae431e 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -87,6 +87,10 @@ public:
         // Configure the AudioInfo:
 
         this->get_info()->from_chain(this->chain_instance);
+
+        // The modules behind us will be counted again:
+
+        this->chain_instance.module_num = 1;
     }
 };
 
-- 
2.43.0


From dc94dfbd4ae9e64c56b508b3985c4860f934df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 09/37] fix: a fan-out truncated or overflowed blocks of
 several channels and could not be synchronised

---
 src/module_mixer.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index 60b5358..c2dda5a 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -173,18 +173,17 @@ void ModuleMixUp::forward(BaseModule* mod) {
     // Add the forward module to our vector:
 
     this->out.push_back(mod);
-}
 
-AudioBuffer&& ModuleMixUp::get_buffer() {
+    // Also set it as our forward module, we get our info from it:
 
-    // Configure the temporary buffer
+    AudioModule<>::forward(mod);
+}
 
-    tbuff.set_channels(this->get_info()->channels);
-    tbuff.set_samplerate(this->get_info()->sample_rate);
+AudioBuffer&& ModuleMixUp::get_buffer() {
 
-    tbuff.resize(this->get_info()->out_buffer);
+    // Copy our buffer (and its settings) into the temporary buffer
 
-    std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());
+    tbuff = this->buff;
 
     // Finally, return the buffer:
 
-- 
2.43.0


From 41e34cf693c481f56777246705e399c2116f7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 10/37] fix: a parameter set to a constant after its owner was
 synchronised used default block settings

---
 src/module_param.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module_param.cpp b/src/module_param.cpp
index 17000ce..433b2f7 100644
--- a/src/module_param.cpp
+++ b/src/module_param.cpp
@@ -39,6 +39,11 @@ void ModuleParam::set_constant(double val) {
     this->const_mod = std::make_unique<ConstModule>(val);
 
     this->link(this->const_mod.get());
+
+    // We might already be configured, so share our info:
+
+    this->const_mod->set_info(*this->get_info());
+    this->const_mod->set_chain_info(this->get_chain_info());
 }
 
 void ModuleParam::conf_mod(BaseModule* mod) {
-- 
2.43.0


From 308682777954009ba78fb745ef45a96d30423c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:37 +0000
Subject: [PATCH 11/37] fix: synchronising a fan-out before its latest consumer
 belongs to a chain crashed

---
 include/maec/module_mixer.hpp | 10 ++++++++++
 src/module_mixer.cpp          | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/maec/module_mixer.hpp b/include/maec/module_mixer.hpp
index f410fd2..351b4f7 100644
--- a/include/maec/module_mixer.hpp
+++ b/include/maec/module_mixer.hpp
@@ -207,6 +207,16 @@ public:
      */
     void forward(BaseModule* mod) override;
 
+    /**
+     * @brief Gets the module in front of us our info is taken from
+     *
+     * This is the module that was attached most recently,
+     * unless it does not belong to a synced chain yet.
+     *
+     * @return Module in front of us
+     */
+    BaseModule* forward() override;
+
     /**
      * @brief Get the buffer object
      *
diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index c2dda5a..9fe7515 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -179,6 +179,21 @@ void ModuleMixUp::forward(BaseModule* mod) {
     AudioModule<>::forward(mod);
 }
 
+BaseModule* ModuleMixUp::forward() {
+
+    // Prefer the latest module that already has chain info to share:
+
+    for (auto mod = this->out.rbegin(); mod != this->out.rend(); ++mod) {
+
+        if ((*mod)->get_chain_info() != nullptr) {
+
+            return *mod;
+        }
+    }
+
+    return AudioModule<>::forward();
+}
+
 AudioBuffer&& ModuleMixUp::get_buffer() {
 
     // Copy our buffer (and its settings) into the temporary buffer
-- 
2.43.0


From 8504cb552345ac7fb5426bee9498ac4d7e7f791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 12/37] fix: square, sawtooth and triangle waves left [-1, 1]
 for negative frequencies or phases

---
 src/fund_oscillator.cpp | 50 ++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index c88abdf..cb0c403 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -16,6 +16,11 @@
 
 const double TWO_PI = 2.0 * std::numbers::pi_v<double>;
 
+/// Position within the current cycle [0, 1), also for negative values
+static double cycle_position(double cycles) {
+    return cycles - std::floor(cycles);
+}
+
 void SineOscillator::process() {
 
     // Create a new buffer:
@@ -46,10 +51,6 @@ void SquareOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -58,9 +59,8 @@ void SquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf((this->get_frequency() * this->get_phase() /
-                       this->buff.get_samplerate()),
-                      &placeholder) < 0.5)
+        *iter = (cycle_position((this->get_frequency() * this->get_phase() /
+                       this->buff.get_samplerate())) < 0.5)
                     ? 1.0
                     : -1.0;
 
@@ -76,10 +76,6 @@ void SawtoothOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -88,10 +84,9 @@ void SawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf(((this->get_frequency() * this->get_phase() /
+        *iter = (2.0 * cycle_position(((this->get_frequency() * this->get_phase() /
                               this->buff.get_samplerate()) +
-                             0.5),
-                            &placeholder)) -
+                             0.5))) -
                 1.0;
 
         // Increment the phase:
@@ -106,10 +101,6 @@ void TriangleOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -118,9 +109,8 @@ void TriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf((this->get_frequency() * this->get_phase() /
-                            this->buff.get_samplerate()),
-                           &placeholder);
+        double temp = cycle_position((this->get_frequency() * this->get_phase() /
+                            this->buff.get_samplerate()));
 
         if (temp < 0.25) {
             temp *= 4.0;
@@ -190,10 +180,6 @@ void ModSquareOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -202,7 +188,7 @@ void ModSquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf(this->get_phase(), &placeholder) < 0.5) ? 1.0 : -1.0;
+        *iter = (cycle_position(this->get_phase()) < 0.5) ? 1.0 : -1.0;
 
         // Get frequency value:
 
@@ -228,10 +214,6 @@ void ModSawtoothOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -240,7 +222,7 @@ void ModSawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf((this->get_phase() + 0.5), &placeholder)) - 1.0;
+        *iter = (2.0 * cycle_position((this->get_phase() + 0.5))) - 1.0;
 
         // Get the frequency value:
 
@@ -266,10 +248,6 @@ void ModTriangleOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -278,7 +256,7 @@ void ModTriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf(this->get_phase(), &placeholder);
+        double temp = cycle_position(this->get_phase());
 
         if (temp < 0.25) {
             temp *= 4.0;
-- 
2.43.0


From d61a3ce1ed98a426bffbad5ea9a232a40a238178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 13/37] fix: oscillators advanced once per sample instead of
 once per frame in multi-channel chains

---
 src/fund_oscillator.cpp | 48 +++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index cb0c403..44849c4 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -39,9 +39,11 @@ void SineOscillator::process() {
                                         this->get_phase() /
                                         this->buff.get_samplerate()));
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are filled:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -64,9 +66,11 @@ void SquareOscillator::process() {
                     ? 1.0
                     : -1.0;
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are filled:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -89,9 +93,11 @@ void SawtoothOscillator::process() {
                              0.5))) -
                 1.0;
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are filled:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -126,9 +132,11 @@ void TriangleOscillator::process() {
 
         *iter = temp;
 
-        // Increment the phase:
+        // Increment the phase once all channels of this frame are filled:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -160,9 +168,11 @@ void ModSineOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase, once all channels of this frame are filled:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -194,9 +204,11 @@ void ModSquareOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase, once all channels of this frame are filled:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -228,9 +240,11 @@ void ModSawtoothOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase, once all channels of this frame are filled:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -276,8 +290,10 @@ void ModTriangleOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase, once all channels of this frame are filled:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
-- 
2.43.0


From 88fd3df433f3d9a0e8a5c12ee379fc58539a88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 14/37] fix: the chain timer's 32-bit sample counter overflowed
 in long sessions

---
 include/maec/chrono.hpp | 14 +++++++-------
 src/envelope.cpp        |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 2e916ea..adee6a7 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -85,7 +85,7 @@ private:
     int channels = 1;
 
     /// Current sample
-    int sample = 0;
+    int64_t sample = 0;
 
     /// Nanoseconds per frame
     int64_t nano_frame = NANO / dsp::consts::SAMPLE_RATE;
@@ -191,7 +191,7 @@ public:
      * @param channel Number of channels
      * @return int64_t Elapsed time in nanoseconds
      */
-    int64_t get_time(int sample, int channel) const {
+    int64_t get_time(int64_t sample, int channel) const {
         return static_cast<int64_t>(sample / channel) * this->nano_frame;
     }
 
@@ -206,7 +206,7 @@ public:
      * @param sample Number of samples
      * @return int74_t Elapsed time in nanoseconds
      */
-    int64_t get_time(int sample) const {
+    int64_t get_time(int64_t sample) const {
         return static_cast<int64_t>(sample) * this->nano_frame;
     }
 
@@ -220,7 +220,7 @@ public:
      *
      * @param samp
      */
-    void set_sample(int samp) { this->sample = samp; }
+    void set_sample(int64_t samp) { this->sample = samp; }
 
     /**
      * @brief Increments the sample
@@ -240,14 +240,14 @@ public:
      *
      * @param val Value to add to sample number
      */
-    void add_sample(int val) { this->sample += val; }
+    void add_sample(int64_t val) { this->sample += val; }
 
     /**
      * @brief Gets the current sample
      *
      * We return the current sample in this timer.
      *
-     * @return int Current sample
+     * @return int64_t Current sample
      */
-    int get_sample() const { return this->sample; }
+    int64_t get_sample() const { return this->sample; }
 };
diff --git a/src/envelope.cpp b/src/envelope.cpp
index be73435..1ba9237 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -57,7 +57,7 @@ void ConstantEnvelope::process() {
 
     // Set the time:
 
-    this->get_timer()->add_sample(static_cast<int>(this->buff.size()));
+    this->get_timer()->add_sample(static_cast<int64_t>(this->buff.size()));
 }
 
 void SetValue::process() {
@@ -85,7 +85,7 @@ void SetValue::process() {
 
     // Set the time:
 
-    this->get_timer()->add_sample(static_cast<int>(size));
+    this->get_timer()->add_sample(static_cast<int64_t>(size));
 }
 
 void ExponentialRamp::process() {
-- 
2.43.0


From 1353c3cf2e25520ad88e7074920c9d3c4f2bd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 15/37] fix: a jump envelope wrote before its block after its
 stop time and ended early in multi-channel chains

---
 src/envelope.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 1ba9237..4aa2cf0 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -11,6 +11,7 @@
 
 #include "envelope.hpp"
 
+#include <algorithm>
 #include <cmath>
 
 #include "audio_buffer.hpp"
@@ -70,8 +71,13 @@ void SetValue::process() {
 
     auto size = this->buff.size();
 
-    int64_t initial =
-        std::min(this->remaining_samples(), static_cast<int64_t>(size));
+    // (None once we passed the stop time, one per channel for each frame left)
+
+    const int64_t remaining =
+        this->remaining_samples() * this->get_timer()->get_channels();
+
+    int64_t initial = std::clamp(remaining, static_cast<int64_t>(0),
+                                 static_cast<int64_t>(size));
 
     // Determine the number of values to be final:
 
-- 
2.43.0


From 67b991b4f48544ba582d5a47cae2886a9e3236a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:33 +0000
Subject: [PATCH 16/37] fix: the clock of a duration envelope stood still, so
 restarting it placed the envelope in the past

---
 include/maec/envelope.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index bf4861a..2f6fa10 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -291,11 +291,13 @@ public:
      *
      * We simply call the meta process method on the child envelope,
      * and set it's buffer to be ours.
+     * Our own timer advances along with the child's.
      *
      */
     void meta_process() override {
         this->env->meta_process();
         this->set_buffer(std::move(this->env->get_buffer()));
+        this->get_timer()->add_sample(static_cast<int64_t>(this->buff.size()));
     }
 };
 
-- 
2.43.0


From 5c7deafaff6ef1dd6af8e8c9df3b1e837b75f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 17/37] fix: chain envelopes hung on off-frame or expired
 envelopes, skipped the leading gap, filled one channel only and used a freed
 envelope

---
 include/maec/envelope.hpp |  5 ++-
 src/envelope.cpp          | 94 +++++++++++++++++++++++++++++++--------
 2 files changed, 80 insertions(+), 19 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 2f6fa10..b778485 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -524,7 +524,10 @@ public:
      * @brief Start method
      *
      */
-    void start() override { this->next_envelope(); }
+    void start() override {
+        this->env_index = -1;
+        this->next_envelope();
+    }
 
     /**
      * @brief Optimizes the internal structure of the ChainEnvelope
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 4aa2cf0..7c16b20 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -146,10 +146,20 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
     if (!this->inter.empty()) {
 
-        // Remove last value:
+        if (this->current == this->inter.back().get()) {
 
-        this->envs.pop_back();
-        this->inter.pop_back();
+            // We are using the last value, keep it until the new one starts:
+
+            this->current->set_stop_time(env->get_start_time());
+        }
+
+        else {
+
+            // Remove last value:
+
+            this->envs.pop_back();
+            this->inter.pop_back();
+        }
     }
 
     // Add the envelope to the collection:
@@ -163,6 +173,14 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
 void ChainEnvelope::optimize() {
 
+    // Determine if there is dead time before the first envelope:
+
+    if (this->can_optimize && this->inter.empty() && !this->envs.empty() &&
+        this->envs[0]->get_start_time() > 0) {
+
+        this->create_internal(0);
+    }
+
     // Iterate until all modules are optimized:
 
     int size = static_cast<int>(this->envs.size()) - 1;
@@ -188,9 +206,12 @@ void ChainEnvelope::optimize() {
         this->create_internal(++(this->optimized));
     }
 
-    // Finally, add envelope to the back:
+    // Finally, add envelope to the back, unless it is there already:
 
-    this->create_internal(static_cast<int>(this->envs.size()));
+    if (this->inter.empty() || this->envs.back() != this->inter.back().get()) {
+
+        this->create_internal(static_cast<int>(this->envs.size()));
+    }
 }
 
 void ChainEnvelope::create_internal(int index) {
@@ -245,9 +266,21 @@ void ChainEnvelope::create_internal(int index) {
 
 void ChainEnvelope::next_envelope() {
 
-    // Grab the next envelope:
+    // If there are no envelopes, return the start value:
+
+    if (this->envs.empty()) {
+
+        this->create_internal(0);
+    }
+
+    // Grab the next envelope, stay at the last if there is none:
+
+    if (this->env_index + 1 < static_cast<int>(this->envs.size())) {
 
-    this->current = this->envs[++(this->env_index)];
+        ++(this->env_index);
+    }
+
+    this->current = this->envs[this->env_index];
 
     // Set their chain timer to ours:
 
@@ -262,25 +295,47 @@ void ChainEnvelope::process() {
         AudioBuffer(this->get_info()->out_buffer, this->get_info()->channels,
                     this->get_info()->sample_rate);
 
+    // Ensure we have an envelope to work with:
+
+    if (this->current == nullptr) {
+
+        this->next_envelope();
+    }
+
+    // Number of frames processed:
+
     int processed = 0;
 
     // Iterate until buffer is full:
 
     while (processed < this->get_info()->out_buffer) {
 
+        // Skip envelopes that are complete:
+
+        if (this->current->get_stop_time() >= 0 &&
+            this->get_time() >= this->current->get_stop_time()) {
+
+            this->next_envelope();
+
+            continue;
+        }
+
         int num = this->get_info()->out_buffer - processed;
 
-        // First, determine the number of samples current envelope will output:
+        // First, determine the number of frames current envelope will output:
+        // (At least one, the stop time may be within the next frame)
 
         if (this->current->get_stop_time() >= 0) {
 
-            num = std::min(
-                num, static_cast<int>(this->current->remaining_samples()));
+            num = static_cast<int>(
+                std::clamp(this->current->remaining_samples(),
+                           static_cast<int64_t>(1), static_cast<int64_t>(num)));
         }
 
         // Set size of current envelope to num value:
 
         this->current->get_info()->out_buffer = num;
+        this->current->get_info()->channels = this->get_info()->channels;
 
         // Grab buffer from current envelope:
 
@@ -290,23 +345,26 @@ void ChainEnvelope::process() {
 
         // First, fill it with contents of first envelope:
 
-        std::copy_n(cbuff.ibegin(), num, tbuff.ibegin() + processed);
+        std::copy_n(cbuff.ibegin(), cbuff.size(),
+                    tbuff.ibegin() + processed * this->get_info()->channels);
 
-        // Update the number of samples processed:
+        // Update the number of frames processed:
 
         processed += num;
 
         // Update the timer:
 
-        this->get_timer()->add_sample(num);
+        this->get_timer()->add_sample(static_cast<int64_t>(cbuff.size()));
+    }
 
-        if (this->current->get_stop_time() >= 0 &&
-            this->get_time() >= this->current->get_stop_time()) {
+    // Move on if the current envelope is complete:
 
-            // Get a new envelope:
+    if (this->current->get_stop_time() >= 0 &&
+        this->get_time() >= this->current->get_stop_time()) {
 
-            this->next_envelope();
-        }
+        // Get a new envelope:
+
+        this->next_envelope();
     }
 
     // Finally, set the buffer:
-- 
2.43.0


From dee3d8048eac5347820a0e1f0a6ece8645612c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 18/37] fix: ADSR envelopes never selected a stage, confused
 decay and release times and ignored finish requests

---
 include/maec/envelope.hpp |  41 +++++++++++++
 src/envelope.cpp          | 122 ++++++++++++++++++++++++++++++++------
 2 files changed, 144 insertions(+), 19 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index b778485..b9f586f 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -546,6 +546,12 @@ public:
      * This function will be called automatically when necessary.
      */
     void optimize();
+
+    /**
+     * @brief Removes all envelopes from this collection
+     *
+     */
+    void clear();
 };
 
 /**
@@ -575,9 +581,35 @@ private:
     /// Time it takes to ramp to zero after key is released
     int64_t release = 0;
 
+    /// Time we were started at, negative if we never were
+    int64_t started = -1;
+
+    /// Time the release is complete
+    int64_t release_stop = 0;
+
+    /// Value determining if we are releasing
+    bool releasing = false;
+
     /// Collection for keeping envelopes:
     Collection<BaseEnvelope> envs;
 
+    /**
+     * @brief Determines the value at the current time
+     *
+     * @return double Current value of the attack, decay or sustain stage
+     */
+    double current_value() const;
+
+    /**
+     * @brief Adds a linear ramp to this envelope
+     *
+     * @param startv Start value
+     * @param stopv Stop value
+     * @param startt Start time
+     * @param stopt Stop time
+     */
+    void add_ramp(double startv, double stopv, int64_t startt, int64_t stopt);
+
 public:
     ADSREnvelope() = default;
 
@@ -664,7 +696,16 @@ public:
      * down to zero when called.
      * We determine the current value we are operating at
      * and ramp downwards.
+     * We are done once the ramp is complete.
      *
      */
     void finish() override;
+
+    /**
+     * @brief Process this envelope
+     *
+     * We are done once the release is complete.
+     *
+     */
+    void process() override;
 };
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 7c16b20..6fe5cd4 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -372,31 +372,80 @@ void ChainEnvelope::process() {
     this->set_buffer(std::move(tbuff));
 }
 
+void ChainEnvelope::clear() {
+
+    // Remove all envelopes:
+
+    this->current = nullptr;
+    this->env_index = -1;
+    this->optimized = 0;
+
+    this->envs.clear();
+    this->inter.clear();
+}
+
+void ADSREnvelope::add_ramp(double startv, double stopv, int64_t startt,
+                            int64_t stopt) {
+
+    std::unique_ptr<BaseEnvelope> ramp = std::make_unique<LinearRamp>();
+
+    ramp->set_start_value(startv);
+    ramp->set_stop_value(stopv);
+    ramp->set_start_time(startt);
+    ramp->set_stop_time(stopt);
+
+    this->add_envelope(ramp.get());
+    this->envs.add_object(ramp);
+}
+
+double ADSREnvelope::current_value() const {
+
+    // Nothing to release if we never started:
+
+    if (this->started < 0) {
+
+        return 0;
+    }
+
+    // Determine the time since we started:
+
+    const int64_t time = this->get_time() - this->started;
+
+    if (time < this->attack) {
+
+        return static_cast<double>(time) / static_cast<double>(this->attack);
+    }
+
+    if (time < this->attack + this->decay) {
+
+        return 1 + (this->sustain - 1) *
+                       (static_cast<double>(time - this->attack) /
+                        static_cast<double>(this->decay));
+    }
+
+    return this->sustain;
+}
+
 void ADSREnvelope::start() {
 
-    // Add linear ramp for attack:
+    // Remove envelopes from an earlier start:
 
-    std::unique_ptr<BaseEnvelope> att = std::make_unique<LinearRamp>();
+    this->clear();
+    this->envs.clear();
 
-    att->set_start_value(0);
-    att->set_stop_value(1);
-    att->set_start_time(0);
-    att->set_stop_time(this->attack);
+    this->releasing = false;
+    this->started = this->get_time();
 
-    this->add_envelope(att.get());
-    this->envs.add_object(att);
+    const int64_t decay_start = this->started + this->attack;
+    const int64_t sustain_start = decay_start + this->decay;
 
-    // Add linear ramp for decay:
+    // Add linear ramp for attack:
 
-    std::unique_ptr<BaseEnvelope> dec = std::make_unique<LinearRamp>();
+    this->add_ramp(0, 1, this->started, decay_start);
 
-    dec->set_start_value(1);
-    dec->set_stop_value(this->sustain);
-    dec->set_start_time(this->attack);
-    dec->set_stop_time(this->decay);
+    // Add linear ramp for decay:
 
-    this->add_envelope(dec.get());
-    this->envs.add_object(dec);
+    this->add_ramp(1, this->sustain, decay_start, sustain_start);
 
     // Add constant ramp for sustain:
 
@@ -404,16 +453,51 @@ void ADSREnvelope::start() {
 
     sus->set_start_value(this->sustain);
     sus->set_stop_value(this->sustain);
-    sus->set_start_time(this->decay);
+    sus->set_start_time(sustain_start);
     sus->set_stop_time(-1);
 
     this->add_envelope(sus.get());
     this->envs.add_object(sus);
 
-    //
+    // Start the chain:
+
+    ChainEnvelope::start();
 }
 
 void ADSREnvelope::finish() {
 
-    // Ca
+    // Nothing to do if we are releasing already:
+
+    if (this->releasing) {
+
+        return;
+    }
+
+    // Replace the stages by a ramp from the current value to zero:
+
+    const int64_t time = this->get_time();
+    const double value = this->current_value();
+
+    this->clear();
+    this->envs.clear();
+
+    this->releasing = true;
+    this->release_stop = time + this->release;
+
+    this->add_ramp(value, 0, time, this->release_stop);
+
+    ChainEnvelope::start();
+}
+
+void ADSREnvelope::process() {
+
+    ChainEnvelope::process();
+
+    // Determine if the release is complete:
+
+    if (this->get_state() == BaseModule::State::Finishing &&
+        this->get_time() >= this->release_stop) {
+
+        this->done();
+    }
 }
-- 
2.43.0


From ca29943c89d3d873cd51deec0be4ad24938549d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 19/37] fix: sinc kernels with a cut-off of zero and windows of
 a single point were not a number

---
 include/maec/dsp/util.hpp |  2 +-
 src/dsp/util.cpp          |  7 +++++++
 src/dsp/window.cpp        | 14 ++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/maec/dsp/util.hpp b/include/maec/dsp/util.hpp
index 5c07f50..1a1d7e2 100644
--- a/include/maec/dsp/util.hpp
+++ b/include/maec/dsp/util.hpp
@@ -75,7 +75,7 @@ void bit_reverse(int size, I iter) {
  *
  * Which produces a sine wave that decays in amplitude
  * as x becomes bigger.
- * Of course, 0 should never be provided to this function!
+ * At 0 we return 1, the limit of this function.
  *
  * @param x Current value to compute
  */
diff --git a/src/dsp/util.cpp b/src/dsp/util.cpp
index c7fce9e..65db079 100644
--- a/src/dsp/util.cpp
+++ b/src/dsp/util.cpp
@@ -15,6 +15,13 @@
 
 double dsp::util::sinc(double x) {
 
+    // At zero the quotient is undefined, but its limit is one:
+
+    if (x == 0.) {
+
+        return 1.;
+    }
+
     // Calculate and return:
 
     return std::sin(x) / x;
diff --git a/src/dsp/window.cpp b/src/dsp/window.cpp
index d793215..fff08ff 100644
--- a/src/dsp/window.cpp
+++ b/src/dsp/window.cpp
@@ -23,6 +23,13 @@ double dsp::win::window_rectangle(int, int) {  // NOLINT: Parameters not used in
 
 double dsp::win::window_hann(int num, int size, double a0) {
 
+    // A window of a single point is just 1:
+
+    if (size <= 1) {
+
+        return 1.;
+    }
+
     // Calculate and return:
 
     return a0 - ((1 - a0) *
@@ -38,6 +45,13 @@ double dsp::win::window_hamming(int num, int size, double a0) {
 
 double dsp::win::window_blackmanc(int num, int size, double alpha) {
 
+    // A window of a single point is just 1:
+
+    if (size <= 1) {
+
+        return 1.;
+    }
+
     // Calculate and return:
 
     return ((1 - alpha) / 2) -
-- 
2.43.0


From c437fa80abaddcdd01128e399fd120c0e41bc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 20/37] fix: the real FFT recursed forever on one point and its
 inverse destroyed the spectrum it was given

---
 include/maec/dsp/ft.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/ft.hpp b/include/maec/dsp/ft.hpp
index c03861d..135bc7a 100644
--- a/include/maec/dsp/ft.hpp
+++ b/include/maec/dsp/ft.hpp
@@ -24,6 +24,7 @@
 #include <iterator>
 #include <numbers>
 #include <type_traits>
+#include <vector>
 
 namespace dsp::ft {
 
@@ -702,6 +703,15 @@ void ifft_c_radix2(I input, int size) {
 template <typename I, typename O>
 void fft_r_radix2(I input, int size, O output) {
 
+    // The transform of a single value is the value itself:
+
+    if (size == 1) {
+
+        *output = *input;
+
+        return;
+    }
+
     // First, determine iterator type:
 
     using iter_type = typename std::iterator_traits<I>::value_type;
@@ -730,9 +740,19 @@ void ifft_r_radix2(I input, int size, O output) {
 
     int osize = length_ift(size);
 
-    // Run data through FFT process method:
+    // Nothing to do if there is no output:
+
+    if (osize == 0) {
+
+        return;
+    }
+
+    // Run data through FFT process method,
+    // we work on a copy so the input is left alone:
+
+    std::vector<std::complex<double>> work(input, input + size);
 
-    fft_process_real(input, osize, true);
+    fft_process_real(work.begin(), osize, true);
 
     // Cast the iterator as a complex array:
 
@@ -740,7 +760,7 @@ void ifft_r_radix2(I input, int size, O output) {
 
     // Send data through iFFT function (excluding last value):
 
-    ifft_c_radix2(input, size - 1, cmp);
+    ifft_c_radix2(work.begin(), size - 1, cmp);
 }
 
 }  // namespace dsp::ft
-- 
2.43.0


From b9cc972b04b8b5eec4a994dd2e008cde1d9d2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 21/37] fix: FFT convolution did not compile and multiplied
 spectra of different, unpadded sizes

---
 include/maec/dsp/conv.hpp | 51 +++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/include/maec/dsp/conv.hpp b/include/maec/dsp/conv.hpp
index d72b35a..cb8bfdb 100644
--- a/include/maec/dsp/conv.hpp
+++ b/include/maec/dsp/conv.hpp
@@ -26,7 +26,13 @@
 
 #pragma once
 
+#include <algorithm>
+#include <complex>
+#include <vector>
+
 #include "audio_buffer.hpp"
+#include "dsp/ft.hpp"
+#include "dsp/util.hpp"
 
 namespace dsp::conv {
 
@@ -287,41 +293,54 @@ void conv_fft(I input, int input_size, K kernel, int kernel_size, O output) {
 
     // First, determine output size:
 
-    int output_size = length_conv(input_size, kernel_size);
+    const int output_size = length_conv(input_size, kernel_size);
+
+    // The FFT works with sizes that are a power of two,
+    // so determine the smallest one that can hold the output:
+
+    int size = 2;
+
+    while (size < output_size) {
+
+        size *= 2;
+    }
 
     // Next, create new vectors for input and kernel
     // TODO: RESEARCH OTHER METHODS! This can take a lot of memory...
     // Not to mention being super slow in theory...
 
-    std::vector<double> pinput(output_size);
-    std::vector<double> pkernel(output_size);
+    std::vector<double> pinput(size, 0.0);
+    std::vector<double> pkernel(size, 0.0);
 
-    // Fill normal content:
+    // Fill normal content, the rest is already zero:
 
     std::copy_n(input, input_size, pinput.begin());
     std::copy_n(kernel, kernel_size, pkernel.begin());
 
-    // Fill in zero components:
-
-    std::fill_n(pinput.begin() + input_size, output_size - input_size, 0.0);
-    std::fill_n(pkernel.begin() + kernel_size, output_size - kernel_size, 0.0);
+    // Define arrays for frequency data:
 
-    // For now, define array for output data:
+    const int fsize = static_cast<int>(ft::length_ft(size));
 
-    std::vector<std::complex<double>> infp(output_size);
-    std::vector<std::complex<double>> kernfp(output_size);
-    std::vector<std::complex<double>> outf(output_size);
+    std::vector<std::complex<double>> infp(fsize);
+    std::vector<std::complex<double>> kernfp(fsize);
+    std::vector<std::complex<double>> outf(fsize);
 
-    fft_r_radix2(input, input_size, infp.begin());
-    fft_r_radix2(kernel, kernel_size, kernfp.begin());
+    ft::fft_r_radix2(pinput.begin(), size, infp.begin());
+    ft::fft_r_radix2(pkernel.begin(), size, kernfp.begin());
 
     // Multiply signals:
 
-    util::multiply_signals(output_size, infp.begin(), kernfp.begin(), outf.begin());
+    util::multiply_signals(fsize, infp.begin(), kernfp.begin(), outf.begin());
 
     // Send inputs back through inverse FFT:
 
-    ifft_r_radix2(outf.begin(), output_size, output);
+    std::vector<double> poutput(size);
+
+    ft::ifft_r_radix2(outf.begin(), fsize, poutput.begin());
+
+    // Finally, copy the part that holds the output:
+
+    std::copy_n(poutput.begin(), output_size, output);
 }
 
 }  // namespace dsp::conv
-- 
2.43.0


From f521ae8e7d31ae7001658f5e856698c083f3b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:54 +0000
Subject: [PATCH 22/37] fix: recursive filters fed back a stale output, crashed
 without feedback and single pole designs mixed up hertz and fractions

---
 include/maec/dsp/iir.hpp | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index ac44a41..f79512d 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -15,6 +15,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstddef>
@@ -43,7 +44,7 @@ namespace dsp::iir {
  * @param sra Sample rate in hertz
  * @return double Mapped frequency in radians from -pi to pi
  */
-double freq_map(double freq, double sra) {
+inline double freq_map(double freq, double sra) {
 
     return dsp::consts::pi_2 * (freq / sra);
 }
@@ -231,13 +232,23 @@ private:
             // We then multiply the output value by the B coefficient,
             // and add it to the final value:
 
-            final_value += outputs[index - i] * bcoes[i];
+            // (the most recent output value is at the previous index)
+
+            final_value += outputs[index - 1 - i] * bcoes[i];
         }
 
         // Add final value to container
-        // and increment the index
 
-        outputs[index++] = final_value;
+        outputs[index] = final_value;
+
+        // Increment the index, and wrap it around once it
+        // is back at the start of both containers
+
+        const std::size_t total = inputs.size() * outputs.size();
+
+        if (++index >= 2 * total) {
+            index -= total;
+        }
 
         // Finally, return final value:
 
@@ -262,14 +273,15 @@ public:
     void reserve() {
 
         // Resize the input and output buffers to the size of the number of
-        // poles:
+        // poles, there must be space for the current value in any case:
 
-        this->inputs.resize(this->acoes.size());
-        this->outputs.resize(this->bcoes.size());
+        this->inputs.resize(std::max<std::size_t>(this->acoes.size(), 1));
+        this->outputs.resize(std::max<std::size_t>(this->bcoes.size(), 1));
 
-        // The index should be the max of the number of A and B poles:
+        // Start at the beginning of both containers,
+        // with enough space to look back at all previous values:
 
-        this->index = std::max(this->acoes.size(), this->bcoes.size());
+        this->index = this->inputs.size() * this->outputs.size();
     }
 
     /**
@@ -284,7 +296,10 @@ public:
      *
      * @param size New number of A coefficients
      */
-    void set_asize(int size) { this->acoes.resize(size); }
+    void set_asize(int size) {
+        this->acoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Gets the number of B coefficients
@@ -298,7 +313,10 @@ public:
      *
      * @param size New number of B coefficients
      */
-    void set_bsize(int size) { this->bcoes.resize(size); }
+    void set_bsize(int size) {
+        this->bcoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Retrieves a start iterator for the A coefficient vector
@@ -642,7 +660,7 @@ public:
 
             // Determine the X value:
 
-            double xval = this->frac_to_x(this->get_freq_high());
+            double xval = this->frac_to_x(this->get_frac_high());
 
             // Generate A & B coefficients:
 
@@ -663,14 +681,14 @@ public:
 
             // Determine the x value:
 
-            double xval = this->frac_to_x(this->get_freq_low());
+            double xval = this->frac_to_x(this->get_frac_low());
 
             // Generate A & B coefficients:
 
             this->set_a(0, (1 + xval) / 2);
             this->set_a(1, -(1 + xval) / 2);
 
-            this->set_b(0, this->get_freq_low());
+            this->set_b(0, xval);
         }
     }
 };
-- 
2.43.0


From af847d41e73edff4dccc499b8bafa08a1a9548a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 23/37] fix: filter modules mixed the channels of a block,
 dropped its format and wrote past their scratch space when the kernel shrank

---
 include/maec/filter_module.hpp | 80 +++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/include/maec/filter_module.hpp b/include/maec/filter_module.hpp
index dc7634c..4e46070 100644
--- a/include/maec/filter_module.hpp
+++ b/include/maec/filter_module.hpp
@@ -144,8 +144,8 @@ private:
 
     /// Overlap-add tail buffer: holds the last (kernel_size - 1) samples
     /// from the previous block's convolution output that must be added
-    /// to the beginning of the next block's output.
-    std::vector<double> overlap_tail;
+    /// to the beginning of the next block's output, for each channel.
+    std::vector<std::vector<double>> overlap_tail;
 
 public:
     /**
@@ -222,41 +222,69 @@ public:
         // Grab the input block:
 
         auto ibuff = this->get_buffer();
-        const std::size_t input_size = ibuff.size();
+        const std::size_t channels = ibuff.channels();
+        const std::size_t input_size = ibuff.channel_capacity();
         const std::size_t kernel_size = this->kernel->size();
 
-        // Allocate a full convolution output buffer (N + M - 1 samples)
-        // zero-initialised so the overlap-add accumulation is correct:
+        // Each channel is filtered on its own and has its own tail,
+        // if the number of channels changed then old tails are meaningless
+        // (blocks without any content leave them as they are):
 
-        std::vector<double> conv_out(dsp::conv::length_conv(input_size, kernel_size), 0.0);
+        if (input_size > 0 && this->overlap_tail.size() != channels) {
+            this->overlap_tail.assign(channels, std::vector<double>());
+        }
 
-        // Run the convolution:
+        // The output has the same format as the input:
 
-        dsp::conv::input_conv(ibuff.ibegin(), input_size, this->kernel->ibegin(),
-                   kernel_size, conv_out.begin());
+        auto nbuff = AudioBuffer(input_size, static_cast<int>(channels));
+        nbuff.set_samplerate(ibuff.get_samplerate());
 
-        // Overlap-add: fold the saved tail from the previous block
-        // The tail holds the last (M - 1) samples from the previous full
-        // convolution.  They overlap with the first (M - 1) samples of the
-        // current convolution output, so we add them in place:
+        for (std::size_t channel = 0; input_size > 0 && channel < channels;
+             ++channel) {
 
-        const std::size_t prev_tail = this->overlap_tail.size();
-        for (std::size_t i = 0; i < prev_tail; ++i) {
-            conv_out[i] += this->overlap_tail[i];
-        }
+            // Grab the samples of this channel:
+
+            std::vector<double> signal(input_size);
+
+            for (std::size_t i = 0; i < input_size; ++i) {
+                signal[i] = ibuff.at(channel, i);
+            }
+
+            // Allocate a full convolution output buffer (N + M - 1 samples)
+            // zero-initialised so the overlap-add accumulation is correct,
+            // it must also hold the tail if the kernel became shorter:
+
+            auto& tail = this->overlap_tail[channel];
+
+            std::vector<double> conv_out(
+                std::max(input_size + kernel_size - 1, std::max(input_size, tail.size())), 0.0);
 
-        // Save new tail for the next block
+            // Run the convolution:
 
-        this->overlap_tail.assign(conv_out.begin() + input_size,
-                                  conv_out.end());
+            dsp::conv::input_conv(signal.begin(), input_size, this->kernel->ibegin(),
+                       kernel_size, conv_out.begin());
 
-        // Trim output to exactly N samples and set on the buffer
-        // Only the first input_size samples are forwarded downstream;
-        // the tail will be contributed to the next block via overlap_tail.
+            // Overlap-add: fold the saved tail from the previous block
+            // The tail holds the last (M - 1) samples from the previous full
+            // convolution.  They overlap with the first (M - 1) samples of the
+            // current convolution output, so we add them in place:
 
-        auto nbuff = AudioBuffer(input_size, 1);
-        std::copy(conv_out.begin(), conv_out.begin() + input_size,
-                  nbuff.ibegin());
+            for (std::size_t i = 0; i < tail.size(); ++i) {
+                conv_out[i] += tail[i];
+            }
+
+            // Save new tail for the next block
+
+            tail.assign(conv_out.begin() + input_size, conv_out.end());
+
+            // Trim output to exactly N samples and set on the buffer
+            // Only the first input_size samples are forwarded downstream;
+            // the tail will be contributed to the next block via overlap_tail.
+
+            for (std::size_t i = 0; i < input_size; ++i) {
+                nbuff.at(channel, i) = conv_out[i];
+            }
+        }
 
         this->set_buffer(std::move(nbuff));
     }
-- 
2.43.0


From bb4c80b2597be520d48c8e94c7f14aeb949f6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:13 +0000
Subject: [PATCH 24/37] fix: count every sample once in measuring modules,
 reset them completely

The size of a buffer already covers all channels, so multiplying it by the
channel count overstated the samples and the expected time. Resetting the
latency module kept the pass count, and averages without any pass divided by
zero.
---
 include/maec/meta_audio.hpp | 12 +++++++++---
 src/meta_audio.cpp          | 13 ++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 05032fa..6147ca9 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -224,23 +224,29 @@ public:
      *
      * We compute the average operation time
      * by using the total operation time and the number of times processed.
+     * If we have not been processed yet, then the average is zero.
      *
      * @return int Average operation time in nanoseconds
      */
     int64_t average_time() const {
-        return this->total_operation_time / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_time / this->processed();
     }
 
     /**
      * @brief Gets the average operation latency in nanoseconds
      *
      * We compute the average operation latency
-     * by using the total operation latency and the number of times processed
+     * by using the total operation latency and the number of times processed.
+     * If we have not been processed yet, then the average is zero.
      *
      * @return int Average operation latency in nanoseconds
      */
     int64_t average_latency() const {
-        return this->total_operation_latency / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_latency / this->processed();
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 45cb705..bf3f382 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,12 +19,15 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples +=
-        static_cast<int>(this->buff.size()) * this->buff.channels();
+    this->m_samples += static_cast<int>(this->buff.size());
 }
 
 void LatencyModule::reset() {
 
+    // Clear the counter statistics:
+
+    Counter::reset();
+
     // Clear values:
 
     this->operation_time = 0;
@@ -65,8 +68,7 @@ void LatencyModule::meta_process() {
 
     // Get size of buffer:
 
-    const int samples =
-        static_cast<int>(this->buff.size() * this->buff.channels());
+    const int samples = static_cast<int>(this->buff.size());
 
     // Update chain timer:
 
@@ -85,7 +87,8 @@ void LatencyModule::meta_process() {
     // Determine the latency:
 
     this->operation_latency =
-        this->operation_time - this->timer.get_time(samples);
+        this->operation_time -
+        this->timer.get_time(samples, this->buff.channels());
 
     // Add to total latency:
 
-- 
2.43.0


From 4c382e4efbf9ce07c473bf4ca5561978adde9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH 25/37] fix: re-blocking and repeating modules honour the block
 size for all channels

UniformBuffer filled only as many samples as there are frames in a block,
and BufferModule wrote its whole buffer into blocks that may be smaller and
took the number of samples for the number of frames.
---
 include/maec/meta_audio.hpp |  4 +++-
 src/meta_audio.cpp          | 18 +++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 6147ca9..8cfdc80 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -307,7 +307,9 @@ public:
      */
     void set_rbuffer(AudioBuffer* ibuff) {
         this->gbuff = ibuff;
-        this->get_info()->out_buffer = static_cast<int>(ibuff->size());
+        this->get_info()->channels = ibuff->channels();
+        this->get_info()->out_buffer =
+            static_cast<int>(ibuff->size()) / ibuff->channels();
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index bf3f382..97060f6 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -11,6 +11,8 @@
 
 #include "meta_audio.hpp"
 
+#include <algorithm>
+
 void Counter::process() {
 
     // Increment the processed value:
@@ -107,7 +109,13 @@ void BufferModule::process() {
 
     // Next, fill it using the contents of our old buffer:
 
-    std::copy(this->gbuff->ibegin(), this->gbuff->iend(), this->buff.ibegin());
+    auto rest = std::copy_n(this->gbuff->ibegin(),
+                            std::min(this->gbuff->size(), this->buff.size()),
+                            this->buff.ibegin());
+
+    // Anything beyond the old buffer is silent:
+
+    std::fill(rest, this->buff.iend(), 0.0);
 }
 
 void UniformBuffer::process() {
@@ -116,7 +124,11 @@ void UniformBuffer::process() {
 
     this->reserve();
 
-    while (this->index < this->get_info()->out_buffer) {
+    // Number of samples to fill, over all channels:
+
+    const int total = static_cast<int>(this->buff.size());
+
+    while (this->index < total) {
 
         // Determine if in buffer is out of values:
 
@@ -141,7 +153,7 @@ void UniformBuffer::process() {
         // Determine the number of samples yet to fill:
 
         int remaining =
-            std::min(this->get_info()->out_buffer - this->index,
+            std::min(total - this->index,
                      static_cast<int>(this->ibuff.size()) - this->iindex);
 
         // Fill the current buffer with this value:
-- 
2.43.0


From 333ba15a9e6e307ed2c2f27eff61232f5221658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:09 +0000
Subject: [PATCH 26/37] fix: ALSA sink loses, over-reads and misroutes samples

Frames and samples were mixed up when writing, partial writes and blocks hit
by an underrun were dropped, a device was used after closing it or without
ever being opened, devices were left open after querying them, and the chain
did not reflect the values of the device.
---
 include/maec/io/alsa_module.hpp |  20 +-
 src/io/alsa_module.cpp          | 355 ++++++++++++++++++++++++--------
 2 files changed, 281 insertions(+), 94 deletions(-)

diff --git a/include/maec/io/alsa_module.hpp b/include/maec/io/alsa_module.hpp
index b9ef444..ccd6778 100644
--- a/include/maec/io/alsa_module.hpp
+++ b/include/maec/io/alsa_module.hpp
@@ -242,6 +242,16 @@ class ALSABase {
     /// The current device in use by this module
     DeviceInfo device;
 
+    /**
+     * @brief Configures the PCM device
+     *
+     * We apply the values of the current device to the PCM device
+     * and retrieve the values that are actually in use.
+     *
+     * @return int Zero if successful, a negative error code otherwise
+     */
+    int configure();
+
    protected:
     /// The ALSA PCM interface
     snd_pcm_t* pcm = nullptr;
@@ -331,8 +341,8 @@ class ALSABase {
      * 
      * We grab the device at the given id
      * and return it's info.
-     * If this index does not exist, then we do something!!!
-     * TODO: IMPLEMENT THIS!
+     * If this index does not exist, then the info is marked as
+     * failed to load.
      * 
      * @param index ID of the device
      * @return DeviceInfo Information about retrieved device
@@ -345,8 +355,7 @@ class ALSABase {
      * We search all devices until we find one
      * that has the given name.
      * If we are unable to find a device with the given name,
-     * then we DO STUFF.
-     * TODO: Yeah, you know
+     * then the info is marked as failed to load.
      * 
      * @param name name of the device to get
      * @return DeviceInfo Information about retrieved device
@@ -358,6 +367,9 @@ class ALSABase {
      * 
      * We configure the necessary ALSA parameters,
      * and ensure everything is initialized.
+     * If the device can't be opened or configured,
+     * then the device info is marked as failed to load
+     * and no audio data will be sent.
      * 
      * @param sample_rate The sample of the device to open
      * @param buffer_size The buffer size of the device to open
diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index dc336c5..b67846b 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -16,9 +16,12 @@
 #include <alsa/control.h>
 #include <alsa/pcm.h>
 
+#include <cerrno>
+#include <cstddef>
 #include <cstdint>
-#include <iostream>
+#include <cstdlib>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "audio_buffer.hpp"
@@ -37,8 +40,8 @@ void DeviceInfo::create_device(void** hint, int id) {
 
     // Set name and description:
 
-    this->name = std::string(n);
-    this->description = std::string(descr);
+    this->name = n != nullptr ? n : "";
+    this->description = descr != nullptr ? descr : "";
 
     // Determine the IO type:
 
@@ -73,21 +76,7 @@ void DeviceInfo::create_device(void** hint, int id) {
     free(descr);
     free(io);
 
-    // Now, get our device:
-
-    snd_pcm_t* pcm = nullptr;
-
-    int err =
-        snd_pcm_open(&pcm, this->name.c_str(), SND_PCM_STREAM_PLAYBACK, 0);
-
-    if (err != 0) {
-
-        // We have encountered an error, DO NOT CONTINUE!
-
-        this->load_fail = true;
-
-        return;
-    }
+    // Now, get the settings of our device:
 
     this->update();
 }
@@ -107,7 +96,7 @@ void DeviceInfo::update() {
     int err =
         snd_pcm_open(&pcm, this->name.c_str(), SND_PCM_STREAM_PLAYBACK, 0);
 
-    if (err != 0) {
+    if (err < 0) {
 
         // We have encountered an error, DO NOT CONTINUE!
 
@@ -116,6 +105,8 @@ void DeviceInfo::update() {
         return;
     }
 
+    this->load_fail = false;
+
     // Fill the hardware parameters for our device:
 
     snd_pcm_hw_params_any(pcm, params);
@@ -177,8 +168,8 @@ void DeviceInfo::update() {
 
     // Do some freeing:
 
-    snd_pcm_close(pcm);
     snd_pcm_hw_free(pcm);
+    snd_pcm_close(pcm);
 }
 
 int ALSABase::get_device_count() {
@@ -192,6 +183,13 @@ int ALSABase::get_device_count() {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
+    if (err < 0) {
+
+        // No devices are available:
+
+        return 0;
+    }
+
     n = hints;
 
     // Iterate until we reach the end:
@@ -223,22 +221,37 @@ DeviceInfo ALSABase::get_device_by_id(int index) {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
-    // Ensure the given index is within our count:
-    // Note: Using get_device_count() ensures we aren't repeating ourselves.
-    // but is it the most efficient? Probably not...
+    // Info to return, a failed device until we have found it:
+
+    DeviceInfo info;
+
+    info.id = index;
+    info.load_fail = true;
 
-    if (index >= this->get_device_count()) {
-        // TODO: DO SOMETHING!
-        // NOT DOING SOMETHING WILL RESULT IN A SEG FAULT!!!!
+    if (err < 0) {
+
+        // No devices are available:
+
+        return info;
     }
 
-    // Otherwise, seek n to the proper value:
+    // Seek n to the proper value:
 
-    n = hints + index;
+    int id = 0;
 
-    // Create struct and initialize it:
+    for (n = hints; *n != nullptr && id < index; ++n) {
 
-    DeviceInfo info(n, index);
+        ++id;
+    }
+
+    // Ensure the given index is within our count:
+
+    if (*n != nullptr && id == index) {
+
+        // Initialize the struct:
+
+        info.create_device(n, index);
+    }
 
     // Free the hint:
 
@@ -260,29 +273,43 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
     int err = snd_device_name_hint(-1, "pcm", &hints);
 
-    n = hints;
-
-    // Iterate over each device:
+    // Info to return, a failed device until we have found it:
 
     int id = 0;
     DeviceInfo info;
 
+    info.id = -1;
+    info.name = name;
+    info.load_fail = true;
+
+    if (err < 0) {
+
+        // No devices are available:
+
+        return info;
+    }
+
+    n = hints;
+
+    // Iterate over each device:
+
     for (; *n != nullptr; ++n) {
 
         // Get the name from the hint:
 
-        std::string const hname(snd_device_name_get_hint(*n, "NAME"));
+        char* hint = snd_device_name_get_hint(*n, "NAME");
+
+        std::string const hname(hint != nullptr ? hint : "");
+
+        free(hint);
 
         // Determine if the name is our target:
 
         if (hname == name) {
 
             // Found it, break
-            // TODO: Implement some kind of error correction
-            // For now we assume all provided names are valid which is
-            // DANGEROUS!
 
-            info = DeviceInfo(n, id);
+            info.create_device(n, id);
 
             break;
         }
@@ -303,12 +330,44 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
 void ALSABase::alsa_start() {
 
-    // TODO: Implement error checking and correction!
+    // Close the device of an earlier start, if any:
+
+    this->alsa_stop();
 
     // Create the PCM device:
 
-    int err = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
-                           SND_PCM_STREAM_PLAYBACK, 0);
+    this->return_code = snd_pcm_open(&(this->pcm), this->device.name.c_str(),
+                                     SND_PCM_STREAM_PLAYBACK, 0);
+
+    if (this->return_code < 0) {
+
+        // There is no device to work with:
+
+        this->pcm = nullptr;
+        this->device.load_fail = true;
+
+        return;
+    }
+
+    // Configure and commit the parameters:
+
+    this->return_code = this->configure();
+
+    // Remember if we are able to use the device:
+
+    this->device.load_fail = this->return_code < 0;
+
+    if (this->device.load_fail) {
+
+        // The device is of no use with other settings:
+
+        snd_pcm_close(this->pcm);
+
+        this->pcm = nullptr;
+    }
+}
+
+int ALSABase::configure() {
 
     // Allocate the hardware parameters:
 
@@ -316,106 +375,181 @@ void ALSABase::alsa_start() {
 
     snd_pcm_hw_params_alloca(&params);
 
-    // Now configure some options:
-    // TODO: Figure out all of this:
-
     // Fill the parameters with default values:
 
-    int tah = snd_pcm_hw_params_any(pcm, params);
+    int err = snd_pcm_hw_params_any(pcm, params);
 
-    // TODO: Figure out if wrong access will mess things up...
+    if (err < 0) {
+        return err;
+    }
 
     // Enable resampling:
 
-    int h = snd_pcm_hw_params_set_rate_resample(pcm, params, 1);
+    snd_pcm_hw_params_set_rate_resample(pcm, params, 1);
 
     // Set some non-negotiable values:
 
-    int a = snd_pcm_hw_params_set_access(pcm, params,
-                                         SND_PCM_ACCESS_RW_INTERLEAVED);
-    int b = snd_pcm_hw_params_set_format(
+    err = snd_pcm_hw_params_set_access(pcm, params,
+                                       SND_PCM_ACCESS_RW_INTERLEAVED);
+
+    if (err < 0) {
+        return err;
+    }
+
+    err = snd_pcm_hw_params_set_format(
         pcm, params, SND_PCM_FORMAT_S16);  // THIS FAILS, ONLY WITH FLOAT_64
-    int c = snd_pcm_hw_params_set_channels(pcm, params, this->device.channels);
-    int d =
-        snd_pcm_hw_params_set_rate(pcm, params, this->device.sample_rate, 0);
-    int eee = snd_pcm_hw_params_set_period_size(pcm, params,
-                                                this->device.period_size, 0);
-    snd_pcm_hw_params_set_periods(pcm, params, this->device.period, 0);
+
+    if (err < 0) {
+        return err;
+    }
+
+    // Unconstrained values are left to ALSA:
+
+    if (this->device.channels != 0) {
+
+        err =
+            snd_pcm_hw_params_set_channels(pcm, params, this->device.channels);
+
+        if (err < 0) {
+            return err;
+        }
+    }
+
+    if (this->device.sample_rate != 0) {
+
+        err =
+            snd_pcm_hw_params_set_rate(pcm, params, this->device.sample_rate, 0);
+
+        if (err < 0) {
+            return err;
+        }
+    }
+
+    // Period values are recommendations:
+
+    if (this->device.period_size != 0) {
+
+        snd_pcm_hw_params_set_period_size(pcm, params,
+                                          this->device.period_size, 0);
+    }
+
+    if (this->device.period != 0) {
+
+        snd_pcm_hw_params_set_periods(pcm, params, this->device.period, 0);
+    }
 
     // Commit the parameters:
 
-    int commit = snd_pcm_hw_params(pcm, params);
+    err = snd_pcm_hw_params(pcm, params);
+
+    if (err < 0) {
+        return err;
+    }
 
-    snd_pcm_hw_params_get_periods(params, &(this->device.period), 0);
+    // Retrieve the values in use:
 
     int junk = 0;
 
-    int rret = snd_pcm_hw_params_get_period_size(
-        params, &(this->device.period_size), &junk);
+    snd_pcm_hw_params_get_channels(params, &(this->device.channels));
 
-    long unsigned int buffer_sizeb;
+    snd_pcm_hw_params_get_rate(params, &(this->device.sample_rate), &junk);
 
-    snd_pcm_hw_params_get_buffer_size(params, &(this->device.buffer_size));
+    snd_pcm_hw_params_get_periods(params, &(this->device.period), &junk);
 
-    snd_pcm_hw_params_get_period_time(params, &(this->device.period_time),
+    snd_pcm_hw_params_get_period_size(params, &(this->device.period_size),
                                       &junk);
 
-    unsigned int rate = 0;
-
-    snd_pcm_hw_params_get_rate(params, &rate, &junk);
+    snd_pcm_hw_params_get_buffer_size(params, &(this->device.buffer_size));
 
-    // DIVIDE BY 8 TO GET ACTUAL WIDTH!
+    snd_pcm_hw_params_get_period_time(params, &(this->device.period_time),
+                                      &junk);
 
-    int sbits = snd_pcm_hw_params_get_sbits(params);
+    return 0;
 }
 
 void ALSABase::alsa_stop() {
 
+    // Determine if there is something to stop:
+
+    if (this->pcm == nullptr) {
+        return;
+    }
+
     // Drain the device:
 
     snd_pcm_drain(this->pcm);
 
+    // Free the hardware:
+
+    snd_pcm_hw_free(this->pcm);
+
     // Close the PCM device:
 
     snd_pcm_close(this->pcm);
 
-    // Free the hardware:
-
-    snd_pcm_hw_free(this->pcm);
+    this->pcm = nullptr;
 }
 
 void ALSASink::process() {
 
+    // Determine if there is a device to send data to:
+
+    if (this->pcm == nullptr) {
+        return;
+    }
+
     // First, define our temporary vector:
 
-    std::vector<int16_t> temp(buff.size() * buff.channels());
+    std::vector<int16_t> temp(buff.size());
 
     // Next, squish it:
 
     squish_inter(&this->buff, temp.begin(), &mf_int16);
 
-    // Determine if we need to prepare the device again:
+    // Send the data along, the device may only take a part of it each time:
 
-    if (this->return_code == -EPIPE) {
+    const std::size_t channels = this->get_device().channels;
+    const std::size_t frames = temp.size() / channels;
+    std::size_t done = 0;
 
-        // Underrun occurred, prepare the device again:
-        std::cout << "ALSA Underrun (Before)" << std::endl;
+    while (done < frames) {
 
-        snd_pcm_prepare(this->pcm);
-    }
+        const snd_pcm_sframes_t num = snd_pcm_writei(
+            this->pcm, temp.data() + done * channels,
+            static_cast<snd_pcm_uframes_t>(frames - done));
+
+        if (num >= 0) {
+
+            // Move on to the data not taken yet:
+
+            done += static_cast<std::size_t>(num);
+
+            continue;
+        }
+
+        if (num == -EAGAIN) {
+
+            // The device is busy, wait until it is able to take data:
 
-    // Finally, send the data along:
+            snd_pcm_wait(this->pcm, 1000);
 
-    this->return_code =
-        snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),
-                       static_cast<snd_pcm_uframes_t>(temp.size()));
+            continue;
+        }
+
+        // Try to recover from the error, an underrun for example:
+
+        this->return_code =
+            snd_pcm_recover(this->pcm, static_cast<int>(num), 1);
 
-    if (this->return_code == -EPIPE) {
-        // Underrun occurred
+        if (this->return_code < 0) {
 
-        std::cout << "ALSA Underrun (After)" << std::endl;
-        snd_pcm_prepare(this->pcm);
+            // Unable to recover, there is no use in trying any further:
+
+            return;
+        }
     }
+
+    this->return_code = static_cast<int>(done);
 }
 
 void ALSASink::start() {
@@ -428,6 +562,23 @@ void ALSASink::start() {
         // TODO: Figure this out!
     }
 
+    // Values the device leaves open are those of the chain:
+
+    DeviceInfo dev = this->get_device();
+
+    if (dev.channels == 0) {
+
+        dev.channels = static_cast<unsigned int>(this->get_info()->channels);
+    }
+
+    if (dev.sample_rate == 0) {
+
+        dev.sample_rate =
+            static_cast<unsigned int>(this->get_info()->sample_rate);
+    }
+
+    this->set_device(std::move(dev));
+
     // Next, upcall:
 
     ALSABase::alsa_start();
@@ -435,16 +586,40 @@ void ALSASink::start() {
 
 void ALSASink::info_sync() {
 
+    // Let the chain reflect the values of the device,
+    // where the device determines them:
+
+    const DeviceInfo dev = this->get_device();
+
+    auto* chain = this->get_chain_info();
+
+    if (dev.channels != 0) {
+
+        chain->channels = static_cast<int>(dev.channels);
+    }
+
+    if (dev.sample_rate != 0) {
+
+        chain->sample_rate = dev.sample_rate;
+    }
+
     // Set the period number:
 
-    this->set_period(this->get_device().period);
+    if (dev.period != 0) {
+
+        this->set_period(static_cast<int>(dev.period));
+    }
 
     // Set the desired buffer size:
 
-    auto bsize = this->get_device().period_size / 2;
+    if (dev.period_size != 0) {
+
+        chain->buffer_size = static_cast<int>(dev.period_size / 2);
+    }
+
+    // Finally, configure ourselves:
 
-    this->get_info()->out_buffer = bsize;
-    this->get_info()->in_buffer = bsize;
+    PeriodSink::info_sync();
 }
 
 #endif
-- 
2.43.0


From c79dbd8d08cf0a95a48513dc4473ee9fde8b018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 27/37] fix: parallel module lost stop requests and aborted
 when restarted or destroyed while running

---
 include/maec/parallel.hpp | 90 +++++++++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 31 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cd63c04..4de5bce 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -61,7 +61,40 @@ private:
     mutable std::mutex qmut;
 
     /// Boolean determining if threads should be done
-    std::atomic<bool> done = false;
+    std::atomic<bool> done = true;
+
+    /**
+     * @brief Halts the worker thread, if there is one
+     *
+     * We ask the worker to stop, release anyone waiting for a buffer,
+     * and wait for the worker to complete.
+     * If we are called from the worker itself then we do not wait,
+     * the worker completes on its own and is collected
+     * the next time we are started, stopped or destroyed.
+     */
+    void halt() {
+
+        {
+            // The flag must change while holding the lock,
+            // otherwise a thread that is about to wait could miss it
+
+            std::lock_guard<std::mutex> lock(qmut);
+
+            done = true;
+        }
+
+        // Notify all condition variables
+
+        cv.notify_all();
+
+        // Join the thread and wait for completion if possible
+
+        if (thread.joinable() &&
+            thread.get_id() != std::this_thread::get_id()) {
+
+            thread.join();
+        }
+    }
 
     /**
      * @brief Function ran by the thread
@@ -109,6 +142,15 @@ private:
 public:
     ParallelModule() = default;
 
+    /// We manage a thread, so we can not be copied or moved
+    ParallelModule(const ParallelModule&) = delete;
+    ParallelModule(ParallelModule&&) = delete;
+    ParallelModule& operator=(const ParallelModule&) = delete;
+    ParallelModule& operator=(ParallelModule&&) = delete;
+
+    /// Destructor, halts the worker if we have not been stopped
+    ~ParallelModule() override { halt(); }
+
     /**
      * @brief Gets the maximum size of the queue
      *
@@ -154,23 +196,25 @@ public:
      */
     void start() override {
 
+        // Halt any thread we may have started before
+
+        halt();
+
         // Call the parent start method
 
         AudioModule<>::start();
 
-        {
-            // We grab the lock to ensure our next operation
-            // on the queue is valid.
-            std::lock_guard<std::mutex> lock(qmut);
+        // We grab the lock to ensure our next operations
+        // on the queue and thread are valid.
+        std::lock_guard<std::mutex> lock(qmut);
 
-            // Clear the queue
+        // Clear the queue
 
-            this->queue.clear();
+        this->queue.clear();
 
-            // Set the done value to be false
-            
-            this->done = false;
-        }
+        // Set the done value to be false
+
+        this->done = false;
 
         // Create the thread that runs the target function
 
@@ -185,7 +229,7 @@ public:
      *
      * We also join the thread to enable a graceful shutdown,
      * so this method may block for some time.
-     * A check is in place to detatch the thread in case
+     * A check is in place to not wait for the thread in case
      * this is called from the running thread.
      *
      * Please note, this will NOT clear the underlying queue!
@@ -193,29 +237,13 @@ public:
      */
     void stop() override {
 
-        // Call the parent start method
+        // Call the parent stop method
 
         AudioModule<>::stop();
 
-        // Set the done value to be true
-
-        done = true;
+        // Halt the thread
 
-        // Notify all condition variables
-
-        this->cv.notify_all();
-
-        // Join the thread and wait for completion if possible.
-        if (this->thread.joinable()) {
-            // If stop() is being called from the worker thread itself,
-            // attempting to join would cause a resource deadlock. In that
-            // case detach the std::thread object instead to avoid throwing.
-            if (this->thread.get_id() != std::this_thread::get_id()) {
-                this->thread.join();
-            } else {
-                this->thread.detach();
-            }
-        }
+        halt();
     }
 
     /**
-- 
2.43.0


From 4ea9a759d1610b33ba19c969aac4515b2b57bd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 28/37] fix: parallel module did not react to a larger cache
 limit

---
 include/maec/parallel.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 4de5bce..118e71e 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -171,7 +171,18 @@ public:
      *
      * @param size New queue size
      */
-    void max_size(std::size_t size) { qsize = size; }
+    void max_size(std::size_t size) {
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+
+            qsize = size;
+        }
+
+        // The worker may be waiting for space that is now available
+
+        cv.notify_all();
+    }
 
     /**
      * @brief Gets the current size of the queue
-- 
2.43.0


From ed13a02909c278ab968e3c460104eecda2351da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 29/37] fix: parallel module processed backwards modules while
 they were started, stopped, finished or synced

---
 include/maec/parallel.hpp | 72 +++++++++++++++++++++++++++++++++++++--
 src/base_module.cpp       |  7 ++--
 2 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 118e71e..fb3933f 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -60,6 +60,9 @@ private:
     /// Mutex for mutual exclusion to queue
     mutable std::mutex qmut;
 
+    /// Mutex for mutual exclusion to the backwards modules
+    std::recursive_mutex pmut;
+
     /// Boolean determining if threads should be done
     std::atomic<bool> done = true;
 
@@ -126,12 +129,24 @@ private:
             lock.unlock();
 
             // Process the backwards module without holding the queue lock.
-            this->backward().meta_process();
+
+            AudioBuffer result;
+
+            {
+                // State operations must not touch the backwards modules
+                // while we are processing them
+
+                std::lock_guard<std::recursive_mutex> plock(pmut);
+
+                this->backward().meta_process();
+
+                result = std::move(this->backward().get_buffer());
+            }
 
             // Re-acquire the lock to push the produced buffer.
             lock.lock();
 
-            queue.emplace_back(std::move(this->backward().get_buffer()));
+            queue.emplace_back(std::move(result));
 
             // Unlock and notify consumers that there's data available.
             lock.unlock();
@@ -293,4 +308,57 @@ public:
         lock.unlock();
         cv.notify_all();
     }
+
+    /**
+     * @brief Custom meta start operation
+     *
+     * The backwards modules must not be processed while they are started,
+     * so we halt our thread first.
+     */
+    void meta_start() override {
+
+        halt();
+
+        AudioModule<>::meta_start();
+    }
+
+    /**
+     * @brief Custom meta stop operation
+     *
+     * The backwards modules must not be processed
+     * during or after being stopped, so we halt our thread first.
+     */
+    void meta_stop() override {
+
+        halt();
+
+        AudioModule<>::meta_stop();
+    }
+
+    /**
+     * @brief Custom meta finish operation
+     *
+     * Our thread keeps running, as the backwards modules may need to be
+     * processed before they are done.
+     * We ensure they are not processed while we do our work.
+     */
+    void meta_finish() override {
+
+        std::lock_guard<std::recursive_mutex> plock(pmut);
+
+        AudioModule<>::meta_finish();
+    }
+
+    /**
+     * @brief Custom meta info sync operation
+     *
+     * We ensure the backwards modules are not processed
+     * while their info is altered.
+     */
+    void meta_info_sync() override {
+
+        std::lock_guard<std::recursive_mutex> plock(pmut);
+
+        AudioModule<>::meta_info_sync();
+    }
 };
diff --git a/src/base_module.cpp b/src/base_module.cpp
index 4418a1a..5257a85 100644
--- a/src/base_module.cpp
+++ b/src/base_module.cpp
@@ -11,6 +11,8 @@
 
 #include "base_module.hpp"
 
+#include <atomic>
+
 #include "audio_buffer.hpp"
 
 void BaseModule::reserve() {
@@ -69,7 +71,8 @@ void BaseModule::done() {
     // Set the state to done:
     this->state_type = State::Finished;
 
-    // Report to the chain that we are done:
+    // Report to the chain that we are done,
+    // parallel sections may do so from another thread:
 
-    ++(this->chain->module_finish);
+    std::atomic_ref<int>(this->chain->module_finish).fetch_add(1);
 }
-- 
2.43.0


From 4c312282f0f6dcacbc000cdf972dc63dae962e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 30/37] fix: shrinking a buffer did not compile

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 0d29de4..7bb4ec4 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1756,7 +1756,7 @@ public:
      * For more info.
      *
      */
-    constexpr void shrink() { this->buff.shrink_to_fit(); }
+    constexpr void shrink() { this->get_buff().shrink_to_fit(); }
 
     /**
      * @brief Removes all values from vector
-- 
2.43.0


From d307c1f68a03c17cc2b0d393a0360568f7c562a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 31/37] fix: dot product dropped fractions and matrix
 multiplication did not compile

---
 include/maec/dsp/matrix.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index b28523b..1ff3727 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -20,6 +20,9 @@
 
 #pragma once
 
+#include <iterator>
+#include <type_traits>
+
 #include "dsp/buffer.hpp"
 
 namespace dsp::mat {
@@ -56,7 +59,7 @@ namespace dsp::mat {
 template <typename A, typename B, typename T = typename std::iterator_traits<A>::value_type>
 T dot_product(const A& aiter, const B& biter, int num) {
 
-    int done = 0;
+    std::remove_const_t<T> done = 0;
 
     // Iterate over each value in the provided iterators:
 
@@ -129,18 +132,23 @@ T dot_product(const A& aiter, const B& biter, int num) {
 template <typename T, typename U, typename V>
 void matrix_mult(const dsp::buff::Buffer<T>& buf1, const dsp::buff::Buffer<U>& buf2, dsp::buff::Buffer<V>& out) {
 
+    // Rows are channels, columns are the samples at one position:
+
+    const int rows = static_cast<int>(buf1.channels());
+    const int cols = static_cast<int>(buf2.channel_capacity());
+
     // Configure the out buffer to match our size:
 
-    out.set_channels(buf2.channels());
-    out.set_channel_capacity(buf1.channel_capacity());
+    out.set_channels(rows);
+    out.resize(rows * cols);
 
     // Iterate over the rows:
 
-    for (int row = 0; row < buf1.channel_capacity(); ++row) {
+    for (int row = 0; row < rows; ++row) {
 
         // Iterate over the cols:
 
-        for (int col = 0; col < buf2.channels(); ++col) {
+        for (int col = 0; col < cols; ++col) {
 
             // Grab the iterators:
 
-- 
2.43.0


From bc701bcfc2c23b694631535d2b8f55bb14ee984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 32/37] fix: frequency response did not match the difference
 equation of the filters

---
 include/maec/dsp/iir.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index f79512d..c0f9c56 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -83,22 +83,22 @@ std::complex<double> freq_response(double rad, const A& acoes, const B& bcoes) {
     // We do this by substituting z with e^(i*rad), where i is the imaginary
     // unit.
 
-    // First, compute the numerator
+    // First, compute the numerator, the A coefficients apply to the input
 
     std::complex<double> num = 0;
 
-    for (std::size_t j = 0; j < bcoes.size(); ++j) {
+    for (std::size_t j = 0; j < acoes.size(); ++j) {
 
-        num += bcoes[j] * std::exp(j * rad * 1i);
+        num += acoes[j] * std::exp(-(j * rad * 1i));
     }
 
-    // Next compute the denominator
+    // Next compute the denominator, the B coefficients apply to earlier outputs
 
     std::complex<double> denom = 1;
 
-    for (std::size_t j = 0; j < acoes.size(); ++j) {
+    for (std::size_t j = 0; j < bcoes.size(); ++j) {
 
-        denom += acoes[j] * std::exp(j * rad * 1i);
+        denom -= bcoes[j] * std::exp(-((j + 1.0) * rad * 1i));
     }
 
     // The result will be the division between the two
-- 
2.43.0


From 0c9492020dbb46d3163031577ee7de71ba1686d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 33/37] fix: modules could not be combined in one program, four
 headers lacked an include guard

---
 include/maec/chrono.hpp       | 2 ++
 include/maec/dsp/filt.hpp     | 2 ++
 include/maec/io/wav.hpp       | 2 ++
 include/maec/module_mixer.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index adee6a7..465fb78 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -23,6 +23,8 @@
  * We measure time values in nanoseconds.
  */
 
+#pragma once
+
 #include "const.hpp"
 
 /**
diff --git a/include/maec/dsp/filt.hpp b/include/maec/dsp/filt.hpp
index aa849c0..e3d07b4 100644
--- a/include/maec/dsp/filt.hpp
+++ b/include/maec/dsp/filt.hpp
@@ -13,6 +13,8 @@
  * IIR filters) which are defined elsewhere in maec.
  */
 
+#pragma once
+
 #include "dsp/const.hpp"
 
 namespace dsp::filt {
diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 5da994d..b128020 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -12,6 +12,8 @@
  * so modules can read and write to wave files.
  */
 
+#pragma once
+
 #include "../sink_module.hpp"
 #include "../source_module.hpp"
 #include "audio_buffer.hpp"
diff --git a/include/maec/module_mixer.hpp b/include/maec/module_mixer.hpp
index 351b4f7..967d11f 100644
--- a/include/maec/module_mixer.hpp
+++ b/include/maec/module_mixer.hpp
@@ -9,6 +9,8 @@
  *
  */
 
+#pragma once
+
 #include <vector>
 
 #include "audio_buffer.hpp"
-- 
2.43.0


From 4f7cb987e6189d2e0a8aa4f36a15943327fb83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 34/37] fix: buffers built from two or three values held two
 extra samples

The iterator constructor of Buffer was not restricted to iterators, so it was
chosen for Buffer(0.5, -0.5) and its channel count and sample rate ended up as
samples. Require input iterators, as the base class does.
---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 7bb4ec4..602c15c 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1653,7 +1653,7 @@ public:
      * @param end Stop iterator
      * @param channels Number of channels present
      */
-    template <class ITER1, class ITER2>
+    template <std::input_iterator ITER1, std::input_iterator ITER2>
     constexpr explicit Buffer(const ITER1& begin, const ITER2& end,
                               int channels = 1, double sra = dsp::consts::SAMPLE_RATE)
         : BaseBuffer<std::vector<T>>(begin, end, channels, sra) {}
-- 
2.43.0


From ae8da9c964b459ce34d6e8197260d895d6e6a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 35/37] fix: sample count of Counter overflowed after 2^31
 samples

Seven hours of stereo sound at 44100 Hz are enough. Count with 64 bits, like
ChainTimer does.
---
 include/maec/meta_audio.hpp | 6 +++---
 src/meta_audio.cpp          | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 8cfdc80..31f07db 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -39,7 +39,7 @@ private:
     int m_processed = 0;
 
     /// Number of samples we have encountered
-    int m_samples = 0;
+    int64_t m_samples = 0;
 
 public:
     /**
@@ -64,9 +64,9 @@ public:
     /**
      * @brief Gets the number of samples we have encountered
      *
-     * @return int Number of samples encountered
+     * @return int64_t Number of samples encountered
      */
-    int samples() const { return this->m_samples; }
+    int64_t samples() const { return this->m_samples; }
 
     /**
      * @brief Counts how many samples we encounter, and how many times we have
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 97060f6..ba954e3 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -21,7 +21,7 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples += static_cast<int>(this->buff.size());
+    this->m_samples += static_cast<int64_t>(this->buff.size());
 }
 
 void LatencyModule::reset() {
-- 
2.43.0


From c6f6833781ede31f85d0c4069f0e0fa9f0da80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 36/37] fix: expected time of a latency module follows changed
 settings

The time of all samples was computed with the settings of the last block,
so that the expected time and the total latency were wrong (and the total
differed from the sum of the latencies) once the settings had changed.
---
 include/maec/meta_audio.hpp | 11 +++++++----
 src/meta_audio.cpp          | 12 +++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 31f07db..51af918 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -120,6 +120,9 @@ private:
     /// Sum of all latency times
     int64_t total_operation_latency = 0;
 
+    /// Sum of all expected times
+    int64_t total_expected = 0;
+
     /// Chain timer for ideal timekeeping
     ChainTimer timer;
 
@@ -161,12 +164,12 @@ public:
     /**
      * @brief Gets the expected time in nanoseconds
      *
-     * We utilize the ChainTimer to get the time we expect to have elapsed
-     * since the start of processing.
+     * We utilize the ChainTimer to get the time each block should take
+     * at its own settings, and sum these since the start of processing.
      *
      * @return int Expected elapsed time in nanoseconds
      */
-    int64_t expected() const { return this->timer.get_time(); }
+    int64_t expected() const { return this->total_expected; }
 
     /**
      * @brief Gets the time of the last operation in nanoseconds
@@ -209,7 +212,7 @@ public:
      * @return int Total latency in nanoseconds.
      */
     int64_t total_latency() const {
-        return this->total_operation_time - this->timer.get_time();
+        return this->total_operation_time - this->total_expected;
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index ba954e3..7ce7e68 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -36,6 +36,7 @@ void LatencyModule::reset() {
     this->operation_latency = 0;
     this->total_operation_latency = 0;
     this->total_operation_time = 0;
+    this->total_expected = 0;
 
     // Reset chain timer:
 
@@ -86,12 +87,17 @@ void LatencyModule::meta_process() {
 
     this->total_operation_time += this->operation_time;
 
-    // Determine the latency:
+    // Determine the time this block should take with its own settings:
 
-    this->operation_latency =
-        this->operation_time -
+    const int64_t expect =
         this->timer.get_time(samples, this->buff.channels());
 
+    this->total_expected += expect;
+
+    // Determine the latency:
+
+    this->operation_latency = this->operation_time - expect;
+
     // Add to total latency:
 
     this->total_operation_latency += this->operation_latency;
-- 
2.43.0


From 7a70e4adb636e8c373ec13fac5dd3edb70bae134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 37/37] fix: WAV files of 2 GB and more were left without their
 sizes

---
 include/maec/io/wav.hpp |  2 +-
 src/io/wav.cpp          | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index b128020..21b46f9 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -704,7 +704,7 @@ private:
      * 
      * @param num Number to add to total size
      */
-    void increment_size(int num) { this->set_size(this->get_size() + num); }
+    void increment_size(int num) { this->set_size(static_cast<int>(static_cast<uint32_t>(this->get_size()) + num)); }
 
     /// Number of bytes of audio data written
     uint32_t data_size = 0;
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 7534347..5041083 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -584,9 +584,13 @@ void WaveWriter::stop() {
         this->increment_size(1);
     }
 
+    // The size of a file might need all 32 bits:
+
+    const auto size = static_cast<uint32_t>(this->get_size());
+
     // Determine if we need to correct wave header size:
 
-    if (this->get_size() >= 12) {
+    if (size >= 12) {
 
         // Set total size of file:
 
@@ -594,7 +598,7 @@ void WaveWriter::stop() {
 
         // Encode the total size:
 
-        uint32_char(this->get_size() - 8, sout.begin());
+        uint32_char(size - 8, sout.begin());
 
         // Write to file:
 
@@ -603,7 +607,7 @@ void WaveWriter::stop() {
 
     // Determine if we need to correct data header size:
 
-    if (this->get_size() >= 36) {
+    if (size >= 36) {
 
         // Seek to final data chunk:
 
-- 
2.43.0

