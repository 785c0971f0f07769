From 2f80f7ffa975b580ccedf3c2a5c955fc1d00bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/24] fix: reject an iods descriptor length below its fixed
 fields or beyond its payload

---
 src/box/iods.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/box/iods.cpp b/src/box/iods.cpp
index 766ddd5..243ee54 100644
--- a/src/box/iods.cpp
+++ b/src/box/iods.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdint>
 #include <istream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -11,6 +12,7 @@
 #include "shiguredo/mp4/bitio/reader.hpp"
 #include "shiguredo/mp4/bitio/writer.hpp"
 #include "shiguredo/mp4/box_type.hpp"
+#include "shiguredo/mp4/stream/stream.hpp"
 
 namespace shiguredo::mp4::box {
 
@@ -74,7 +76,12 @@ std::uint64_t Iods::readData(std::istream& is) {
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_audio_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_video_profile_level);
   rbits += bitio::read_uint<std::uint8_t>(&reader, &m_graphics_profile_level);
-  return rbits + (m_descriptor_length - 7) * 8;
+  // skip the descriptors following the fixed fields of the initial object descriptor
+  const std::uint64_t offset_to_end = static_cast<std::uint64_t>(shiguredo::mp4::stream::get_istream_offset_to_end(is));
+  if (m_descriptor_length < 7 || m_descriptor_length - 7 > offset_to_end) {
+    throw std::runtime_error(fmt::format("Iods::readData(): invalid descriptor length: {}", m_descriptor_length));
+  }
+  return rbits + static_cast<std::uint64_t>(m_descriptor_length - 7) * 8;
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From f9e9438a6b9cbb1e0a59a0c6a2e452e55f467a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 02/24] fix: read the padding of hdlr in bytes, not bits

---
 src/box/hdlr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box/hdlr.cpp b/src/box/hdlr.cpp
index 343d481..ffc0cde 100644
--- a/src/box/hdlr.cpp
+++ b/src/box/hdlr.cpp
@@ -77,7 +77,7 @@ std::uint64_t Hdlr::readData(std::istream& is) {
         fmt::format("Hdlr::readData(): invalid name_rbits: offset_to_end={} name_rbits={}", offset_to_end, name_rbits));
   }
   rbits += name_rbits;
-  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, (offset_to_end * 8) - name_rbits, &m_padding);
+  return rbits + bitio::read_vector_uint<std::uint8_t>(&reader, offset_to_end - name_rbits / 8, &m_padding);
 }
 
 }  // namespace shiguredo::mp4::box
-- 
2.43.0


From df5aa2205b1a96f487307e6034c8e75032ac31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 03/24] fix: do not count the unknown tag of esds twice

---
 src/box/esds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/box/esds.cpp b/src/box/esds.cpp
index ed8d5e9..5746152 100644
--- a/src/box/esds.cpp
+++ b/src/box/esds.cpp
@@ -339,7 +339,8 @@ std::uint64_t Esds::readData(std::istream& is) {
         break;
       default:
         spdlog::info("Esds::readData(): unknown tag: {}", tag);
-        return rbits + static_cast<std::uint64_t>(offset_to_end) * 8;
+        // offset_to_end was taken before the tag, which rbits already counts
+        return rbits + static_cast<std::uint64_t>(offset_to_end - 1) * 8;
     }
     rbits += p->readData(&reader);
     m_descriptors.push_back(p);
-- 
2.43.0


From 8dbf4b91175cc5a2f12b0c26fb0df9f62803a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 04/24] fix: do not swallow the first child header of a
 QuickTime meta box

---
 src/box/meta.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/box/meta.cpp b/src/box/meta.cpp
index 5c91881..6b337e2 100644
--- a/src/box/meta.cpp
+++ b/src/box/meta.cpp
@@ -1,8 +1,11 @@
 #include "shiguredo/mp4/box/meta.hpp"
 
+#include <fmt/core.h>
+
 #include <array>
 #include <cstdint>
 #include <istream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/reader.hpp"
@@ -32,8 +35,14 @@ std::uint64_t Meta::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   if ((m_version | m_flags[0] | m_flags[1] | m_flags[2]) != 0) {
+    // QuickTime meta is not a FullBox: what was read is the beginning of its first child
     m_version = 0;
     m_flags = {0, 0, 0};
+    is.seekg(-static_cast<std::streamoff>(rbits / 8), std::ios_base::cur);
+    if (!is.good()) {
+      throw std::runtime_error(fmt::format("Meta::readData(): istream::seekg() failed: rdstate={}", is.rdstate()));
+    }
+    return 0;
   }
 
   return rbits;
-- 
2.43.0


From 3226d30ccdfb1da27070c77a3146bdf0743da512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 05/24] fix: keep the sample count of an stsz with a common
 sample size

---
 include/shiguredo/mp4/box/stsz.hpp |  1 +
 src/box/stsz.cpp                   | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/shiguredo/mp4/box/stsz.hpp b/include/shiguredo/mp4/box/stsz.hpp
index f59290d..41f3d0c 100644
--- a/include/shiguredo/mp4/box/stsz.hpp
+++ b/include/shiguredo/mp4/box/stsz.hpp
@@ -32,6 +32,7 @@ class Stsz : public FullBox {
 
  private:
   std::uint32_t m_sample_size;
+  std::uint32_t m_sample_count = 0;
   std::vector<std::uint32_t> m_entry_sizes;
 };
 
diff --git a/src/box/stsz.cpp b/src/box/stsz.cpp
index c9281c7..9bd9011 100644
--- a/src/box/stsz.cpp
+++ b/src/box/stsz.cpp
@@ -24,7 +24,10 @@ Stsz::Stsz() {
   m_type = box_type_stsz();
 }
 
-Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_entry_sizes(params.entry_sizes) {
+Stsz::Stsz(const StszParameters& params)
+    : m_sample_size(params.sample_size),
+      m_sample_count(static_cast<std::uint32_t>(std::size(params.entry_sizes))),
+      m_entry_sizes(params.entry_sizes) {
   setVersion(params.version);
   setFlags(params.flags);
   m_type = box_type_stsz();
@@ -32,15 +35,17 @@ Stsz::Stsz(const StszParameters& params) : m_sample_size(params.sample_size), m_
 
 std::string Stsz::toStringOnlyData() const {
   return fmt::format("{} SampleSize={} SampleCount={} EntrySizes=[{}]", getVersionAndFlagsString(), m_sample_size,
-                     std::size(m_entry_sizes), fmt::join(m_entry_sizes, ", "));
+                     m_sample_count, fmt::join(m_entry_sizes, ", "));
 }
 
 std::uint64_t Stsz::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_size);
-  wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
-  if (m_sample_size == 0) {
+  if (m_sample_size != 0) {
+    wbits += bitio::write_uint<std::uint32_t>(&writer, m_sample_count);
+  } else {
+    wbits += bitio::write_uint<std::uint32_t>(&writer, static_cast<std::uint32_t>(std::size(m_entry_sizes)));
     wbits += bitio::write_vector_uint<std::uint32_t>(&writer, m_entry_sizes);
   }
   return wbits;
@@ -54,10 +59,9 @@ std::uint64_t Stsz::readData(std::istream& is) {
   bitio::Reader reader(is);
   std::uint64_t rbits = readVersionAndFlag(&reader);
   rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_size);
-  std::uint32_t sample_count;
-  rbits += bitio::read_uint<std::uint32_t>(&reader, &sample_count);
+  rbits += bitio::read_uint<std::uint32_t>(&reader, &m_sample_count);
   if (m_sample_size == 0) {
-    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, sample_count, &m_entry_sizes);
+    rbits += bitio::read_vector_uint<std::uint32_t>(&reader, m_sample_count, &m_entry_sizes);
   } else {
     m_entry_sizes.clear();
   }
-- 
2.43.0


From ddc8917330a1c3c9153b5e69b71e0b4f4a7c4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 06/24] fix: write an audio sample entry under wave the way it
 is read

---
 src/box/sample_entry.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/box/sample_entry.cpp b/src/box/sample_entry.cpp
index 8e67cfc..983d5db 100644
--- a/src/box/sample_entry.cpp
+++ b/src/box/sample_entry.cpp
@@ -149,6 +149,9 @@ std::string AudioSampleEntry::toStringOnlyData() const {
 
 std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
   bitio::Writer writer(os);
+  if (m_under_wave) {
+    return bitio::write_vector_uint<std::uint8_t>(&writer, m_quick_time_data);
+  }
   std::uint64_t wbits = writeReservedAndDataReferenceIndex(&writer);
   wbits += bitio::write_uint<std::uint16_t>(&writer, m_entry_version);
   for (const auto r : m_reserved2) {
@@ -166,6 +169,9 @@ std::uint64_t AudioSampleEntry::writeData(std::ostream& os) const {
 }
 
 std::uint64_t AudioSampleEntry::getDataSize() const {
+  if (m_under_wave) {
+    return std::size(m_quick_time_data);
+  }
   std::uint64_t size = 8 + 8 + 8 + 4;
   if (!m_is_quick_time_compatible) {
     return size;
-- 
2.43.0


From da4c93d642f714d413424f46905412563422dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 07/24] fix: initialise the flags an audio sample entry is
 parsed by

---
 include/shiguredo/mp4/box/sample_entry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/sample_entry.hpp b/include/shiguredo/mp4/box/sample_entry.hpp
index 2a7a91a..b4dcb98 100644
--- a/include/shiguredo/mp4/box/sample_entry.hpp
+++ b/include/shiguredo/mp4/box/sample_entry.hpp
@@ -106,9 +106,9 @@ class AudioSampleEntry : public SampleEntry {
   std::uint16_t m_pre_defined;
   std::uint16_t m_reserved3 = 0;
   std::uint32_t m_sample_rate;
-  bool m_is_quick_time_compatible;
+  bool m_is_quick_time_compatible = false;
   std::vector<std::uint8_t> m_quick_time_data;
-  bool m_under_wave;
+  bool m_under_wave = false;
 
   void checkLengthOfQuickTimeData(std::uint64_t size) const;
   std::uint64_t getLengthOfQuickTimeData(std::uint64_t size) const;
-- 
2.43.0


From 75fcd7335c40dc5ef8ed598d63a558f0abf86163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 08/24] fix: do not set the flags removeFlag() is given when
 they are not set

---
 src/box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box.cpp b/src/box.cpp
index 87bfa9b..00068ed 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -148,7 +148,7 @@ void FullBox::addFlag(std::uint32_t flag) {
 }
 
 void FullBox::removeFlag(std::uint32_t flag) {
-  setFlags(getFlags() ^ flag);
+  setFlags(getFlags() & ~flag);
 }
 
 std::uint64_t FullBox::writeVersionAndFlag(bitio::Writer* writer) const {
-- 
2.43.0


From 5500aa5f92fd07c181f5b13dee3889bed7d09faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 09/24] fix: report a box without a header instead of
 dereferencing a null pointer

---
 src/box.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/box.cpp b/src/box.cpp
index 00068ed..3139043 100644
--- a/src/box.cpp
+++ b/src/box.cpp
@@ -78,6 +78,9 @@ std::uint64_t Box::getHeaderSize() {
 }
 
 void Box::seekToData(std::istream& is) {
+  if (!m_header) {
+    throw std::logic_error("Box::seekToData(): header is not set");
+  }
   is.seekg(static_cast<std::streamoff>(m_header->getOffset() + m_header->getHeaderSize()), std::ios_base::beg);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("Box::seekToData(): istream::seekg() failed: rdstate={}", is.rdstate()));
@@ -85,6 +88,9 @@ void Box::seekToData(std::istream& is) {
 }
 
 void Box::seekToEnd(std::istream& is) {
+  if (!m_header) {
+    throw std::logic_error("Box::seekToEnd(): header is not set");
+  }
   is.seekg(static_cast<std::streamoff>(m_header->getOffset() + m_header->getSize()), std::ios_base::beg);
   if (!is.good()) {
     throw std::runtime_error(fmt::format("Box::seekToEnd(): istream::seekg() failed: rdstate={}", is.rdstate()));
@@ -104,6 +110,9 @@ void Box::setOffsetAndDataSize(const std::uint64_t offset, const std::uint64_t d
 }
 
 std::uint64_t Box::write(std::ostream& os) {
+  if (!m_header) {
+    throw std::logic_error("Box::write(): header is not set");
+  }
   return m_header->write(os) + writeData(os);
 }
 
-- 
2.43.0


From eeb7e1bed39f5e46beb2f102686526008669c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 10/24] fix: notice a failing output stream when headers and
 media data are written

---
 src/box_header.cpp              | 5 ++++-
 src/writer/faststart_writer.cpp | 2 +-
 src/writer/simple_writer.cpp    | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index 5cc2e9e..f3932fc 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -105,7 +105,10 @@ std::uint64_t BoxHeader::write(std::ostream& os) {
   data[6] = type_data[2];
   data[7] = type_data[3];
 
-  std::copy(std::begin(data), std::end(data), std::ostreambuf_iterator<char>(os));
+  os.write(reinterpret_cast<const char*>(data.data()), static_cast<std::streamsize>(std::size(data)));
+  if (!os.good()) {
+    throw std::runtime_error(fmt::format("BoxHeader::write() ostream::write() failed: rdstate={}", os.rdstate()));
+  }
   m_size += std::size(data) - m_header_size;
   m_header_size = std::size(data);
   return m_size;
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index c109a70..cd2b63f 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,7 +150,7 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
-    std::copy_n(buffer, size, std::ostreambuf_iterator<char>(m_os));
+    m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
           fmt::format("FaststartWriter::copyMdatData(): copying mdat data failed: rdstate={}", m_os.rdstate()));
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index e15648d..27b7efb 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -92,7 +92,7 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
 }
 
 void SimpleWriter::addMdatData(const std::uint8_t* data, const std::size_t data_size) {
-  std::copy_n(data, data_size, std::ostreambuf_iterator<char>(m_os));
+  m_os.write(reinterpret_cast<const char*>(data), static_cast<std::streamsize>(data_size));
   if (!m_os.good()) {
     throw std::runtime_error(
         fmt::format("SimpleWriter::addMdatData(): ostream::write() failed: rdstate={}", m_os.rdstate()));
-- 
2.43.0


From 9dac5460f66a9e506dbbc3f192183ecb08605788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 11/24] fix: stop copying media data when the intermediate file
 cannot be read

---
 src/writer/faststart_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index cd2b63f..508ef12 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -150,6 +150,10 @@ void FaststartWriter::copyMdatData() {
   char buffer[COPY_MDAT_DATA_BUFFER_SIZE];
   while (!std::feof(m_mdat_fd)) {
     std::size_t size = std::fread(buffer, 1, COPY_MDAT_DATA_BUFFER_SIZE, m_mdat_fd);
+    if (std::ferror(m_mdat_fd)) {
+      throw std::runtime_error(
+          fmt::format("FaststartWriter::copyMdatData(): cannot read the intermediate file: {}", m_mdat_path.string()));
+    }
     m_os.write(buffer, static_cast<std::streamsize>(size));
     if (!m_os.good()) {
       throw std::runtime_error(
-- 
2.43.0


From 24713ecb496a708fad683f1b5078a192996a4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 12/24] fix: reject a box header that starts beyond the end of
 the stream

---
 src/box_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/box_header.cpp b/src/box_header.cpp
index f3932fc..869be29 100644
--- a/src/box_header.cpp
+++ b/src/box_header.cpp
@@ -28,7 +28,7 @@ BoxHeader* read_box_header(std::istream& is) {
   if (!is.good()) {
     throw std::runtime_error(fmt::format("read_box_header(): istream::tellg() failed: rdstate={}", is.rdstate()));
   }
-  if ((offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
+  if (offset_eof < offset || (offset_eof - offset) < Constants::SMALL_HEADER_SIZE) {
     throw std::invalid_argument(
         fmt::format("read_box_header(): stream has not enough data (1): {} {}", offset_eof, offset));
   }
-- 
2.43.0


From 53bd4cf6eb5c2834057930c9b73de1f674587b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 13/24] fix: close the intermediate file of FaststartWriter on
 every path

---
 .../shiguredo/mp4/writer/faststart_writer.hpp |  4 +++-
 src/writer/faststart_writer.cpp               | 19 ++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/shiguredo/mp4/writer/faststart_writer.hpp b/include/shiguredo/mp4/writer/faststart_writer.hpp
index 4d53a08..588e19a 100644
--- a/include/shiguredo/mp4/writer/faststart_writer.hpp
+++ b/include/shiguredo/mp4/writer/faststart_writer.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstdint>
+#include <cstdio>
 #include <filesystem>
 #include <ostream>
 #include <string>
@@ -32,6 +33,7 @@ struct FaststartWriterParameters {
 class FaststartWriter : public Writer {
  public:
   FaststartWriter(std::ostream&, const FaststartWriterParameters&);
+  ~FaststartWriter() override;
 
   void writeFtypBox() override;
   void writeMoovBox() override;
@@ -49,7 +51,7 @@ class FaststartWriter : public Writer {
   std::ostream& m_os;
   const box::FtypParameters m_ftyp_params;
   std::filesystem::path m_mdat_path;
-  std::FILE* m_mdat_fd;
+  std::FILE* m_mdat_fd = nullptr;
 
   void setOffsetAndSize() override;
 
diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 508ef12..6541f59 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -2,12 +2,13 @@
 
 #include <fmt/core.h>
 #include <spdlog/spdlog.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <chrono>
 #include <cstdint>
 #include <cstdio>
-#include <cstring>
+#include <cstdlib>
 #include <iterator>
 #include <limits>
 #include <stdexcept>
@@ -30,23 +31,29 @@ FaststartWriter::FaststartWriter(std::ostream& t_os, const FaststartWriterParame
   m_time_from_epoch = time::convert_to_epoch_19040101(
       static_cast<std::uint64_t>(duration_cast<std::chrono::seconds>(p.time_since_epoch()).count()));
 
-  char* mdat_filename = ::strdup(params.mdat_path_templete.c_str());
-  int fd = ::mkstemp(mdat_filename);
+  std::string mdat_filename = params.mdat_path_templete;
+  int fd = ::mkstemp(mdat_filename.data());
   if (fd == -1) {
     throw std::runtime_error("FaststartWriter::FaststartWriter(): cannot open an intermediate file: mkstemp()");
   }
 
   m_mdat_path = mdat_filename;
-  std::free(mdat_filename);
   spdlog::debug("FaststartWriter::FaststartWriter(): m_mdat_path: {}", m_mdat_path.string());
   m_mdat_fd = ::fdopen(fd, "w+");
   if (m_mdat_fd == nullptr) {
+    ::close(fd);
     throw std::runtime_error(
         fmt::format("FaststartWriter::FaststartWriter(): cannot open an intermediate file: fdopen(), m_mdat_path={}",
                     m_mdat_path.string()));
   }
 }
 
+FaststartWriter::~FaststartWriter() {
+  if (m_mdat_fd != nullptr) {
+    std::fclose(m_mdat_fd);
+  }
+}
+
 void FaststartWriter::recreateMoovBoxInfo() {
   if (m_moov_box_info) {
     delete m_moov_box_info;
@@ -161,7 +168,9 @@ void FaststartWriter::copyMdatData() {
     }
   }
 
-  if (auto ret = std::fclose(m_mdat_fd); ret == EOF) {
+  const auto ret = std::fclose(m_mdat_fd);
+  m_mdat_fd = nullptr;
+  if (ret == EOF) {
     throw std::runtime_error(
         fmt::format("FaststartWriter::copyMdatData(): cannot close the intermediate file: {}", m_mdat_path.string()));
   }
-- 
2.43.0


From cfa4c5fbdba9b1e7606c7aed42391e029452595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 14/24] fix: initialise the members of Writer its layout is
 computed from

---
 include/shiguredo/mp4/writer/writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/writer/writer.hpp b/include/shiguredo/mp4/writer/writer.hpp
index d640774..897cb29 100644
--- a/include/shiguredo/mp4/writer/writer.hpp
+++ b/include/shiguredo/mp4/writer/writer.hpp
@@ -53,12 +53,12 @@ class Writer {
   std::uint32_t m_mvhd_timescale;
   float m_duration;
   std::uint64_t m_time_from_epoch;
-  std::uint64_t m_ftyp_size;
+  std::uint64_t m_ftyp_size = 0;
   std::uint64_t m_mdat_data_size = 0;
   std::uint32_t m_next_track_id = 1;
 
   BoxInfo* m_moov_box_info = nullptr;
-  box::Mvhd* m_mvhd_box;
+  box::Mvhd* m_mvhd_box = nullptr;
 
   virtual void setOffsetAndSize() = 0;
 };
-- 
2.43.0


From 29bb835a45c70d46df137e588abae5bfe46d1eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 15/24] fix: free the header of a box that turns out to be
 corrupt

---
 src/reader/reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 55d4433..7fcd85f 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <istream>
 #include <iterator>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -45,7 +46,8 @@ void SimpleReader::read() {
 }
 
 std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
-  BoxHeader* header = read_box_header(m_is);
+  std::unique_ptr<BoxHeader> header_owner(read_box_header(m_is));
+  BoxHeader* header = header_owner.get();
   header->seekToData(m_is);
   std::stringstream ss;
   const auto remaining_size = m_total_size - header->getOffset() - header->getHeaderSize();
@@ -62,6 +64,7 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   if (box == nullptr) {
     throw std::runtime_error("SimpleReader::readBox(): BoxMap::getBoxInstance() returns nullptr");
   }
+  header_owner.release();
   BoxInfo* info = new BoxInfo({.parent = parent, .box = box});
   if (!parent) {
     m_boxes.push_back(info);
-- 
2.43.0


From cfb5b24e5d6fff75fb7f9960f8b6e2a052ca4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 16/24] fix: reject a box that extends beyond the box around it

---
 src/reader/reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/reader.cpp b/src/reader/reader.cpp
index 7fcd85f..aa1be91 100644
--- a/src/reader/reader.cpp
+++ b/src/reader/reader.cpp
@@ -81,6 +81,10 @@ std::uint64_t SimpleReader::readBox(BoxInfo* parent) {
   while (header->getDataSize() > rbytes) {
     rbytes += readBox(info);
   }
+  if (rbytes > header->getDataSize()) {
+    throw std::runtime_error(fmt::format("corrupt file? boxes({} bytes) are greater than the box data size({}) around them",
+                                         rbytes, header->getDataSize()));
+  }
   return header->getSize();
 }
 
-- 
2.43.0


From f47f5e9481e7b99f0a17665e25537f7968017946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 17/24] fix: keep the slices of a picture in one sample

---
 src/track/h264.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 0a3efac..6a40bc7 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -88,12 +88,12 @@ void H264Track::addData(const std::uint64_t timestamp,
                         const std::size_t data_size,
                         bool is_key) {
   std::size_t start = 0;
+  std::vector<std::uint8_t> mdat_data = {};
   while (1) {
     auto nu = find_next_nal_unit(data, data_size, start);
     std::vector<uint8_t> sps_data = {};
     std::vector<uint8_t> pps_data = {};
     std::size_t video_data_size;
-    std::uint8_t* mdat_data;
     switch (nu.header & 0x1f) {
       case 1:
       case 2:
@@ -102,16 +102,12 @@ void H264Track::addData(const std::uint64_t timestamp,
       case 5:
         // VCL
         video_data_size = nu.end - nu.start - nu.start_code_size;
-        mdat_data = new std::uint8_t[video_data_size + 4];
-        mdat_data[0] = static_cast<std::uint8_t>(video_data_size >> 24);
-        mdat_data[1] = static_cast<std::uint8_t>(video_data_size >> 16);
-        mdat_data[2] = static_cast<std::uint8_t>(video_data_size >> 8);
-        mdat_data[3] = static_cast<std::uint8_t>(video_data_size & 0xff);
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 24));
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 16));
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size >> 8));
+        mdat_data.push_back(static_cast<std::uint8_t>(video_data_size & 0xff));
 
-        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, mdat_data + 4);
-
-        addMdatData(timestamp, mdat_data, video_data_size + 4, is_key);
-        delete[] mdat_data;
+        std::copy_n(data + nu.start + nu.start_code_size, video_data_size, std::back_inserter(mdat_data));
         break;
       case 6:
         // SEI
@@ -141,6 +137,10 @@ void H264Track::addData(const std::uint64_t timestamp,
     }
 
     if (nu.end >= data_size) {
+      // 同じアクセスユニットの VCL は 1 つの sample にまとめる
+      if (!std::empty(mdat_data)) {
+        addMdatData(timestamp, mdat_data, is_key);
+      }
       return;
     }
     start = nu.end;
-- 
2.43.0


From af7682f36d7f0f11dba08602f924e9b1417ab6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 18/24] fix: store a parameter set repeated in the stream only
 once

---
 include/shiguredo/mp4/box/avc.hpp |  1 +
 src/track/h264.cpp                | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/shiguredo/mp4/box/avc.hpp b/include/shiguredo/mp4/box/avc.hpp
index adeead5..517cc6c 100644
--- a/include/shiguredo/mp4/box/avc.hpp
+++ b/include/shiguredo/mp4/box/avc.hpp
@@ -48,6 +48,7 @@ class AVCParameterSet {
   AVCParameterSet() = default;
   explicit AVCParameterSet(const AVCParameterSetParameters&);
 
+  bool operator==(const AVCParameterSet&) const = default;
   std::string toString() const;
   std::uint64_t writeData(bitio::Writer*) const;
   std::uint64_t getSize() const;
diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 6a40bc7..2380cca 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -196,11 +196,17 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
 }
 
 void H264Track::appendSequenceParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_sequence_parameter_sets.emplace_back(params);
+  if (std::find(std::begin(m_sequence_parameter_sets), std::end(m_sequence_parameter_sets), params) ==
+      std::end(m_sequence_parameter_sets)) {
+    m_sequence_parameter_sets.emplace_back(params);
+  }
 }
 
 void H264Track::appendPictureParameterSets(const shiguredo::mp4::box::AVCParameterSet& params) {
-  m_picture_parameter_sets.emplace_back(params);
+  if (std::find(std::begin(m_picture_parameter_sets), std::end(m_picture_parameter_sets), params) ==
+      std::end(m_picture_parameter_sets)) {
+    m_picture_parameter_sets.emplace_back(params);
+  }
 }
 
 }  // namespace shiguredo::mp4::track
-- 
2.43.0


From baa242cef1fc6573b21597bd2878e27472a74a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 19/24] fix: reject lists longer than the count or length field
 written before them

---
 src/box/avc.cpp  | 12 ++++++++++++
 src/box/sidx.cpp |  5 +++++
 src/box/vpc.cpp  |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/src/box/avc.cpp b/src/box/avc.cpp
index 5f2e4ca..d4b8906 100644
--- a/src/box/avc.cpp
+++ b/src/box/avc.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <stdexcept>
@@ -52,6 +53,10 @@ std::string AVCParameterSet::toString() const {
 }
 
 std::uint64_t AVCParameterSet::writeData(bitio::Writer* writer) const {
+  if (std::size(m_nal_unit) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(
+        fmt::format("AVCParameterSet::writeData(): nal_unit is too long: {}", std::size(m_nal_unit)));
+  }
   auto wbits = bitio::write_uint<std::uint16_t>(writer, static_cast<std::uint16_t>(std::size(m_nal_unit)));
   wbits += bitio::write_vector_uint<std::uint8_t>(writer, m_nal_unit);
   return wbits;
@@ -126,6 +131,13 @@ std::string AVCDecoderConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t AVCDecoderConfiguration::writeData(std::ostream& os) const {
+  if (std::size(m_sequence_parameter_sets) > 31 ||
+      std::size(m_picture_parameter_sets) > std::numeric_limits<std::uint8_t>::max() ||
+      std::size(m_sequence_parameter_sets_ext) > std::numeric_limits<std::uint8_t>::max()) {
+    throw std::runtime_error(fmt::format("AVCDecoderConfiguration::writeData(): too many parameter sets: {} {} {}",
+                                         std::size(m_sequence_parameter_sets), std::size(m_picture_parameter_sets),
+                                         std::size(m_sequence_parameter_sets_ext)));
+  }
   bitio::Writer writer(os);
   auto wbits = bitio::write_uint<std::uint8_t>(&writer, m_configuration_version);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
diff --git a/src/box/sidx.cpp b/src/box/sidx.cpp
index d9f9f39..f567389 100644
--- a/src/box/sidx.cpp
+++ b/src/box/sidx.cpp
@@ -7,8 +7,10 @@
 #include <cstdint>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -50,6 +52,9 @@ std::string Sidx::toStringOnlyData() const {
 }
 
 std::uint64_t Sidx::writeData(std::ostream& os) const {
+  if (std::size(m_references) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("Sidx::writeData(): too many references: {}", std::size(m_references)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint32_t>(&writer, m_reference_id);
diff --git a/src/box/vpc.cpp b/src/box/vpc.cpp
index dae7534..9713a80 100644
--- a/src/box/vpc.cpp
+++ b/src/box/vpc.cpp
@@ -5,7 +5,9 @@
 
 #include <cstdint>
 #include <istream>
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 
 #include "shiguredo/mp4/bitio/bitio.hpp"
@@ -33,6 +35,10 @@ std::string VPCodecConfiguration::toStringOnlyData() const {
 }
 
 std::uint64_t VPCodecConfiguration::writeData(std::ostream& os) const {
+  if (m_version != 0 && std::size(m_codec_initialization_data) > std::numeric_limits<std::uint16_t>::max()) {
+    throw std::runtime_error(fmt::format("VPCodecConfiguration::writeData(): codec_initialization_data is too long: {}",
+                                         std::size(m_codec_initialization_data)));
+  }
   bitio::Writer writer(os);
   std::uint64_t wbits = writeVersionAndFlag(&writer);
   wbits += bitio::write_uint<std::uint8_t>(&writer, m_profile);
-- 
2.43.0


From 04e14286bdd7177a04eab74fe24f28829c82ab86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 20/24] fix: do not wrap the duration of a last sample that
 starts at or after the end of the track

---
 src/track/track.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/track/track.cpp b/src/track/track.cpp
index 9348463..9aab7ba 100644
--- a/src/track/track.cpp
+++ b/src/track/track.cpp
@@ -57,7 +57,9 @@ void Track::finalize() {
   }
 
   if (!std::empty(m_mdat_sample_sizes)) {
-    m_sample_durations.push_back(static_cast<std::uint32_t>(getDurationInTimescale() - m_prev_timestamp));
+    const auto duration = getDurationInTimescale();
+    m_sample_durations.push_back(
+        static_cast<std::uint32_t>(duration > m_prev_timestamp ? duration - m_prev_timestamp : 0));
   }
 }
 
-- 
2.43.0


From 3b2a21c93ef5cb77503b5cbfeab8d559598e6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 21/24] fix: do not leak the ftyp and free boxes when writing
 them fails

---
 src/writer/faststart_writer.cpp |  9 ++++-----
 src/writer/simple_writer.cpp    | 18 ++++++++----------
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/writer/faststart_writer.cpp b/src/writer/faststart_writer.cpp
index 6541f59..423cad5 100644
--- a/src/writer/faststart_writer.cpp
+++ b/src/writer/faststart_writer.cpp
@@ -71,12 +71,11 @@ void FaststartWriter::recreateMoovBoxInfo() {
 }
 
 void FaststartWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
-  ftyp->adjustOffsetAndSize(0);
-  ftyp->write(m_os);
-  m_ftyp_size = ftyp->getSize();
-  delete ftyp;
+  ftyp.adjustOffsetAndSize(0);
+  ftyp.write(m_os);
+  m_ftyp_size = ftyp.getSize();
 }
 
 void FaststartWriter::writeMdatHeader() {
diff --git a/src/writer/simple_writer.cpp b/src/writer/simple_writer.cpp
index 27b7efb..b721f6f 100644
--- a/src/writer/simple_writer.cpp
+++ b/src/writer/simple_writer.cpp
@@ -40,12 +40,11 @@ SimpleWriter::SimpleWriter(std::ostream& t_os, const SimpleWriterParameters& par
 }
 
 void SimpleWriter::writeFtypBox() {
-  BoxInfo* ftyp = new BoxInfo({.box = new box::Ftyp(m_ftyp_params)});
+  BoxInfo ftyp({.box = new box::Ftyp(m_ftyp_params)});
 
-  ftyp->adjustOffsetAndSize(0);
-  ftyp->write(m_os);
-  m_ftyp_size = ftyp->getSize();
-  delete ftyp;
+  ftyp.adjustOffsetAndSize(0);
+  ftyp.write(m_os);
+  m_ftyp_size = ftyp.getSize();
 
   m_os.seekp(static_cast<std::streamoff>(m_ftyp_size + Constants::LARGE_HEADER_SIZE), std::ios_base::beg);
   if (!m_os.good()) {
@@ -71,18 +70,17 @@ void SimpleWriter::writeFreeBoxAndMdatHeader() {
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
   } else {
-    BoxInfo* free = new BoxInfo({.box = new box::Free()});
-    free->adjustOffsetAndSize(m_ftyp_size);
-    free->write(m_os);
+    BoxInfo free({.box = new box::Free()});
+    free.adjustOffsetAndSize(m_ftyp_size);
+    free.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
           "SimpleWriter::writeFreeBoxAndMdatHeader(): ostream::write() failed: rdstate={}", m_os.rdstate()));
     }
-    BoxHeader mdat({.offset = m_ftyp_size + free->getSize(),
+    BoxHeader mdat({.offset = m_ftyp_size + free.getSize(),
                     .size = m_mdat_data_size + Constants::SMALL_HEADER_SIZE,
                     .header_size = Constants::SMALL_HEADER_SIZE,
                     .type = BoxType("mdat")});
-    delete free;
     mdat.write(m_os);
     if (!m_os.good()) {
       throw std::runtime_error(fmt::format(
-- 
2.43.0


From 1432e24a3257c10d6854e3e3048dc5463bc846f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 22/24] fix: recognise NAL units of one or two bytes at the end
 of an access unit

---
 src/track/h264.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/track/h264.cpp b/src/track/h264.cpp
index 2380cca..b511735 100644
--- a/src/track/h264.cpp
+++ b/src/track/h264.cpp
@@ -113,6 +113,11 @@ void H264Track::addData(const std::uint64_t timestamp,
         // SEI
         // 無視する
         break;
+      case 10:
+      case 11:
+        // end of sequence, end of stream
+        // 無視する
+        break;
       case 7:
         // SPS
         std::copy_n(data + nu.start + nu.start_code_size, nu.end - nu.start - nu.start_code_size,
@@ -163,9 +168,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
   auto index = start;
   std::size_t start_code_size;
   std::uint8_t header = 0;
-  while (index + 5 < data_size) {
-    if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 & data[index + 3] == 1) {
-      if (header == 0) {
+  bool found = false;
+  while (index + 3 < data_size) {
+    if (index + 4 < data_size && data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 0 &&
+        data[index + 3] == 1) {
+      if (!found) {
+        found = true;
         start_code_size = 4;
         header = data[index + 4];
       } else {
@@ -175,7 +183,8 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       continue;
     }
     if (data[index] == 0 && data[index + 1] == 0 && data[index + 2] == 1) {
-      if (header == 0) {
+      if (!found) {
+        found = true;
         start_code_size = 3;
         header = data[index + 3];
       } else {
@@ -184,12 +193,12 @@ NalUnit find_next_nal_unit(const std::uint8_t* data, const std::size_t data_size
       index += 3;
       continue;
     }
-    if (index == start && header == 0) {
+    if (index == start) {
       throw std::runtime_error(fmt::format("not start with nalunit: start={}", start));
     }
     ++index;
   }
-  if (header == 0) {
+  if (!found) {
     throw std::runtime_error("nalunit not found");
   }
   return NalUnit{start_code_size, start, data_size, header};
-- 
2.43.0


From 8e91aa1349512cc042a89a4bcd2c9cdf50110d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 23/24] fix: do not wrap a sample rate that 16.16 cannot
 express

---
 src/track/aac.cpp | 3 ++-
 src/track/mp3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/track/aac.cpp b/src/track/aac.cpp
index e85f5f7..a8c5ba9 100644
--- a/src/track/aac.cpp
+++ b/src/track/aac.cpp
@@ -34,7 +34,8 @@ void AACTrack::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 の固定小数点で表わせない場合は 0 とする
+                               .sample_rate = m_timescale > 0xffff ? 0 : m_timescale << 16,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x40,  // Audio ISO/IEC 14496-3 (MPEG-4 Audio)
diff --git a/src/track/mp3.cpp b/src/track/mp3.cpp
index aab4bc1..5199e0e 100644
--- a/src/track/mp3.cpp
+++ b/src/track/mp3.cpp
@@ -32,7 +32,8 @@ void MP3Track::makeStsdBoxInfo(BoxInfo* stbl) {
                                .entry_version = 0,
                                .channel_count = 2,
                                .sample_size = 16,
-                               .sample_rate = m_timescale << 16,
+                               // 16.16 の固定小数点で表わせない場合は 0 とする
+                               .sample_rate = m_timescale > 0xffff ? 0 : m_timescale << 16,
                            })});
   std::shared_ptr<box::DecoderConfigDescriptor> dcd(
       new box::DecoderConfigDescriptor({.object_type_indication = 0x6b,  // Audio ISO/IEC 11172-3 (MPEG-1 Audio)
-- 
2.43.0


From 620db2dc08debcab523f0284942b464680d45778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:14 +0000
Subject: [PATCH 24/24] fix: reject variable-length integers that do not fit
 instead of dropping their high bits

---
 include/shiguredo/mp4/bitio/bitio.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/shiguredo/mp4/bitio/bitio.hpp b/include/shiguredo/mp4/bitio/bitio.hpp
index ff7e1ec..a2184ca 100644
--- a/include/shiguredo/mp4/bitio/bitio.hpp
+++ b/include/shiguredo/mp4/bitio/bitio.hpp
@@ -144,6 +144,9 @@ std::uint64_t uvarint_size(const T u) {
 template <typename T>
 std::uint64_t write_uvarint(Writer* writer, const T u) {
   std::uint64_t val = static_cast<std::uint64_t>(u);
+  if ((val >> (7 * sizeof(u))) != 0) {
+    throw std::runtime_error(fmt::format("bitio::write_uvarint(): value is too large: {}", val));
+  }
   for (std::int8_t i = 7 * (sizeof(u) - 1); i >= 0; i -= 7) {
     std::uint8_t data = static_cast<std::uint8_t>((val >> i) & 0x7f);
     if (i > 0) {
@@ -164,6 +167,9 @@ std::uint64_t read_uvarint(Reader* reader, T* var) {
     std::vector<std::uint8_t> v;
     reader->readBits(&v, 8);
     rbits += 8;
+    if ((val >> (8 * sizeof(T) - 7)) != 0) {
+      throw std::runtime_error("bitio::read_uvarint(): value is too large");
+    }
     val = (val << 7) + static_cast<T>(v[0] & 0x7f);
     if ((v[0] & 0x80) == 0) {
       *var = val;
-- 
2.43.0

