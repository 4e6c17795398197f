From fca87fcab0530c67c8f7493793bc6cd89869c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 01/25] fix: bounds assertions throw instead of terminating,
 and hold on const buffers

assert_check() throws, so neither it nor its callers can be noexcept; the
const overload of data<ASSERT::YES>() did not check anything, and the check
itself could wrap around.
---
 src/buffer.hpp   | 49 +++++++++++++++++++++++++++++++-----------------
 src/metadata.hpp |  8 ++++----
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/buffer.hpp b/src/buffer.hpp
index 0a6a9f6..25a39e9 100644
--- a/src/buffer.hpp
+++ b/src/buffer.hpp
@@ -60,26 +60,32 @@ public:
   size_t size() const noexcept { return m_size; }
 
   bool check(const size_t _offset, const size_t _length) const noexcept {
-    return _offset + _length <= size();
+    return _offset <= size() && _length <= size() - _offset;
   }
 
-  void assert_check(const size_t _offset, const size_t _length) const noexcept {
+  void assert_check(const size_t _offset, const size_t _length) const {
     if (!check(_offset, _length))
       EXCEPTION::invalid_buffer_access(_offset, _length, size());
   }
 
   template <ASSERT _assert = ASSERT::NO>
   const uint8_t *data(const size_t _offset,
-                      [[maybe_unused]] const size_t _length) const noexcept {
+                      [[maybe_unused]] const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
+    if constexpr (_assert == ASSERT::YES) {
+      assert_check(_offset, _length);
+    } else {
 #ifdef DEBUG
-    assert_check(_offset, _length);
+      assert_check(_offset, _length);
 #endif
+    }
     return m_buffer.get() + _offset;
   }
 
   template <ASSERT _assert = ASSERT::NO>
   uint8_t *data(const size_t _offset,
-                [[maybe_unused]] const size_t _length) noexcept {
+                [[maybe_unused]] const size_t _length) noexcept(_assert ==
+                                                                ASSERT::NO) {
     if constexpr (_assert == ASSERT::YES) {
       assert_check(_offset, _length);
     } else {
@@ -125,56 +131,63 @@ public:
   EBUFFER(MBUFFER &&_buffer) : MBUFFER(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  uint8_t get_byte(const size_t _offset) const noexcept {
+  uint8_t get_byte(const size_t _offset) const noexcept(_assert == ASSERT::NO) {
     return *(this->template data<_assert>(_offset, 1));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  BYTES get_bytes(const size_t _offset, const size_t _length) const noexcept {
+  BYTES get_bytes(const size_t _offset, const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_bytes(this->template data<_assert>(_offset, _length),
                                _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int16_t get_int16(const size_t _offset) const noexcept {
+  int16_t get_int16(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int16_t>(
         this->template data<_assert>(_offset, sizeof(int16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint16_t get_uint16(const size_t _offset) const noexcept {
+  uint16_t get_uint16(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint16_t>(
         this->template data<_assert>(_offset, sizeof(uint16_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  int32_t get_int32(const size_t _offset) const noexcept {
+  int32_t get_int32(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, int32_t>(
         this->template data<_assert>(_offset, sizeof(int32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uint32_t get_uint32(const size_t _offset) const noexcept {
+  uint32_t get_uint32(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uint32_t>(
         this->template data<_assert>(_offset, sizeof(uint32_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  double get_double(const size_t _offset) const noexcept {
+  double get_double(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_double<_endian>(
         this->template data<_assert>(_offset, sizeof(double)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  std::string_view get_string(const size_t _offset,
-                              const size_t _length) const noexcept {
+  std::string_view get_string(const size_t _offset, const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string_trim(
         this->template data<_assert>(_offset, _length), _length);
   }
 
   template <ASSERT _assert = ASSERT::NO>
   std::string_view get_string_untrim(const size_t _offset,
-                                     const size_t _length) const noexcept {
+                                     const size_t _length) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_string(this->template data<_assert>(_offset, _length),
                                 _length);
   }
@@ -195,13 +208,15 @@ public:
   BUFFER(MBUFFER &&_buffer) : EBUFFER<_endian>(std::move(_buffer)) {}
 
   template <ASSERT _assert = ASSERT::NO>
-  integer_t get_integer(const size_t _offset) const noexcept {
+  integer_t get_integer(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, integer_t>(
         this->template data<_assert>(_offset, sizeof(integer_t)));
   }
 
   template <ASSERT _assert = ASSERT::NO>
-  uinteger_t get_uinteger(const size_t _offset) const noexcept {
+  uinteger_t get_uinteger(const size_t _offset) const
+      noexcept(_assert == ASSERT::NO) {
     return INTERNAL::get_val<_endian, uinteger_t>(
         this->template data<_assert>(_offset, sizeof(uinteger_t)));
   }
diff --git a/src/metadata.hpp b/src/metadata.hpp
index dbffda0..9ef5b01 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -218,7 +218,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void
   process_ROW_SIZE_SUBHEADER([[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-                             Properties::Metadata *_metadata) const noexcept {
+                             Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_ROW_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     buf.assert_check(_subheader.offset + lcp_offset, 4);
@@ -243,7 +243,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_SIZE_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) const noexcept {
+      Properties::Metadata *_metadata) const {
     D(spdlog::info("READ_METADATA::process_COLUMN_SIZE_SUBHEADER: {}, {} : ",
                    _subheader.offset, _subheader.length));
     _metadata->column_count = buf.template get_uinteger<ASSERT::YES>(
@@ -266,7 +266,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_COLUMN_TEXT_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      Properties::Metadata *_metadata) noexcept {
+      Properties::Metadata *_metadata) {
     D(spdlog::info("READ_METADATA::process_COLUMN_TEXT_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
     const size_t length =
@@ -366,7 +366,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   void process_FORMAT_AND_LABEL_SUBHEADER(
       [[maybe_unused]] const PAGE_SUBHEADER &_subheader,
-      [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
+      [[maybe_unused]] Properties::Metadata *_metadata) {
     D(spdlog::info(
         "READ_METADATA::process_FORMAT_AND_LABEL_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-- 
2.43.0


From 59970eb99f30b054baf82ebcfe419d6da5f6545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 02/25] fix: malformed headers, pages and subheaders no longer
 read out of bounds

The release build compiles FMT_ASSERT out: check the header length, the
page header, the rows, the signatures, the column name and attribute
entries and the place of each column for real.
---
 src/data.hpp     |  3 +--
 src/header.hpp   |  4 ++--
 src/metadata.hpp | 22 ++++++++++++++++------
 src/page.hpp     |  1 +
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/data.hpp b/src/data.hpp
index d381427..f89f574 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -188,8 +188,7 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
   BYTES extract_row_values(const size_t _offset, const size_t _length) const {
     D(spdlog::info("READ_DATA::extract_row_values({}, {})\n", _offset,
                    _length));
-    FMT_ASSERT(_offset + _length <= header->page_length,
-               "Accessing data outside the page");
+    buf.assert_check(_offset, _length);
     const auto values = buf.get_bytes(_offset, _length);
     if (_length < metadata->row_length) {
       return decompressor(values);
diff --git a/src/header.hpp b/src/header.hpp
index 94cb3ef..8f9928e 100644
--- a/src/header.hpp
+++ b/src/header.hpp
@@ -92,8 +92,8 @@ struct READ_HEADER {
     }*/
 
     // Read the rest of the header
-    FMT_ASSERT(_header->header_length >= HEADER_CONSTANTS::HEADER_SIZE,
-               "Header is too big in set_header_length_and_read");
+    if (_header->header_length < HEADER_CONSTANTS::HEADER_SIZE + total_align)
+      EXCEPTION::header_too_short();
     if (!buf.read_stream(is,
                          _header->header_length - HEADER_CONSTANTS::HEADER_SIZE,
                          HEADER_CONSTANTS::HEADER_SIZE))
diff --git a/src/metadata.hpp b/src/metadata.hpp
index 9ef5b01..4779fca 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -161,6 +161,13 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
+    // Too short to hold a signature? Then it can only be a row.
+    if (_subheader.length < integer_size) {
+      if (!DataSubHeader::check(_metadata, _subheader))
+        return false;
+      process_DATA_SUBHEADER(_subheader);
+      return true;
+    }
     // Match the subheader signature to the correct processing function
     const auto subheader_signature =
         buf.get_bytes(_subheader.offset, integer_size);
@@ -327,10 +334,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       [[maybe_unused]] Properties::Metadata *_metadata) noexcept {
     D(spdlog::info("READ_METADATA::process_COLUMN_NAME_SUBHEADER: {}, {}\n",
                    _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += 8) {
+         offset + integer_size + 12 <= offset_end; offset += 8) {
       const size_t idx = buf.get_uint16(offset + 0);
       const size_t name_offset = buf.get_uint16(offset + 2);
       const size_t name_length = buf.get_uint16(offset + 4);
@@ -348,10 +354,9 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     D(spdlog::info(
         "READ_METADATA::process_COLUMN_ATTRIBUTES_SUBHEADER: {}, {}\n",
         _subheader.offset, _subheader.length));
-    const size_t offset_max =
-        _subheader.offset + _subheader.length - 12 - integer_size;
+    const size_t offset_end = _subheader.offset + _subheader.length;
     for (size_t offset = _subheader.offset + integer_size + 8;
-         offset <= offset_max; offset += integer_size + 8) {
+         offset + integer_size + 12 <= offset_end; offset += integer_size + 8) {
       const size_t column_data_offset = buf.get_uinteger(offset + 0);
       const size_t column_data_length = buf.get_uint32(offset + integer_size);
       const uint8_t column_data_type = buf.get_byte(offset + integer_size + 6);
@@ -434,6 +439,11 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto column_length =
           get_value("data_length", column_data_lengths, icol);
       const auto column_type = get_value("data_type", column_data_types, icol);
+      // The values of the column must lie within the row
+      if (column_offset > _metadata->row_length ||
+          column_length > _metadata->row_length - column_offset)
+        EXCEPTION::invalid_buffer_access(column_offset, column_length,
+                                         _metadata->row_length);
 
       bool column_type_not_supported = true;
       auto add_column = [&](auto &&formatter) {
diff --git a/src/page.hpp b/src/page.hpp
index f829f7e..f1ac6f7 100644
--- a/src/page.hpp
+++ b/src/page.hpp
@@ -104,6 +104,7 @@ struct READ_PAGE : public PAGE_CONSTANT<_format> {
 
   bool _get_page_header() {
     D(spdlog::info("get_page_header: "));
+    buf.assert_check(page_bit_offset, 8);
     current_page_header.type = buf.get_uint16(page_bit_offset + 0);
     current_page_header.block_count = buf.get_uint16(page_bit_offset + 2);
     current_page_header.subheaders_count = buf.get_uint16(page_bit_offset + 4);
-- 
2.43.0


From cd2f755de558bcbbbb7b51fe616c86a626144e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 03/25] fix: decompressors keep a last one-byte RLE command and
 copy overlapping RDC patterns

RLE dropped a final command of one byte, the RDC pattern copy used memcpy on
overlapping ranges and did not check its offset, and both could read past the
end of the compressed row.
---
 src/decompressors.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/decompressors.hpp b/src/decompressors.hpp
index a7d1502..ec1db2a 100644
--- a/src/decompressors.hpp
+++ b/src/decompressors.hpp
@@ -25,7 +25,13 @@ struct SRC_VALUES {
   explicit SRC_VALUES(const BYTES &_values)
       : values(_values), n_src(values.size()) {}
 
-  auto pop() noexcept { return values[i_src++]; }
+  auto pop() {
+    if (!check(1)) {
+      spdlog::critical("Invalid src length: {}>={}\n", i_src, n_src);
+      EXCEPTION::cannot_decompress();
+    }
+    return values[i_src++];
+  }
   auto pop(const size_t _n) noexcept {
     auto v = values.substr(i_src, _n);
     i_src += _n;
@@ -97,8 +103,13 @@ struct RDC : public DST_VALUES<_endian, _format> {
 
   void store_pattern(const size_t _offset, const size_t _n) {
     assert_check(_n);
-    buf.copy(i_dst, i_dst - _offset, _n);
-    i_dst += _n;
+    if (_offset > i_dst) {
+      spdlog::critical("Invalid pattern offset: {}>{}\n", _offset, i_dst);
+      EXCEPTION::cannot_decompress();
+    }
+    // The pattern may overlap the bytes it produces: copy byte by byte.
+    for (size_t i = 0; i < _n; ++i, ++i_dst)
+      buf.set(i_dst, buf[i_dst - _offset]);
   }
 
   BYTES operator()(const BYTES &_values) {
@@ -204,7 +215,7 @@ struct RLE : public DST_VALUES<_endian, _format> {
       i_dst += n;
     };
 
-    while (src.check(2) && check()) {
+    while (src.check(1) && check()) {
       const auto val = src.pop();
       const uint8_t command = static_cast<uint8_t>(val >> FOUR);
       const size_t end_of_first_byte = static_cast<size_t>(val & 0x0F);
-- 
2.43.0


From ca1c878ea996093fa2d7ce7c16338e9c72b90bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 04/25] fix: pages without any row are skipped instead of
 yielding a row

---
 src/data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.hpp b/src/data.hpp
index f89f574..f6187fa 100644
--- a/src/data.hpp
+++ b/src/data.hpp
@@ -154,7 +154,8 @@ struct READ_DATA : public READ_PAGE<_DataSource, _endian, _format> {
     if (!page)
       return false;
     // Do we need to read a new page from the file?
-    if (page->next()) {
+    // (a page may hold no row at all)
+    while (page->next()) {
       if (!read_next_page())
         return false;
     }
-- 
2.43.0


From 3bc9987c6209f7c9df834c6db37cd6ed0ea0e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 05/25] fix: dates, datetimes and times stored on less than 8
 bytes are read on their own bytes

---
 src/formatters.hpp |  2 ++
 src/types.hpp      | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index 4833586..f87a653 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -109,6 +109,8 @@ template <Endian _endian> struct DoubleFormatter : public IFormatter {
   }
 
   NUMBER get_number([[maybe_unused]] const void *_p) const noexcept {
+    if (length < sizeof(NUMBER))
+      return INTERNAL::get_incomplete_double<_endian>(data(_p), length);
     return INTERNAL::get_double<_endian>(data(_p));
   }
 
diff --git a/src/types.hpp b/src/types.hpp
index 5d39160..b2794f1 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -140,6 +140,16 @@ inline double get_incomplete_double(const uint8_t *_buf) noexcept {
   return get_double<_endian>(buf);
 }
 
+/// Number stored on fewer than 8 bytes
+template <Endian _endian>
+inline double get_incomplete_double(const uint8_t *_buf,
+                                    const size_t _nbytes) noexcept {
+  uint8_t buf[sizeof(double)] = {};
+  const size_t offset = _endian == Endian::big ? 0 : sizeof(double) - _nbytes;
+  std::memcpy(buf + offset, _buf, _nbytes);
+  return get_double<_endian>(buf);
+}
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-- 
2.43.0


From f372a99f102e7fc2d158a9a508fa94d3dcdf5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 06/25] fix: texts of dates and times no longer read past a
 fixed buffer

---
 src/types.cpp | 46 ++++++++++++----------------------------------
 1 file changed, 12 insertions(+), 34 deletions(-)

diff --git a/src/types.cpp b/src/types.cpp
index b77f595..760f003 100644
--- a/src/types.cpp
+++ b/src/types.cpp
@@ -13,48 +13,26 @@
 namespace cppsas7bdat {
 
 std::string to_string(DATETIME _x) {
-  char szBuffer[32];
-  size_t size{0};
   const auto d = _x.date();
   const auto t = _x.time_of_day();
-  if (t.fractional_seconds()) {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer),
-                              "{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}",
-                              d.year(), d.month(), d.day(), t.hours(),
-                              t.minutes(), t.seconds(), t.fractional_seconds());
-    size = r.size;
-  } else {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02} {:02}:{:02}:{:02}",
-        d.year(), d.month(), d.day(), t.hours(), t.minutes(), t.seconds());
-    size = r.size;
-  }
-  return std::string(szBuffer, size);
+  if (t.fractional_seconds())
+    return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}.{:06}", d.year(),
+                       d.month(), d.day(), t.hours(), t.minutes(), t.seconds(),
+                       t.fractional_seconds());
+  return fmt::format("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", d.year(), d.month(),
+                     d.day(), t.hours(), t.minutes(), t.seconds());
 }
 
 std::string to_string(DATE _x) {
-  char szBuffer[16];
-  size_t size{0};
-  auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:04}-{:02}-{:02}",
-                            _x.year(), _x.month(), _x.day());
-  size = r.size;
-  return std::string(szBuffer, size);
+  return fmt::format("{:04}-{:02}-{:02}", _x.year(), _x.month(), _x.day());
 }
 
 std::string to_string(TIME _x) {
-  char szBuffer[16];
-  size_t size{0};
-  if (_x.fractional_seconds()) {
-    auto r = fmt::format_to_n(
-        szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}.{:06}", _x.hours(),
-        _x.minutes(), _x.seconds(), _x.fractional_seconds());
-    size = r.size;
-  } else {
-    auto r = fmt::format_to_n(szBuffer, sizeof(szBuffer), "{:02}:{:02}:{:02}",
-                              _x.hours(), _x.minutes(), _x.seconds());
-    size = r.size;
-  }
-  return std::string(szBuffer, size);
+  if (_x.fractional_seconds())
+    return fmt::format("{:02}:{:02}:{:02}.{:06}", _x.hours(), _x.minutes(),
+                       _x.seconds(), _x.fractional_seconds());
+  return fmt::format("{:02}:{:02}:{:02}", _x.hours(), _x.minutes(),
+                     _x.seconds());
 }
 
 std::string_view to_string(const Endian _x) {
-- 
2.43.0


From 54ec48566dbecd0ed498805c5a9df1cbe56bf68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 07/25] fix: print sink does not use column names as format
 strings

---
 include/cppsas7bdat/sink/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/print.hpp b/include/cppsas7bdat/sink/print.hpp
index 41f861d..5f13c7f 100644
--- a/include/cppsas7bdat/sink/print.hpp
+++ b/include/cppsas7bdat/sink/print.hpp
@@ -67,7 +67,7 @@ struct print {
     fmt::print(os, "#");
     for (const auto &column : columns) {
       fmt::print(os, ",");
-      fmt::print(os, column.name);
+      fmt::print(os, "{}", column.name);
     }
     fmt::print(os, "\n");
   }
-- 
2.43.0


From 9f8ab0c5d399c93637ba8f850f062de2d9f32cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 08/25] fix: the text of a missing date, datetime or time is
 empty instead of an exception

---
 src/formatters.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/formatters.hpp b/src/formatters.hpp
index f87a653..a781745 100644
--- a/src/formatters.hpp
+++ b/src/formatters.hpp
@@ -156,8 +156,9 @@ struct DateTimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_datetime(
-        _p)); // boost::posix_time::to_iso_extended_string(get_datetime(_p));
+    const auto x = get_datetime(_p);
+    // A missing value has no text
+    return x.is_special() ? STRING() : cppsas7bdat::to_string(x);
   }
 };
 
@@ -180,8 +181,9 @@ struct DateFormatter : public DoubleFormatter<_endian> {
   TIME get_time([[maybe_unused]] const void *_p) const noexcept { return {}; }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(get_date(
-        _p)); // boost::gregorian::to_iso_extended_string(get_date(_p));
+    const auto x = get_date(_p);
+    // A missing value has no text
+    return x.is_special() ? STRING() : cppsas7bdat::to_string(x);
   }
 };
 
@@ -202,8 +204,9 @@ struct TimeFormatter : public DoubleFormatter<_endian> {
   }
 
   STRING to_string(const void *_p) const {
-    return cppsas7bdat::to_string(
-        get_time(_p)); // boost::posix_time::to_simple_string(get_time(_p));
+    const auto x = get_time(_p);
+    // A missing value has no text
+    return x.is_special() ? STRING() : cppsas7bdat::to_string(x);
   }
 };
 
-- 
2.43.0


From 637b7325d4ffbe2463fd9302c660f1d96849a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 09/25] fix: dates outside of the calendar read as missing
 instead of overflowing

---
 src/types.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/types.hpp b/src/types.hpp
index b2794f1..67b5d5c 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -150,14 +150,20 @@ inline double get_incomplete_double(const uint8_t *_buf,
   return get_double<_endian>(buf);
 }
 
+/// Days since 1960-01-01 that boost can represent: 1400-01-01 to 9999-12-31
+constexpr double first_day{-204535};
+constexpr double last_day{2936549};
+
 inline DATETIME get_datetime_from_epoch(double _seconds) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_seconds))
-    return not_a_date_time;
-  ptime start(boost::gregorian::date(1960, 1, 1));
   // Increase accuracy by splitting in days/seconds/microseconds
   constexpr double seconds_in_a_day{24 * 60 * 60};
+  // Missing, or outside of the calendar
+  if (!(_seconds >= first_day * seconds_in_a_day &&
+        _seconds < (last_day + 1) * seconds_in_a_day))
+    return not_a_date_time;
+  ptime start(boost::gregorian::date(1960, 1, 1));
   const auto _days = std::round(_seconds / seconds_in_a_day);
   _seconds -= _days * seconds_in_a_day;
   const auto _secs = std::round(_seconds);
@@ -177,7 +183,8 @@ inline DATE get_date_from_epoch_seconds(const double _seconds) noexcept {
 inline DATE get_date_from_epoch_days(const double _days) noexcept {
   using namespace boost::posix_time;
   using namespace boost::gregorian;
-  if (std::isnan(_days))
+  // Missing, or outside of the calendar
+  if (!(_days >= first_day && _days < last_day + 0.5))
     return DATE(not_a_date_time);
   ptime start(boost::gregorian::date(1960, 1, 1));
   return (start + days(std::lround(_days))).date();
-- 
2.43.0


From 1e3a05b465200eee33213e614e26e33ead576dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 10/25] fix: names, labels and header texts keep their
 non-ASCII characters

---
 src/metadata.hpp | 9 +++++----
 src/types.hpp    | 7 ++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 4779fca..124e40a 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -314,13 +314,14 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
-      if (_length && std::isprint(ct[_offset])) {
-        while (_length && std::isspace(ct[_offset])) {
+      auto at = [&](const size_t _i) { return static_cast<uint8_t>(ct[_i]); };
+      if (_length && is_printable(at(_offset))) {
+        while (_length && std::isspace(at(_offset))) {
           ++_offset;
           --_length;
         }
-        while (_length && (!std::isprint(ct[_offset + _length - 1]) ||
-                           std::isspace(ct[_offset + _length - 1]))) {
+        while (_length && (!is_printable(at(_offset + _length - 1)) ||
+                           std::isspace(at(_offset + _length - 1)))) {
           --_length;
         }
         return ct.substr(_offset, _length);
diff --git a/src/types.hpp b/src/types.hpp
index 67b5d5c..a9a3373 100644
--- a/src/types.hpp
+++ b/src/types.hpp
@@ -33,6 +33,11 @@ inline std::string_view get_string_trim_0(const uint8_t *_buf,
   return get_string(_buf, _length);
 }
 
+/// Printable, or a byte of a character outside of ASCII
+inline bool is_printable(const uint8_t _c) noexcept {
+  return _c >= 0x80 || std::isprint(_c);
+}
+
 inline std::string_view get_string_trim(const uint8_t *_buf,
                                         size_t _length) noexcept {
   size_t offset = 0;
@@ -40,7 +45,7 @@ inline std::string_view get_string_trim(const uint8_t *_buf,
     ++offset;
     --_length;
   }
-  while (_length && (!std::isprint(_buf[offset + _length - 1]) ||
+  while (_length && (!is_printable(_buf[offset + _length - 1]) ||
                      std::isspace(_buf[offset + _length - 1]))) {
     --_length;
   }
-- 
2.43.0


From fdc54a04b36d3951d36e9fef617867659f6b07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 11/25] fix: a compressed row is never taken for a metadata
 subheader

---
 src/metadata.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 124e40a..28b9aea 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -161,9 +161,12 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
 
   bool process_subheader(const PAGE_SUBHEADER &_subheader,
                          Properties::Metadata *_metadata) {
-    // Too short to hold a signature? Then it can only be a row.
-    if (_subheader.length < integer_size) {
-      if (!DataSubHeader::check(_metadata, _subheader))
+    const bool may_be_row = DataSubHeader::check(_metadata, _subheader);
+    // A compressed row (whatever its bytes look like), or too short to hold a
+    // signature? Then it can only be a row.
+    if ((may_be_row && _subheader.compression == COMPRESSED_SUBHEADER_ID) ||
+        _subheader.length < integer_size) {
+      if (!may_be_row)
         return false;
       process_DATA_SUBHEADER(_subheader);
       return true;
@@ -204,7 +207,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
       return false;
     }
 
-    if (DataSubHeader::check(_metadata, _subheader)) {
+    if (may_be_row) {
       process_DATA_SUBHEADER(_subheader);
       return true;
     }
-- 
2.43.0


From 7a04b1b22c67a946795afcff9ed4cca862cecd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 12/25] fix: the csv command writes next to its input instead
 of over it

---
 apps/cppsas7bdat-ci.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apps/cppsas7bdat-ci.cpp b/apps/cppsas7bdat-ci.cpp
index edb0dce..30ad4c1 100644
--- a/apps/cppsas7bdat-ci.cpp
+++ b/apps/cppsas7bdat-ci.cpp
@@ -13,6 +13,7 @@
 #include <cppsas7bdat/sink/csv.hpp>
 #include <cppsas7bdat/sink/null.hpp>
 #include <docopt/docopt.h>
+#include <filesystem>
 
 namespace {
   static constexpr auto USAGE =
@@ -42,11 +43,11 @@ void process_print(const std::string& _filename, long _n)
 
 std::string get_csv_filename(const std::string& _filename)
 {
-  auto ipos = _filename.rfind('.');
-  if(ipos != _filename.npos) {
-    return _filename.substr(0, ipos+1) + "csv";
-  }
-  return _filename + "csv";
+  auto csv_filename = std::filesystem::path(_filename).replace_extension(".csv").string();
+  // Never write over the file that is read
+  if(csv_filename == _filename)
+    csv_filename += ".csv";
+  return csv_filename;
 }
 
 void process_csv(const std::string& _filename)
@@ -54,7 +55,7 @@ void process_csv(const std::string& _filename)
   const auto csv_filename = get_csv_filename(_filename);
   //std::ofstream csv_os(csv_filename.c_str());
   //cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_os));
-  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(_filename.c_str()));
+  cppsas7bdat::Reader reader(cppsas7bdat::datasource::ifstream(_filename.c_str()), cppsas7bdat::datasink::csv(csv_filename.c_str()));
   reader.read_all();
 }
 
-- 
2.43.0


From 25f60061984e7ef8438af3d4bce77ea5e1aa708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 13/25] fix: a moved csv file sink writes to its own stream

---
 include/cppsas7bdat/sink/csv.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 91dfc2b..0c5d604 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -91,6 +91,10 @@ struct _ofstream {
 struct csv_ofstream : public _ofstream, public csv {
   explicit csv_ofstream(const char *_pcszfilename)
       : _ofstream(_pcszfilename), csv(ofs) {}
+  // The stream of a csv sink has to be its own
+  csv_ofstream(csv_ofstream &&_rhs) : _ofstream(std::move(_rhs)), csv(ofs) {
+    columns = std::move(_rhs.columns);
+  }
 };
 
 } // namespace detail
-- 
2.43.0


From 049c9167c338fec343becb1a688ee40a47acd68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 14/25] fix: a csv file that cannot be written is reported

---
 include/cppsas7bdat/sink/csv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index 0c5d604..a947108 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -85,7 +85,10 @@ struct csv {
 struct _ofstream {
   std::ofstream ofs;
 
-  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {}
+  explicit _ofstream(const char *_pcszfilename) : ofs(_pcszfilename) {
+    // A file that cannot be written is an error
+    ofs.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+  }
 };
 
 struct csv_ofstream : public _ofstream, public csv {
@@ -95,6 +98,8 @@ struct csv_ofstream : public _ofstream, public csv {
   csv_ofstream(csv_ofstream &&_rhs) : _ofstream(std::move(_rhs)), csv(ofs) {
     columns = std::move(_rhs.columns);
   }
+
+  void end_of_data() { ofs.flush(); }
 };
 
 } // namespace detail
-- 
2.43.0


From 7b7a8ef0a337d153eeeedecdc26712f0b18ede85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 15/25] fix: the global locale does not change the csv text

---
 include/cppsas7bdat/sink/csv.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/cppsas7bdat/sink/csv.hpp b/include/cppsas7bdat/sink/csv.hpp
index a947108..a1d25a7 100644
--- a/include/cppsas7bdat/sink/csv.hpp
+++ b/include/cppsas7bdat/sink/csv.hpp
@@ -14,6 +14,8 @@
 #include <fmt/ostream.h>
 #include <fstream>
 #include <iostream>
+#include <locale>
+#include <sstream>
 
 namespace cppsas7bdat {
 namespace datasink {
@@ -77,9 +79,17 @@ struct csv {
       fmt::print(os, "{}", _x);
   }
   void print(const INTEGER _x) { fmt::print(os, "{}", _x); }
-  void print(const DATETIME _x) { fmt::print(os, "{}", _x); }
-  void print(const DATE _x) { fmt::print(os, "{}", _x); }
-  void print(const TIME _x) { fmt::print(os, "{}", _x); }
+  void print(const DATETIME _x) { print_classic(_x); }
+  void print(const DATE _x) { print_classic(_x); }
+  void print(const TIME _x) { print_classic(_x); }
+
+  // A decimal comma of the global locale would be one more separator
+  template <typename _Tp> void print_classic(const _Tp &_x) {
+    std::ostringstream oss;
+    oss.imbue(std::locale::classic());
+    oss << _x;
+    fmt::print(os, "{}", oss.str());
+  }
 };
 
 struct _ofstream {
-- 
2.43.0


From fb62577c4e2356523dcfd148bb3c21db2297766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 16/25] fix: python: a chunk starts at the first row it holds

---
 python/pycppsas7bdat/cpp/sink.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 2782f5d..74b9be3 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -262,6 +262,8 @@ struct SinkChunk : public SinkBase {
         [](const cppsas7bdat::Column &column, cppsas7bdat::Column::PBUF _p) {
           return to_str(column.get_string(_p));
         });
+    if (idata == 0)
+      istartrow = _irow;
     iendrow = _irow;
     ++idata;
     if (idata == size)
@@ -378,7 +380,6 @@ struct SinkChunk : public SinkBase {
 
   void clear_values() {
     idata = 0;
-    istartrow = iendrow + 1;
     clear_values(col_numbers);
     clear_values(col_integers);
     clear_values(col_datetimes);
-- 
2.43.0


From b92b433d826095b4cf74f3eff8e47f00194f939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 17/25] fix: python: a sink is not left with a reference to a
 reader's data after its end

---
 python/pycppsas7bdat/cpp/sink.hpp | 32 +++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 74b9be3..827fc4f 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -33,19 +33,38 @@ struct SinkBase : public boost::noncopyable {
 
   SinkBase(PyObject *_self) : self(_self) { Py_INCREF(self); }
   ~SinkBase() {
-    if (self)
-      Py_DECREF(self);
+    del_cpp_attr();
+    Py_XDECREF(self);
+  }
+  SinkBase(SinkBase &&_rhs) noexcept : self(_rhs.self), cpp(_rhs.cpp) {
+    _rhs.self = nullptr;
+    _rhs.cpp = nullptr;
   }
-  SinkBase(SinkBase &&_rhs) noexcept : self(_rhs.self) { _rhs.self = nullptr; }
 
   void set_cpp_attr() {
     // std::cerr << "SinkBase:: set_cpp_attr(" << this << ")" << std::endl;
     boost::python::object value(boost::ref(*this));
-    PyObject *po = boost::python::incref(value.ptr());
-    PyObject_SetAttrString(self, "_cpp", po);
+    if (PyObject_SetAttrString(self, "_cpp", value.ptr()) < 0)
+      PyErr_Clear();
+    else
+      cpp = boost::python::incref(value.ptr());
   }
 
-  void del_cpp_attr() { PyObject_DelAttrString(self, "_cpp"); }
+  /// Remove the reference to this sink from the python object, if it is still
+  /// there; a pending python exception is kept.
+  void del_cpp_attr() {
+    if (!cpp)
+      return;
+    PyObject *type, *value, *traceback;
+    PyErr_Fetch(&type, &value, &traceback);
+    PyObject *current = PyObject_GetAttrString(self, "_cpp");
+    if (current == cpp)
+      PyObject_DelAttrString(self, "_cpp");
+    PyErr_Clear();
+    Py_XDECREF(current);
+    Py_CLEAR(cpp);
+    PyErr_Restore(type, value, traceback);
+  }
 
   void set_properties([
       [maybe_unused]] const cppsas7bdat::Properties &_properties) {
@@ -75,6 +94,7 @@ struct SinkBase : public boost::noncopyable {
 
 protected:
   PyObject *self;
+  PyObject *cpp{nullptr}; ///< value of the attribute _cpp
 };
 
 struct Sink : public SinkBase {
-- 
2.43.0


From a5aeb09ae7baf1ad43f869b41cd757c22d5eeb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 18/25] fix: python: the properties of a reader keep it alive

---
 python/pycppsas7bdat/cpp/reader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index 2dc87a2..c5f9e01 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -95,8 +95,7 @@ void bind_reader() {
                                          arg("include") = object(),
                                          arg("exclude") = object())))
       .add_property("current_row_index", &Reader::current_row_index)
-      .def("properties", &Reader::properties,
-           return_value_policy<reference_existing_object>())
+      .def("properties", &Reader::properties, return_internal_reference<>())
       .def("read_all", &Reader::read_all)
       .def("read_row", &Reader::read_row)
       .def("read_rows", &Reader::read_rows)
-- 
2.43.0


From 7ceb27fd6e69522710b227901a2d85ea6d9f5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 19/25] fix: python: missing dates and times own their
 reference to None

---
 python/pycppsas7bdat/cpp/import_datetime.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pycppsas7bdat/cpp/import_datetime.cpp b/python/pycppsas7bdat/cpp/import_datetime.cpp
index 85b55f4..215c9f2 100644
--- a/python/pycppsas7bdat/cpp/import_datetime.cpp
+++ b/python/pycppsas7bdat/cpp/import_datetime.cpp
@@ -34,7 +34,7 @@ static long get_usecs(boost::posix_time::time_duration const &d) {
 struct ptime_to_python_datetime {
   static PyObject *convert(boost::posix_time::ptime const &pt) {
     if (pt.is_not_a_date_time())
-      return Py_None;
+      Py_RETURN_NONE;
     const boost::gregorian::date date = pt.date();
     const boost::posix_time::time_duration td = pt.time_of_day();
     return PyDateTime_FromDateAndTime((int)date.year(), (int)date.month(),
@@ -88,7 +88,7 @@ struct ptime_from_python_datetime {
 struct tduration_to_python_delta {
   static PyObject *convert(boost::posix_time::time_duration d) {
     if (d.is_not_a_date_time())
-      return Py_None;
+      Py_RETURN_NONE;
     long hours = d.hours();
     long days = hours / 24;
     if (days == 0) {
@@ -154,7 +154,7 @@ struct tduration_from_python_delta {
 struct gregorian_date_to_python_date {
   static PyObject *convert(boost::gregorian::date const &date) {
     if (date.is_not_a_date())
-      return Py_None;
+      Py_RETURN_NONE;
     return PyDate_FromDate((int)date.year(), (int)date.month(),
                            (int)date.day());
   }
-- 
2.43.0


From bb2b527135f241a6fc5de36654a07316fdd6f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 20/25] fix: python: names, labels and header texts that are
 not UTF-8 can be read

---
 python/pycppsas7bdat/cpp/pycppsas7bdat.cpp | 67 +++++++++++++++-------
 python/pycppsas7bdat/cpp/reader.cpp        |  2 +-
 python/pycppsas7bdat/cpp/sink.hpp          |  5 +-
 python/pycppsas7bdat/cpp/text.hpp          | 34 +++++++++++
 4 files changed, 85 insertions(+), 23 deletions(-)
 create mode 100644 python/pycppsas7bdat/cpp/text.hpp

diff --git a/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp b/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp
index 044ae10..1d57261 100644
--- a/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp
+++ b/python/pycppsas7bdat/cpp/pycppsas7bdat.cpp
@@ -12,11 +12,13 @@
 #include <cppsas7bdat/version.hpp>
 #include "import_datetime.hpp"
 #include "reader.hpp"
+#include "text.hpp"
 // clang-format on
 
 namespace pycppsas7bdat {
-inline PyObject *to_python(const std::string &x) {
-  return PyUnicode_FromStringAndSize(x.c_str(), x.length());
+template <typename _Tp, auto _member>
+boost::python::object get_text(const _Tp &x) {
+  return text_to_python(x.*_member);
 }
 } // namespace pycppsas7bdat
 
@@ -53,9 +55,15 @@ BOOST_PYTHON_MODULE(cpp) {
       .value("date", cppsas7bdat::Column::Type::date)
       .value("time", cppsas7bdat::Column::Type::time);
   class_<cppsas7bdat::Column, boost::noncopyable>("Column", no_init)
-      .def_readonly("name", &cppsas7bdat::Column::name)
-      .def_readonly("format", &cppsas7bdat::Column::format)
-      .def_readonly("label", &cppsas7bdat::Column::label)
+      .add_property("name",
+                    &pycppsas7bdat::get_text<cppsas7bdat::Column,
+                                             &cppsas7bdat::Column::name>)
+      .add_property("format",
+                    &pycppsas7bdat::get_text<cppsas7bdat::Column,
+                                             &cppsas7bdat::Column::format>)
+      .add_property("label",
+                    &pycppsas7bdat::get_text<cppsas7bdat::Column,
+                                             &cppsas7bdat::Column::label>)
       .def_readonly("type", &cppsas7bdat::Column::type);
   class_<std::vector<cppsas7bdat::Column, std::allocator<cppsas7bdat::Column>>,
          boost::noncopyable>("Columns", no_init)
@@ -80,18 +88,32 @@ BOOST_PYTHON_MODULE(cpp) {
                     &cppsas7bdat::Properties /*::Header*/ ::platform)
       .add_property("date_created", &properties::get_date_created)
       .add_property("date_modified", &properties::get_date_modified)
-      .def_readonly("dataset_name",
-                    &cppsas7bdat::Properties /*::Header*/ ::dataset_name)
-      .def_readonly("encoding",
-                    &cppsas7bdat::Properties /*::Header*/ ::encoding)
-      .def_readonly("file_type",
-                    &cppsas7bdat::Properties /*::Header*/ ::file_type)
-      .def_readonly("sas_release",
-                    &cppsas7bdat::Properties /*::Header*/ ::sas_release)
-      .def_readonly("sas_server_type",
-                    &cppsas7bdat::Properties /*::Header*/ ::sas_server_type)
-      .def_readonly("os_type", &cppsas7bdat::Properties /*::Header*/ ::os_type)
-      .def_readonly("os_name", &cppsas7bdat::Properties /*::Header*/ ::os_name)
+      .add_property(
+          "dataset_name",
+          &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                   &cppsas7bdat::Properties::dataset_name>)
+      .add_property(
+          "encoding",
+          &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                   &cppsas7bdat::Properties::encoding>)
+      .add_property(
+          "file_type",
+          &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                   &cppsas7bdat::Properties::file_type>)
+      .add_property(
+          "sas_release",
+          &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                   &cppsas7bdat::Properties::sas_release>)
+      .add_property(
+          "sas_server_type",
+          &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                   &cppsas7bdat::Properties::sas_server_type>)
+      .add_property("os_type",
+                    &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                             &cppsas7bdat::Properties::os_type>)
+      .add_property("os_name",
+                    &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                             &cppsas7bdat::Properties::os_name>)
       .def_readonly("header_length",
                     &cppsas7bdat::Properties /*::Header*/ ::header_length)
       .def_readonly("page_length",
@@ -100,10 +122,13 @@ BOOST_PYTHON_MODULE(cpp) {
                     &cppsas7bdat::Properties /*::Header*/ ::page_count)
       .def_readonly("compression",
                     &cppsas7bdat::Properties /*::Metadata*/ ::compression)
-      .def_readonly("creator",
-                    &cppsas7bdat::Properties /*::Metadata*/ ::creator)
-      .def_readonly("creator_proc",
-                    &cppsas7bdat::Properties /*::Metadata*/ ::creator_proc)
+      .add_property("creator",
+                    &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                             &cppsas7bdat::Properties::creator>)
+      .add_property(
+          "creator_proc",
+          &pycppsas7bdat::get_text<cppsas7bdat::Properties,
+                                   &cppsas7bdat::Properties::creator_proc>)
       .def_readonly("row_length",
                     &cppsas7bdat::Properties /*::Metadata*/ ::row_length)
       .def_readonly("row_count",
diff --git a/python/pycppsas7bdat/cpp/reader.cpp b/python/pycppsas7bdat/cpp/reader.cpp
index c5f9e01..5b82f29 100644
--- a/python/pycppsas7bdat/cpp/reader.cpp
+++ b/python/pycppsas7bdat/cpp/reader.cpp
@@ -36,7 +36,7 @@ struct Reader : public cppsas7bdat::Reader {
       for (int i = 0; i < n; ++i) {
         auto item = PyList_GetItem(_object, i);
         try {
-          _set.insert(boost::python::extract<std::string>(item));
+          _set.insert(text_from_python(item));
         } catch (...) {
           throw std::runtime_error(
               fmt::format("Element of {} argument is not a string", _context));
diff --git a/python/pycppsas7bdat/cpp/sink.hpp b/python/pycppsas7bdat/cpp/sink.hpp
index 827fc4f..a30ca19 100644
--- a/python/pycppsas7bdat/cpp/sink.hpp
+++ b/python/pycppsas7bdat/cpp/sink.hpp
@@ -13,6 +13,8 @@
 #include <boost/python/numpy.hpp>
 #include <boost/python/suite/indexing/vector_indexing_suite.hpp>
 
+#include "text.hpp"
+
 using namespace boost::python;
 
 namespace pycppsas7bdat {
@@ -351,7 +353,8 @@ struct SinkChunk : public SinkBase {
                               _Values &_values, _Fct _fct) {
     const size_t ncols = _columns.size();
     for (size_t icol = 0; icol < ncols; ++icol) {
-      _d[_columns[icol].name] = _fct(_columns[icol], _values[icol]);
+      _d[text_to_python(_columns[icol].name)] =
+          _fct(_columns[icol], _values[icol]);
     }
   }
 
diff --git a/python/pycppsas7bdat/cpp/text.hpp b/python/pycppsas7bdat/cpp/text.hpp
new file mode 100644
index 0000000..fb5630b
--- /dev/null
+++ b/python/pycppsas7bdat/cpp/text.hpp
@@ -0,0 +1,34 @@
+/**
+ *  \file python/pycppsas7bdat/cpp/text.hpp
+ *
+ *  \brief Python/C++ conversion of the texts of the properties
+ *
+ *  The texts are in the encoding of the file: the bytes that are not valid
+ *  UTF-8 are kept as surrogates (PEP 383).
+ */
+
+#ifndef _PYCPP_SAS7BDAT_TEXT_HPP_
+#define _PYCPP_SAS7BDAT_TEXT_HPP_
+
+#include <boost/python.hpp>
+#include <string>
+
+namespace pycppsas7bdat {
+
+inline boost::python::object text_to_python(const std::string &_x) {
+  return boost::python::object(boost::python::handle<>(
+      PyUnicode_DecodeUTF8(_x.data(), _x.size(), "surrogateescape")));
+}
+
+inline std::string text_from_python(PyObject *_o) {
+  if (!PyUnicode_Check(_o))
+    return boost::python::extract<std::string>(_o);
+  boost::python::handle<> bytes(
+      PyUnicode_AsEncodedString(_o, "utf-8", "surrogateescape"));
+  return std::string(PyBytes_AS_STRING(bytes.get()),
+                     PyBytes_GET_SIZE(bytes.get()));
+}
+
+} // namespace pycppsas7bdat
+
+#endif
-- 
2.43.0


From bc1e8971f7bb706f700d514408df92fbd9d73152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 21/25] fix: R: the rows handed to a sink stay as they are

---
 R/CPPSAS7BDAT/src/sink.hpp            |  5 +++--
 R/CPPSAS7BDAT/src/sink_by_columns.hpp | 23 +++++++++++++++--------
 R/CPPSAS7BDAT/src/sink_chunk.hpp      | 17 +++--------------
 R/CPPSAS7BDAT/src/sink_data.hpp       |  3 +--
 4 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/sink.hpp b/R/CPPSAS7BDAT/src/sink.hpp
index 8e17e2e..1e6953c 100644
--- a/R/CPPSAS7BDAT/src/sink.hpp
+++ b/R/CPPSAS7BDAT/src/sink.hpp
@@ -62,6 +62,9 @@ struct Sink : public SinkBase {
   void push_row([[maybe_unused]] const size_t _irow,
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     const size_t ncols = columns.size();
+    // A new list for each row: the sink may keep the previous ones
+    row = Rcpp::List(ncols);
+    row.names() = col_names;
     for (size_t icol = 0; icol < ncols; ++icol) {
       const auto &column = columns[icol];
       switch (column.type) {
@@ -97,8 +100,6 @@ protected:
     for (size_t icol = 0; icol < ncols; ++icol) {
       col_names[icol] = columns[icol].name;
     }
-    row = Rcpp::List(ncols);
-    row.names() = col_names;
   }
 
   cppsas7bdat::COLUMNS columns;
diff --git a/R/CPPSAS7BDAT/src/sink_by_columns.hpp b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
index 4b44bb4..688e5bc 100644
--- a/R/CPPSAS7BDAT/src/sink_by_columns.hpp
+++ b/R/CPPSAS7BDAT/src/sink_by_columns.hpp
@@ -162,12 +162,16 @@ protected:
     return v;
   }
 
-  void set_values() {
+  /// Give the rows to an R function, and continue with new vectors as the
+  /// function may keep the ones it receives.
+  void give_rows(const Function &_f) {
     size_t icol = {0};
+    Rcpp::List rows(col_names.size());
+    rows.names() = col_names;
 
     auto set_values = [&](const auto &_columns) {
       for (const auto &column : _columns) {
-        if (idata != column.size()) {
+        if (idata != (size_t)column.size()) {
           rows[icol++] = resize_vector(column, idata);
         } else {
           rows[icol++] = column;
@@ -175,14 +179,21 @@ protected:
       }
     };
 
-    if (row_index.size() != idata)
-      row_index = resize_vector(row_index, idata);
     set_values(col_numbers);
     set_values(col_integers);
     set_values(col_datetimes);
     set_values(col_dates);
     set_values(col_times);
     set_values(col_strings);
+
+    const COL_INTEGERS rows_index = (size_t)row_index.size() == idata
+                                        ? row_index
+                                        : resize_vector(row_index, idata);
+    const size_t inextrow = rows_index[idata - 1] + 1;
+    const size_t nrows = ilastrow > inextrow ? ilastrow - inextrow : 0;
+    idata = 0;
+    prepare_values(size ? std::min(size, nrows) : nrows);
+    _f(rows_index, rows);
   }
 
   void setup_col_names() {
@@ -197,14 +208,10 @@ protected:
     add_col_name(columns.dates);
     add_col_name(columns.times);
     add_col_name(columns.strings);
-
-    rows = Rcpp::List(col_names.size());
-    rows.names() = col_names;
   }
 
   cppsas7bdat::Columns columns;
   Rcpp::StringVector col_names;
-  Rcpp::List rows;
 };
 
 } // namespace Rcppsas7bdat
diff --git a/R/CPPSAS7BDAT/src/sink_chunk.hpp b/R/CPPSAS7BDAT/src/sink_chunk.hpp
index e61652c..b7dea7b 100644
--- a/R/CPPSAS7BDAT/src/sink_chunk.hpp
+++ b/R/CPPSAS7BDAT/src/sink_chunk.hpp
@@ -14,8 +14,6 @@
 namespace Rcppsas7bdat {
 
 struct SinkChunk : public SinkByColumns {
-  size_t istartrow{0}, iendrow{0};
-
   explicit SinkChunk(Environment _sink, const size_t _size)
       : SinkByColumns(_sink, _size), f_push_rows(sink["push_rows"]) {}
 
@@ -23,25 +21,16 @@ struct SinkChunk : public SinkByColumns {
                 [[maybe_unused]] cppsas7bdat::Column::PBUF _p) {
     SinkByColumns::push_row(_irow, _p);
 
-    iendrow = _irow;
-    if (idata == size) {
+    if (idata == size)
       flush();
-      // Check if the were starting the last chunk => resize to a smaller chunk
-      if (istartrow + size > ilastrow && istartrow < ilastrow) {
-        prepare_values(ilastrow - istartrow);
-      }
-    }
   }
 
   void end_of_data() { flush(); }
 
   void flush() {
-    if (istartrow > iendrow || idata == 0)
+    if (idata == 0)
       return;
-    SinkByColumns::set_values();
-    f_push_rows(row_index, rows);
-    idata = 0;
-    istartrow = iendrow + 1;
+    SinkByColumns::give_rows(f_push_rows);
   }
 
 protected:
diff --git a/R/CPPSAS7BDAT/src/sink_data.hpp b/R/CPPSAS7BDAT/src/sink_data.hpp
index f33b6ad..adebd1d 100644
--- a/R/CPPSAS7BDAT/src/sink_data.hpp
+++ b/R/CPPSAS7BDAT/src/sink_data.hpp
@@ -22,8 +22,7 @@ struct SinkData : public SinkByColumns {
   void flush() {
     if (idata == 0)
       return;
-    SinkByColumns::set_values();
-    f_set_data(row_index, rows);
+    SinkByColumns::give_rows(f_set_data);
   }
 
 protected:
-- 
2.43.0


From 5cfb44831b70c0c13c411fb8a213633edf964eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 22/25] fix: R: the sinks find their columns in the properties

---
 R/CPPSAS7BDAT/R/sink.R | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 318b96c..5141060 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -13,8 +13,8 @@ SinkByRow <- R6Class("SinkByRow",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
-	    self$df = data.frame(matrix(NA, nrow=properties$metadata$row_count, ncol=properties$metadata$column_count))
+	    self$columns = names(properties$columns);
+	    self$df = data.frame(matrix(NA, nrow=properties$row_count, ncol=length(self$columns)))
 	    names(self$df) = self$columns
     },
     push_row = function(irow, row) {
@@ -36,10 +36,10 @@ SinkByChunk <- R6Class("SinkByChunk",
     },
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     push_rows = function(row_index, rows) {
-	    rows <- as.data.frame(rows);
+	    rows <- as.data.frame(rows, optional=TRUE);
 	    if(is.null(self$df)) { self$df=rows; }
 	    else { self$df = rbind(self$df, rows); }
     }
@@ -54,7 +54,7 @@ SinkWholeData <- R6Class("SinkWholeData",
     initialize = function() {},
     set_properties = function(properties) {
 	    self$properties = properties;
-	    self$columns = names(properties$metadata$columns);
+	    self$columns = names(properties$columns);
     },
     set_data = function(row_index, data) {
 	    self$df <- data;
-- 
2.43.0


From 03deeec5a404e3a5892c93e1cabbd8bf34962221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 23/25] fix: R: a file without a valid creation date can be
 read

---
 R/CPPSAS7BDAT/src/wrap_properties.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/R/CPPSAS7BDAT/src/wrap_properties.hpp b/R/CPPSAS7BDAT/src/wrap_properties.hpp
index 36733f3..b738bbd 100644
--- a/R/CPPSAS7BDAT/src/wrap_properties.hpp
+++ b/R/CPPSAS7BDAT/src/wrap_properties.hpp
@@ -57,6 +57,10 @@ namespace Rcpp {
 SEXP wrap_properties(const cppsas7bdat::Properties &_properties) {
   using namespace cppsas7bdat;
 
+  auto to_text = [](const DATETIME _x) {
+    return _x.is_special() ? std::string() : to_string(_x);
+  };
+
   auto columns = [&_properties]() {
     const size_t ncols = _properties /*.metadata*/.columns.size();
     auto columns = Rcpp::List(ncols);
@@ -79,8 +83,8 @@ SEXP wrap_properties(const cppsas7bdat::Properties &_properties) {
       .add("endianness",
            std::string(to_string(_properties /*.header*/.endianness)))
       .add("platform", std::string(to_string(_properties /*.header*/.platform)))
-      .add("date_created", to_string(_properties /*.header*/.date_created))
-      .add("date_modified", to_string(_properties /*.header*/.date_modified))
+      .add("date_created", to_text(_properties /*.header*/.date_created))
+      .add("date_modified", to_text(_properties /*.header*/.date_modified))
       .add("dataset_name", _properties /*.header*/.dataset_name)
       .add("encoding", _properties /*.header*/.encoding)
       .add("file_type", _properties /*.header*/.file_type)
-- 
2.43.0


From 908be9fbeb6795f2eadbbcc08bf0ad0529f6b22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 24/25] fix: R: read_sas gives a data.frame

---
 R/CPPSAS7BDAT/R/sink.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/CPPSAS7BDAT/R/sink.R b/R/CPPSAS7BDAT/R/sink.R
index 5141060..ead7955 100644
--- a/R/CPPSAS7BDAT/R/sink.R
+++ b/R/CPPSAS7BDAT/R/sink.R
@@ -57,7 +57,7 @@ SinkWholeData <- R6Class("SinkWholeData",
 	    self$columns = names(properties$columns);
     },
     set_data = function(row_index, data) {
-	    self$df <- data;
+	    self$df <- as.data.frame(data, optional=TRUE);
     }
   )
 );
-- 
2.43.0


From e5d49907d7e26f11385475f8abb20b73007b597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 25/25] fix: do not copy all column texts and attributes for
 every column

Creating the columns of a data set copied whole vectors for each value, so
that the time taken grew with the square of the number of columns: a file
with 33000 columns took minutes and one with 66000 did not finish in any
reasonable time.
---
 src/metadata.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hpp b/src/metadata.hpp
index 28b9aea..0070a95 100644
--- a/src/metadata.hpp
+++ b/src/metadata.hpp
@@ -313,7 +313,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
   std::string get_column_text_substr(const size_t _idx, size_t _offset,
                                      size_t _length) const noexcept {
     if (_idx < column_texts.size()) {
-      const auto ct = column_texts[std::min(_idx, column_texts.size() - 1)];
+      const auto &ct = column_texts[std::min(_idx, column_texts.size() - 1)];
       const auto n = ct.size();
       _offset = std::min(_offset, n);
       _length = std::min(_length, n - _offset);
@@ -422,7 +422,7 @@ struct READ_METADATA : public READ_PAGE<_DataSource, _endian, _format>,
     const size_t ncols = _metadata->column_count;
     _metadata->columns.reserve(ncols);
 
-    auto get_value = [&](auto arg, auto vals, const size_t icol) {
+    auto get_value = [&](auto arg, const auto &vals, const size_t icol) {
       const auto n = std::min(ncols, vals.size());
       if (n != ncols)
         spdlog::info("Mismatch between the expected number of columns ({}) and "
-- 
2.43.0

