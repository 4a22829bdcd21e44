From 2dc487d4ab7e2d88c17e1a740f97eaf1ddae8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 01/92] fix: wake readers of the record stream a move
 assignment writes to

---
 src/jogasaki/udf/generic_record_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/udf/generic_record_impl.cpp b/src/jogasaki/udf/generic_record_impl.cpp
index dee1d8b..ce6c682 100644
--- a/src/jogasaki/udf/generic_record_impl.cpp
+++ b/src/jogasaki/udf/generic_record_impl.cpp
@@ -361,6 +361,7 @@ generic_record_stream_impl& generic_record_stream_impl::operator=(
         other.closed_ = true;
         other.eos_ = true;
     }
+    cv_.notify_all();
     other.cv_.notify_all();
     return *this;
 }
-- 
2.43.0


From 10a24379ca7e17c30466199adea3a48ed62ec691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 02/92] fix: keep UTF-8 boundary detection inside the given
 text

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 6 +++---
 src/jogasaki/utils/utf8_utils.cpp                           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 88ceaff..edc4581 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -989,19 +989,19 @@ static encoding_type detect_next_encoding(std::string_view view, const size_t of
     auto first            = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (view.size() >= 2 && is_continuation_byte(view[offset_2nd]))
+        return (view.size() - offset >= 2 && is_continuation_byte(view[offset_2nd]))
                    ? encoding_type::UTF8_2BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (view.size() >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (view.size() - offset >= 3 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (view.size() >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (view.size() - offset >= 4 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
diff --git a/src/jogasaki/utils/utf8_utils.cpp b/src/jogasaki/utils/utf8_utils.cpp
index 0e77961..3ef52fe 100644
--- a/src/jogasaki/utils/utf8_utils.cpp
+++ b/src/jogasaki/utils/utf8_utils.cpp
@@ -25,18 +25,18 @@ encoding_type detect_next_encoding(std::string_view view, const size_t offset) {
     const auto first      = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (size >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
+        return (size - offset >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
                                                                      : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (size >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (size - offset >= 3 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (size >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (size - offset >= 4 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 7c1db0c9e2a90ae8fe883f36b8faee9d7960d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 03/92] fix: do not underflow when subtracting more occurrences
 than a vector has

---
 src/jogasaki/utils/subtract_vectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/utils/subtract_vectors.h b/src/jogasaki/utils/subtract_vectors.h
index 8e68eac..7cc2e45 100644
--- a/src/jogasaki/utils/subtract_vectors.h
+++ b/src/jogasaki/utils/subtract_vectors.h
@@ -28,8 +28,8 @@ std::vector<T> subtract_vectors(std::vector<T> const& x, std::vector<T> const& y
         ++m[e];
     }
     for(auto&& e : y) {
-        if(m.count(e) > 0) {
-            --m[e];
+        if(auto it = m.find(e); it != m.end() && it->second > 0) {
+            --it->second;
         }
     }
     std::vector<T> ret{};
-- 
2.43.0


From ae06f2fc38ebed939c51c1fc036b9cf5644c51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 04/92] fix: round down to a power of two above 2^63 without
 overflow

---
 src/jogasaki/utils/round.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jogasaki/utils/round.h b/src/jogasaki/utils/round.h
index 4be5f24..8dbf6be 100644
--- a/src/jogasaki/utils/round.h
+++ b/src/jogasaki/utils/round.h
@@ -33,12 +33,11 @@ namespace jogasaki::utils {
         return 0;
     }
 
-    --v;
     for(std::size_t i = 1; i < sizeof(std::size_t) * bits_per_byte; i *= 2) {
         v |= v >> i;
     }
 
-    return static_cast<std::size_t>(v + 1) >> 1U;
+    return v - (v >> 1U);
 }
 
 [[nodiscard]] constexpr std::size_t round_up_to_power_of_two(std::size_t v) noexcept {
-- 
2.43.0


From 1bc582ffb77fe3f81c812e74e243fe83c47f931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 05/92] fix: include the additional text in the supplemental
 text of an error

---
 src/jogasaki/error/error_info.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/error/error_info.cpp b/src/jogasaki/error/error_info.cpp
index 2f33478..5b9ef26 100644
--- a/src/jogasaki/error/error_info.cpp
+++ b/src/jogasaki/error/error_info.cpp
@@ -98,6 +98,7 @@ std::string_view error_info::additional_text() const noexcept {
 
 void error_info::additional_text(std::string_view arg) noexcept {
     additional_text_ = arg;
+    supplemental_text_ = create_supplemental_text();
 }
 
 }
-- 
2.43.0


From 2992efdd3ebdd8bb4e60aaee6ccbcb9156718f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 06/92] fix: keep the supplemental text of an error when a part
 is not valid UTF-8

---
 src/jogasaki/error/error_info.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/error/error_info.cpp b/src/jogasaki/error/error_info.cpp
index 5b9ef26..3ec6868 100644
--- a/src/jogasaki/error/error_info.cpp
+++ b/src/jogasaki/error/error_info.cpp
@@ -53,7 +53,7 @@ std::string error_info::create_supplemental_text() noexcept {
         if(! stacks_.empty()) {
             j["stacktrace"] = stacks_;
         }
-        return j.dump();
+        return j.dump(-1, ' ', false, json::error_handler_t::replace);
     } catch (json::exception const& e) {
         VLOG_LP(log_error) << "json exception " << e.what();
     }
-- 
2.43.0


From 8af3162ccf8618862b53b7a1b5776970c5057581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 07/92] fix: refuse page allocations whose size overflows the
 page offset

---
 src/jogasaki/memory/details/page_allocation_info.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/memory/details/page_allocation_info.cpp b/src/jogasaki/memory/details/page_allocation_info.cpp
index f51a0eb..8402e90 100644
--- a/src/jogasaki/memory/details/page_allocation_info.cpp
+++ b/src/jogasaki/memory/details/page_allocation_info.cpp
@@ -36,11 +36,11 @@ void *page_allocation_info::try_allocate_back(std::size_t bytes, std::size_t ali
     auto ua_next = head + upper_bound_offset_;
     auto next = (ua_next + (alignment - 1)) / alignment * alignment;
     auto next_lower_offset = next - head; // inclusive
-    auto next_upper_offset = next_lower_offset + bytes; // exclusive
-
-    if (next_upper_offset > page_size) {
+    if (next_lower_offset > page_size || bytes > page_size - next_lower_offset) {
         return nullptr;
     }
+    auto next_upper_offset = next_lower_offset + bytes; // exclusive
+
     // keep track the first alignment padding
     if (lower_bound_offset_ == upper_bound_offset_ && next_lower_offset > lower_bound_offset_) {
         lower_bound_offset_ = next_lower_offset;
-- 
2.43.0


From 3bfdd481e79d3d5855baee704ef85c2bbc581d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 08/92] fix: report bad_alloc from block resources when the
 page pool has no page

---
 src/jogasaki/memory/block_memory_resource.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/memory/block_memory_resource.h b/src/jogasaki/memory/block_memory_resource.h
index fb00f71..1591fe9 100644
--- a/src/jogasaki/memory/block_memory_resource.h
+++ b/src/jogasaki/memory/block_memory_resource.h
@@ -126,6 +126,9 @@ protected:
 
         // acquire a new page
         auto next_head = page_pool_->acquire_page();
+        if (!next_head) {
+            throw_exception(std::bad_alloc());
+        }
         auto [iter, success] = blocks_.emplace(next_head, block_info { next_head });
         if (!success) {
             LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
-- 
2.43.0


From d8aac39de3c70179a84e043f84764e8798ae4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 09/92] fix: do not keep the page of a refused oversize request
 in paged memory resources

---
 src/jogasaki/memory/block_memory_resource.h             | 7 +++++++
 src/jogasaki/memory/fifo_paged_memory_resource.cpp      | 4 ++++
 src/jogasaki/memory/lifo_paged_memory_resource.cpp      | 4 ++++
 src/jogasaki/memory/monotonic_paged_memory_resource.cpp | 4 ++++
 4 files changed, 19 insertions(+)

diff --git a/src/jogasaki/memory/block_memory_resource.h b/src/jogasaki/memory/block_memory_resource.h
index 1591fe9..04daec4 100644
--- a/src/jogasaki/memory/block_memory_resource.h
+++ b/src/jogasaki/memory/block_memory_resource.h
@@ -146,6 +146,10 @@ protected:
             return r;
         }
 
+        // give back the page which did not serve the request
+        page_pool_->release_page(next_head);
+        blocks_.erase(iter);
+
         LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
         throw_exception(std::bad_alloc());
     }
@@ -242,6 +246,9 @@ private:
             assert(next >= ua_next); // NOLINT
             assert(next - ua_next < block_size); // NOLINT
 
+            if (next - head > page_size || bytes > page_size - (next - head)) {
+                return nullptr;
+            }
             auto start_block = (next - head) / block_size; // inclusive
             auto last_block = (next + bytes - head + block_size - 1) / block_size; // exclusive
             auto nblocks = last_block - start_block;
diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.cpp b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
index 87539c7..4b716b0 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
@@ -99,6 +99,10 @@ void *fifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // give back the page which did not serve the request
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
+
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index d845adf..6dde554 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -105,6 +105,10 @@ void *lifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // give back the page which did not serve the request
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
+
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
diff --git a/src/jogasaki/memory/monotonic_paged_memory_resource.cpp b/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
index fc63de2..0e9e236 100644
--- a/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
@@ -66,6 +66,10 @@ void *monotonic_paged_memory_resource::do_allocate(std::size_t bytes, std::size_
         return ptr;
     }
 
+    // give back the page which did not serve the request
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
+
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
-- 
2.43.0


From 46e46630fae32a918f99c5017a5dde223cda6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 10/92] fix: do not refer to an empty page from the checkpoint
 of a lifo memory resource

---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index 6dde554..015e7bb 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -47,11 +47,13 @@ std::size_t lifo_paged_memory_resource::count_pages() const noexcept {
 }
 
 lifo_paged_memory_resource::checkpoint lifo_paged_memory_resource::get_checkpoint() const noexcept {
-    if (pages_.empty()) {
-        return initial_checkpoint;
+    // an empty page can be released before the checkpoint is restored, so refer to the last page in use
+    for (auto it = pages_.rbegin(); it != pages_.rend(); ++it) {
+        if (! it->empty()) {
+            return { it->head().address(), it->upper_bound_offset() };
+        }
     }
-    auto& current = pages_.back();
-    return { current.head().address(), current.upper_bound_offset() };
+    return initial_checkpoint;
 }
 
 void lifo_paged_memory_resource::deallocate_after(lifo_paged_memory_resource::checkpoint const& point) {
-- 
2.43.0


From f94a90f9cb8558b04b9083b636e662169e75cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:51 +0000
Subject: [PATCH 11/92] fix: clear a lifo memory resource whose first request
 was padded

---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index 015e7bb..3eb11c3 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -65,6 +65,10 @@ void lifo_paged_memory_resource::deallocate_after(lifo_paged_memory_resource::ch
     while (!pages_.empty()) {
         auto&& page = pages_.back();
         if (page.head().address() == point_head) {
+            if (point.head_ == nullptr) {
+                // the page was not there, forget its first alignment padding
+                page.lower_bound_offset(0);
+            }
             // LB <= offset <= UB
             if (point.offset_ < page.lower_bound_offset()
                 || point.offset_ > page.upper_bound_offset()) {
-- 
2.43.0


From 9ec1bfb2ebdd3055f3bad97e27f972b71ee73da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 12/92] fix: count the reference tag when checking the room for
 blob and clob entries

---
 src/jogasaki/serializer/value_output.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b70c2c1..b1cf071 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -526,6 +526,7 @@ bool write_blob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
@@ -544,6 +545,7 @@ bool write_clob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
-- 
2.43.0


From dcb024fd6010f5d305537a86e375d544f821304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 13/92] fix: avoid signed overflow on writing a decimal whose
 coefficient is -2^63

---
 src/jogasaki/serializer/value_output.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b1cf071..e3a7350 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -216,10 +216,11 @@ bool write_decimal(
         buffer_view::const_iterator end) {
     // small coefficient
     if (has_small_coefficient(value)) {
-        auto coefficient = static_cast<std::int64_t>(value.coefficient_low());
+        auto c_lo = value.coefficient_low();
         if (value.sign() < 0) {
-            coefficient = -coefficient;
+            c_lo = ~c_lo + 1; // negate as unsigned, because -2^63 has no positive counterpart
         }
+        auto coefficient = static_cast<std::int64_t>(c_lo);
 
         // just write as int if exponent is just 0
         if (value.exponent() == 0) {
-- 
2.43.0


From e82f3649b0f5fdf8ecf067b2eac1194c3c8c4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 14/92] fix: clear the decimal status before a decimal is
 written to a key or value

---
 src/jogasaki/kvs/writable_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/kvs/writable_stream.cpp b/src/jogasaki/kvs/writable_stream.cpp
index d46b097..d9bd988 100644
--- a/src/jogasaki/kvs/writable_stream.cpp
+++ b/src/jogasaki/kvs/writable_stream.cpp
@@ -173,6 +173,7 @@ status writable_stream::do_write(runtime_t<meta::field_type_kind::decimal> data,
     }
     std::size_t precision = option.precision_.value();
     std::size_t scale = option.scale_.value();
+    decimal::context.clear_status();
     decimal::Decimal x{data};
     if((decimal::context.status() & MPD_IEEE_Invalid_operation) != 0) {
         decimal_error_logging("value creation", data, precision, scale, -1);
-- 
2.43.0


From 8b67e005b4a08be65945573c0f9d712ebf0ef049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 15/92] fix: refuse a text whose bytes are missing entirely
 when decoding a key or value

---
 src/jogasaki/kvs/readable_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/kvs/readable_stream.h b/src/jogasaki/kvs/readable_stream.h
index 0be2937..6c53155 100644
--- a/src/jogasaki/kvs/readable_stream.h
+++ b/src/jogasaki/kvs/readable_stream.h
@@ -166,8 +166,8 @@ public:
     template<class T>
     std::enable_if_t<std::is_same_v<T, accessor::text>, T> read(order odr, bool discard, memory::paged_memory_resource* resource = nullptr) {
         auto len = read_text_length(odr);
-        if(!(pos_ + len <= capacity_)) throw_exception(std::domain_error{ //NOLINT
-                string_builder{} << base_filename() << " condition pos_ + len <= capacity_ failed with pos_:" << pos_ << " len:" << len << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
+        if(!(pos_ + len + details::text_terminator::byte_size <= capacity_)) throw_exception(std::domain_error{ //NOLINT
+                string_builder{} << base_filename() << " condition pos_ + len + terminator <= capacity_ failed with pos_:" << pos_ << " len:" << len << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
             });
         auto pos = pos_;
         pos_ += len + details::text_terminator::byte_size;
-- 
2.43.0


From 65e9715718da67da56d5fbf970fed65d1e94c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 16/92] fix: read the null flags of values stored behind the
 first page at their own position

---
 src/jogasaki/data/value_store.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/data/value_store.h b/src/jogasaki/data/value_store.h
index b09de86..c1e119e 100644
--- a/src/jogasaki/data/value_store.h
+++ b/src/jogasaki/data/value_store.h
@@ -108,7 +108,8 @@ public:
         range_(range),
         base_(base),
         offset_(offset),
-        null_flag_base_(null_flag_base)
+        null_flag_base_(null_flag_base),
+        null_flag_offset_(offset)
     {}
 
     /**
@@ -136,6 +137,7 @@ public:
      */
     iterator& operator++() {
         ++offset_;
+        ++null_flag_offset_;
         if (offset_ >= static_cast<std::size_t>(range_->e_ - range_->b_)) {
             ++range_;
             if(range_ != ranges_->end()) {
@@ -179,7 +181,7 @@ public:
         if (null_flag_base_ == nullptr) {
             return false;
         }
-        return *(null_flag_base_ + offset_) == static_cast<null_flag_type>(1);
+        return *(null_flag_base_ + null_flag_offset_) == static_cast<null_flag_type>(1);
     }
 
     /// @brief equivalent comparison
@@ -217,6 +219,8 @@ private:
     value_pointer base_{};
     std::size_t offset_{};
     null_flag_const_pointer null_flag_base_{};
+    // null flags are contiguous while values are split in ranges, so their position is kept separately
+    std::size_t null_flag_offset_{};
 };
 
 class cache_align typed_store {
-- 
2.43.0


From 016a40e30d5eb52daf7bd37827e32c368c6481a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 17/92] fix: forget the place of the null flags when a value
 store is reset

---
 src/jogasaki/data/value_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/data/value_store.h b/src/jogasaki/data/value_store.h
index c1e119e..d245c46 100644
--- a/src/jogasaki/data/value_store.h
+++ b/src/jogasaki/data/value_store.h
@@ -638,6 +638,7 @@ public:
         prev_ = nullptr;
         ranges_.clear();
         null_prev_ = nullptr;
+        null_flag_base_ = nullptr;
     }
 
 private:
-- 
2.43.0


From 899edfea231c95841c9c983d3d586301041a50cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 18/92] fix: do not free data of queued records by a checkpoint
 whose page was already released

---
 src/jogasaki/data/fifo_record_store.cpp | 6 ++++--
 src/jogasaki/data/fifo_record_store.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/data/fifo_record_store.cpp b/src/jogasaki/data/fifo_record_store.cpp
index 27367db..f536d9b 100644
--- a/src/jogasaki/data/fifo_record_store.cpp
+++ b/src/jogasaki/data/fifo_record_store.cpp
@@ -43,10 +43,12 @@ bool fifo_record_store::try_pop(accessor::record_ref& out) {
         resource_->deallocate(prev_, positive_record_size_, meta_->record_alignment());
         prev_ = nullptr;
     }
-    if(prev_cp_.head_) {
+    // records without data on varlen resource share the checkpoint, which is no longer valid once its page is released
+    if(prev_cp_.head_ && (prev_cp_.head_ != deallocated_cp_.head_ || prev_cp_.offset_ != deallocated_cp_.offset_)) {
         varlen_resource_->deallocate_before(prev_cp_);
-        prev_cp_ = {};
     }
+    deallocated_cp_ = prev_cp_;
+    prev_cp_ = {};
     queue_entry e{};
     if(! queue_.try_pop(e)) {
         return false;
diff --git a/src/jogasaki/data/fifo_record_store.h b/src/jogasaki/data/fifo_record_store.h
index a2544b2..5c94d42 100644
--- a/src/jogasaki/data/fifo_record_store.h
+++ b/src/jogasaki/data/fifo_record_store.h
@@ -134,6 +134,7 @@ private:
     tbb::concurrent_queue<queue_entry> queue_{};
     record_pointer prev_{};
     checkpoint prev_cp_{};
+    checkpoint deallocated_cp_{};
 
 };
 
-- 
2.43.0


From 058ba0ad20209319eb7c8baebd636990aeb3dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 19/92] fix: serialize use of the memory resources by producer
 and consumer of fifo_record_store

---
 src/jogasaki/data/fifo_record_store.cpp | 7 ++++++-
 src/jogasaki/data/fifo_record_store.h   | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/data/fifo_record_store.cpp b/src/jogasaki/data/fifo_record_store.cpp
index f536d9b..7f528c5 100644
--- a/src/jogasaki/data/fifo_record_store.cpp
+++ b/src/jogasaki/data/fifo_record_store.cpp
@@ -16,6 +16,7 @@
 #include "fifo_record_store.h"
 
 #include <cstdlib>
+#include <mutex>
 #include <type_traits>
 #include <utility>
 
@@ -27,7 +28,9 @@
 namespace jogasaki::data {
 
 fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record_ref record) {
-    // this is spsc queue and only one thread call the function at a time
+    // this is spsc queue and only one thread call the function at a time,
+    // while the consumer returns memory to the same resources
+    std::unique_lock lk{mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
     auto cp = varlen_resource_->get_checkpoint();
@@ -38,6 +41,7 @@ fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record
 }
 
 bool fifo_record_store::try_pop(accessor::record_ref& out) {
+    std::unique_lock lk{mutex_};
     // when next record is requested, the previous record can be deallocated
     if(prev_) {
         resource_->deallocate(prev_, positive_record_size_, meta_->record_alignment());
@@ -62,6 +66,7 @@ bool fifo_record_store::try_pop(accessor::record_ref& out) {
 }
 
 fifo_record_store::record_pointer fifo_record_store::allocate_record() {
+    std::unique_lock lk{mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
     auto cp = varlen_resource_->get_checkpoint();
diff --git a/src/jogasaki/data/fifo_record_store.h b/src/jogasaki/data/fifo_record_store.h
index 5c94d42..57cfc09 100644
--- a/src/jogasaki/data/fifo_record_store.h
+++ b/src/jogasaki/data/fifo_record_store.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstring>
+#include <mutex>
 #include <vector>
 
 #include <takatori/util/maybe_shared_ptr.h>
@@ -135,6 +136,8 @@ private:
     record_pointer prev_{};
     checkpoint prev_cp_{};
     checkpoint deallocated_cp_{};
+    // protect the memory resources shared by the producer and the consumer
+    std::mutex mutex_{};
 
 };
 
-- 
2.43.0


From 7e06f397420a8820a9e164a5f9fe572af64e82e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 20/92] fix: accept the documented null resource for texts in
 fifo_record_store

---
 src/jogasaki/data/fifo_record_store.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/data/fifo_record_store.cpp b/src/jogasaki/data/fifo_record_store.cpp
index 7f528c5..d59dc58 100644
--- a/src/jogasaki/data/fifo_record_store.cpp
+++ b/src/jogasaki/data/fifo_record_store.cpp
@@ -33,7 +33,7 @@ fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record
     std::unique_lock lk{mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
-    auto cp = varlen_resource_->get_checkpoint();
+    auto cp = varlen_resource_ ? varlen_resource_->get_checkpoint() : checkpoint{};
     copier_(p, original_record_size_, record);
     queue_.push({p, cp});
     ++count_;
@@ -69,7 +69,7 @@ fifo_record_store::record_pointer fifo_record_store::allocate_record() {
     std::unique_lock lk{mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
-    auto cp = varlen_resource_->get_checkpoint();
+    auto cp = varlen_resource_ ? varlen_resource_->get_checkpoint() : checkpoint{};
     queue_.push({p, cp});
     ++count_;
     return p;
-- 
2.43.0


From a83f69fd594884fcf4d1741d37930eec926606d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 21/92] fix: report arithmetic error when integer arithmetic is
 out of range

Adding, subtracting, multiplying, dividing or negating int4/int8 values was
undefined when the result does not fit (division crashed with SIGFPE).
---
 src/jogasaki/executor/expr/evaluator.cpp | 109 +++++++++++++++++------
 1 file changed, 84 insertions(+), 25 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index d8eec51..e6cdd2e 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -18,8 +18,10 @@
 #include <cstdlib>
 #include <decimal.hh>
 #include <exception>
+#include <limits>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <utility>
 #include <glog/logging.h>
 
@@ -96,10 +98,30 @@ engine::engine(
     resource_(resource)
 {}
 
+// create arithmetic error because result of the integer operation is out of range of its type
+template <class... Args>
+static any integer_out_of_range(evaluator_context& ctx, std::string_view operation, Args const&... args) {
+    auto& e = ctx.add_error(
+        {error_kind::arithmetic_error,
+         "integer value out of range while performing operation:" + std::string{operation}}
+    );
+    ((e.new_argument() << args), ...);
+    return any{std::in_place_type<class error>, error_kind::arithmetic_error};
+}
+
 template <class T>
 static std::enable_if_t<! std::is_same_v<T, runtime_t<meta::field_type_kind::decimal>>, any>
-add(T const& l, T const& r) {
-    return any{std::in_place_type<T>, l+r};
+add(T const& l, T const& r, evaluator_context& ctx) {
+    if constexpr (std::is_integral_v<T>) {
+        T result{};
+        if (__builtin_add_overflow(l, r, &result)) {
+            return integer_out_of_range(ctx, "add", l, r);
+        }
+        return any{std::in_place_type<T>, result};
+    } else {
+        (void) ctx;
+        return any{std::in_place_type<T>, l+r};
+    }
 }
 
 namespace {
@@ -272,8 +294,17 @@ static std::pair<any, any> promote_binary_numeric(any const& l, any const& r) {
 
 template <class T>
 static std::enable_if_t<! std::is_same_v<T, runtime_t<meta::field_type_kind::decimal>>, any>
-subtract(T const& l, T const& r) {
-    return any{std::in_place_type<T>, l-r};
+subtract(T const& l, T const& r, evaluator_context& ctx) {
+    if constexpr (std::is_integral_v<T>) {
+        T result{};
+        if (__builtin_sub_overflow(l, r, &result)) {
+            return integer_out_of_range(ctx, "subtract", l, r);
+        }
+        return any{std::in_place_type<T>, result};
+    } else {
+        (void) ctx;
+        return any{std::in_place_type<T>, l-r};
+    }
 }
 
 static any subtract(
@@ -300,8 +331,17 @@ any engine::concat_any(any const& left, any const& right) {
 
 template <class T>
 static std::enable_if_t<! std::is_same_v<T, runtime_t<meta::field_type_kind::decimal>>, any>
-multiply(T const& l, T const& r) {
-    return any{std::in_place_type<T>, l*r};
+multiply(T const& l, T const& r, evaluator_context& ctx) {
+    if constexpr (std::is_integral_v<T>) {
+        T result{};
+        if (__builtin_mul_overflow(l, r, &result)) {
+            return integer_out_of_range(ctx, "multiply", l, r);
+        }
+        return any{std::in_place_type<T>, result};
+    } else {
+        (void) ctx;
+        return any{std::in_place_type<T>, l*r};
+    }
 }
 
 static any multiply(
@@ -326,6 +366,11 @@ divide(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if constexpr (std::is_integral_v<T>) {
+        if (l == std::numeric_limits<T>::min() && r == -1) {
+            return integer_out_of_range(ctx, "divide", l, r);
+        }
+    }
     return any{std::in_place_type<T>, l/r};
 }
 
@@ -351,6 +396,10 @@ remainder(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if (r == -1) {
+        // avoid calculating the quotient that is possibly out of range
+        return any{std::in_place_type<T>, static_cast<T>(0)};
+    }
     return any{std::in_place_type<T>, l%r};
 }
 
@@ -498,23 +547,33 @@ any engine::operator()(takatori::scalar::variable_reference const& exp) {
 }
 
 template <class T>
-static any sign_inversion(T const& l) {
+static any sign_inversion(T const& l, evaluator_context& ctx) {
+    if constexpr (std::is_integral_v<T>) {
+        if (l == std::numeric_limits<T>::min()) {
+            return integer_out_of_range(ctx, "sign_inversion", l);
+        }
+    }
+    (void) ctx;
     return any{std::in_place_type<T>, -l};
 }
 
 template <>
-any sign_inversion<runtime_t<meta::field_type_kind::decimal>>(runtime_t<meta::field_type_kind::decimal> const& l) {
+any sign_inversion<runtime_t<meta::field_type_kind::decimal>>(
+    runtime_t<meta::field_type_kind::decimal> const& l,
+    evaluator_context& ctx
+) {
+    (void) ctx;
     return any{std::in_place_type<runtime_t<meta::field_type_kind::decimal>>, -static_cast<decimal::Decimal>(l)};
 }
 
 any engine::sign_inversion_any(any const& exp) {
     assert_with_exception(exp);
     switch(exp.type_index()) {
-        case any::index<runtime_t<meta::field_type_kind::int4>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::int4>>());
-        case any::index<runtime_t<meta::field_type_kind::int8>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::int8>>());
-        case any::index<runtime_t<meta::field_type_kind::float4>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::float4>>());
-        case any::index<runtime_t<meta::field_type_kind::float8>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::float8>>());
-        case any::index<runtime_t<meta::field_type_kind::decimal>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::decimal>>());
+        case any::index<runtime_t<meta::field_type_kind::int4>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::int4>>(), ctx_);
+        case any::index<runtime_t<meta::field_type_kind::int8>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::int8>>(), ctx_);
+        case any::index<runtime_t<meta::field_type_kind::float4>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::float4>>(), ctx_);
+        case any::index<runtime_t<meta::field_type_kind::float8>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::float8>>(), ctx_);
+        case any::index<runtime_t<meta::field_type_kind::decimal>>: return sign_inversion(exp.to<runtime_t<meta::field_type_kind::decimal>>(), ctx_);
         default: return return_unsupported();
     }
 }
@@ -1136,10 +1195,10 @@ any add_any(any const& left, any const& right, evaluator_context& ctx) {
     assert_with_exception(left && right, left, right);
     auto [l,r] = details::promote_binary_numeric(left, right);
     switch(l.type_index()) {
-        case any::index<runtime_t<meta::field_type_kind::int4>>: return details::add(l.to<runtime_t<meta::field_type_kind::int4>>(), r.to<runtime_t<meta::field_type_kind::int4>>());
-        case any::index<runtime_t<meta::field_type_kind::int8>>: return details::add(l.to<runtime_t<meta::field_type_kind::int8>>(), r.to<runtime_t<meta::field_type_kind::int8>>());
-        case any::index<runtime_t<meta::field_type_kind::float4>>: return details::add(l.to<runtime_t<meta::field_type_kind::float4>>(), r.to<runtime_t<meta::field_type_kind::float4>>());
-        case any::index<runtime_t<meta::field_type_kind::float8>>: return details::add(l.to<runtime_t<meta::field_type_kind::float8>>(), r.to<runtime_t<meta::field_type_kind::float8>>());
+        case any::index<runtime_t<meta::field_type_kind::int4>>: return details::add(l.to<runtime_t<meta::field_type_kind::int4>>(), r.to<runtime_t<meta::field_type_kind::int4>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::int8>>: return details::add(l.to<runtime_t<meta::field_type_kind::int8>>(), r.to<runtime_t<meta::field_type_kind::int8>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::float4>>: return details::add(l.to<runtime_t<meta::field_type_kind::float4>>(), r.to<runtime_t<meta::field_type_kind::float4>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::float8>>: return details::add(l.to<runtime_t<meta::field_type_kind::float8>>(), r.to<runtime_t<meta::field_type_kind::float8>>(), ctx);
         case any::index<runtime_t<meta::field_type_kind::decimal>>: return details::add(l.to<runtime_t<meta::field_type_kind::decimal>>(), r.to<runtime_t<meta::field_type_kind::decimal>>(), ctx);
         default: return details::return_unsupported();
     }
@@ -1149,10 +1208,10 @@ any subtract_any(any const& left, any const& right, evaluator_context& ctx) {
     assert_with_exception(left && right, left, right);
     auto [l, r] = details::promote_binary_numeric(left, right);
     switch(l.type_index()) {
-        case any::index<runtime_t<meta::field_type_kind::int4>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::int4>>(), r.to<runtime_t<meta::field_type_kind::int4>>());
-        case any::index<runtime_t<meta::field_type_kind::int8>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::int8>>(), r.to<runtime_t<meta::field_type_kind::int8>>());
-        case any::index<runtime_t<meta::field_type_kind::float4>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::float4>>(), r.to<runtime_t<meta::field_type_kind::float4>>());
-        case any::index<runtime_t<meta::field_type_kind::float8>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::float8>>(), r.to<runtime_t<meta::field_type_kind::float8>>());
+        case any::index<runtime_t<meta::field_type_kind::int4>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::int4>>(), r.to<runtime_t<meta::field_type_kind::int4>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::int8>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::int8>>(), r.to<runtime_t<meta::field_type_kind::int8>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::float4>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::float4>>(), r.to<runtime_t<meta::field_type_kind::float4>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::float8>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::float8>>(), r.to<runtime_t<meta::field_type_kind::float8>>(), ctx);
         case any::index<runtime_t<meta::field_type_kind::decimal>>: return details::subtract(l.to<runtime_t<meta::field_type_kind::decimal>>(), r.to<runtime_t<meta::field_type_kind::decimal>>(), ctx);
         default: return details::return_unsupported();
     }
@@ -1179,10 +1238,10 @@ any multiply_any(any const& left, any const& right, evaluator_context& ctx) {
     assert_with_exception(left && right, left, right);
     auto [l, r] = details::promote_binary_numeric(left, right);
     switch(l.type_index()) {
-        case any::index<runtime_t<meta::field_type_kind::int4>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::int4>>(), r.to<runtime_t<meta::field_type_kind::int4>>());
-        case any::index<runtime_t<meta::field_type_kind::int8>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::int8>>(), r.to<runtime_t<meta::field_type_kind::int8>>());
-        case any::index<runtime_t<meta::field_type_kind::float4>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::float4>>(), r.to<runtime_t<meta::field_type_kind::float4>>());
-        case any::index<runtime_t<meta::field_type_kind::float8>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::float8>>(), r.to<runtime_t<meta::field_type_kind::float8>>());
+        case any::index<runtime_t<meta::field_type_kind::int4>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::int4>>(), r.to<runtime_t<meta::field_type_kind::int4>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::int8>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::int8>>(), r.to<runtime_t<meta::field_type_kind::int8>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::float4>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::float4>>(), r.to<runtime_t<meta::field_type_kind::float4>>(), ctx);
+        case any::index<runtime_t<meta::field_type_kind::float8>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::float8>>(), r.to<runtime_t<meta::field_type_kind::float8>>(), ctx);
         case any::index<runtime_t<meta::field_type_kind::decimal>>: return details::multiply(l.to<runtime_t<meta::field_type_kind::decimal>>(), r.to<runtime_t<meta::field_type_kind::decimal>>(), ctx);
         default: return details::return_unsupported();
     }
-- 
2.43.0


From d5cb15816f60cc1a4ecbcbf31c86feb51f14a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 22/92] fix: promote out-of-range decimals to infinity or zero
 in mixed arithmetic

std::stod throws when the decimal is out of range of double, which ended in an
unexpected evaluation error, while the cast of the same value follows the documented rule.
---
 src/jogasaki/executor/expr/evaluator.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index e6cdd2e..ddcd9d2 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -19,6 +19,7 @@
 #include <decimal.hh>
 #include <exception>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <type_traits>
@@ -204,7 +205,18 @@ triple triple_from_int(std::int64_t arg) {
 
 double triple_to_double(triple arg) {
     decimal::Decimal dec{arg};
-    return std::stod(dec.to_eng());
+    try {
+        return std::stod(dec.to_eng());
+    } catch (std::out_of_range const&) {
+        // same as casting decimal to float8 - infinity on overflow, zero on underflow
+        if(dec > 1) {
+            return std::numeric_limits<double>::infinity();
+        }
+        if(dec < -1) {
+            return -std::numeric_limits<double>::infinity();
+        }
+        return dec.sign() > 0 ? 0.0 : -0.0;
+    }
 }
 
 static any promote_binary_numeric_left(any const& l, any const& r) {
-- 
2.43.0


From 63349e6add34b3240618eeab1852cbed4bbb4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 23/92] fix: keep the error of CASE result operands

Errors in the body of CASE expression were passed to the conversion to the result type.
---
 src/jogasaki/executor/expr/evaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index ddcd9d2..10675a3 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -1038,6 +1038,9 @@ static any convert_return_type_if_needed(
     any const& v,
     engine::memory_resource* resource
 ) {
+    if(v.error()) {
+        return v;
+    }
     auto& src_type = info.type_of(e);
     if(conv::to_require_conversion(src_type, dest_type)) {
         data::any converted{};
-- 
2.43.0


From b2f51d6614e04fc78b00945eaf725762f29f9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 24/92] fix: let LIKE step over whole characters when it
 backtracks

Stepping by bytes let '_' match nothing in the middle of a multi-byte character,
e.g. a single multi-byte character matched '%__%'.
---
 src/jogasaki/executor/expr/evaluator.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 10675a3..2f7d99f 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -843,6 +843,12 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
     return str.size() >= prefix.size() && str.substr(0, prefix.size()) == prefix;
 }
 
+// returns the position of the character that follows one on the index
+[[nodiscard]] static std::size_t next_character(std::string_view input, std::size_t index) {
+    std::size_t char_size = utils::get_byte(utils::detect_next_encoding(input, index));
+    return index + (char_size != 0 ? char_size : 1);
+}
+
 [[nodiscard]] static bool match_literal_token(std::string_view input, std::size_t& input_index,
     token const& tok, std::size_t& pattern_index, std::size_t& backtrack_input_index,
     std::size_t& backtrack_pattern_index) {
@@ -852,7 +858,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return true;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        backtrack_input_index = next_character(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -872,7 +878,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return false;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        backtrack_input_index = next_character(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -971,7 +977,7 @@ static bool match_like_pattern(std::string_view input, std::vector<token> const&
             if (input_index == input.size()) { return true; }
             // input 'a' and pattern '%' reaches here
             if (backtrack_pattern_index != std::string::npos) {
-                ++backtrack_input_index;
+                backtrack_input_index = next_character(input, backtrack_input_index);
                 input_index   = backtrack_input_index;
                 pattern_index = backtrack_pattern_index + 1;
                 // input 'abcde' and pattern 'abc' reaches here
-- 
2.43.0


From b9fea95efd1da60b405beeac66e4d5d71d0c40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:20 +0000
Subject: [PATCH 25/92] fix: let CAST with the unknown loss policy give null
 whenever precision is lost

---
 .../executor/expr/details/cast_evaluation.cpp | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 9fe1d32..5646906 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -1682,7 +1682,7 @@ static any cast_from_clob(evaluator_context& ctx,
     return return_unsupported();
 }
 
-any conduct_cast(
+static any convert_value(
     evaluator_context& ctx,
     ::takatori::type::data const& src,
     ::takatori::type::data const& tgt,
@@ -1754,4 +1754,24 @@ any conduct_cast(
     return return_unsupported();
 }
 
+any conduct_cast(
+    evaluator_context& ctx,
+    ::takatori::type::data const& src,
+    ::takatori::type::data const& tgt,
+    any const& a
+) {
+    if(ctx.get_loss_precision_policy() != loss_precision_policy::unknown) {
+        return convert_value(ctx, src, tgt, a);
+    }
+    // fill null if this conversion loses precision
+    auto lost_so_far = ctx.lost_precision();
+    ctx.lost_precision(false);
+    auto ret = convert_value(ctx, src, tgt, a);
+    if(ctx.lost_precision() && ! ret.error()) {
+        ret = any{};
+    }
+    ctx.lost_precision(ctx.lost_precision() || lost_so_far);
+    return ret;
+}
+
 }  // namespace jogasaki::executor::expr::details
-- 
2.43.0


From 67e50697c9d0618efd564eed2f9795724158ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 26/92] fix: report format error for text whose exponent is out
 of range even if it has many digits

---
 .../executor/expr/details/cast_evaluation.cpp | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 5646906..18c1674 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -620,6 +620,17 @@ static any to_decimal_internal(
         out = decimal::Decimal{0}.copy_sign(value);
         return {};
     }
+    if(decimal_context_emax < value.adjexp() || value.adjexp() < decimal_context_emin) {
+        auto& e = ctx.add_error(
+            {error_kind::format_error,
+             string_builder{} << "adjusted exponent:" << value.adjexp() << " is out of range [" << decimal_context_emin
+                              << ", " << decimal_context_emax << "]" << string_builder::to_string}
+        );
+        e.new_argument() << s;
+        e.new_argument() << value;
+        return any{std::in_place_type<error>, error(error_kind::format_error)};
+    }
+
     // validate the value is in the valid triple (with digits checked) range
     // otherwise, truncate the coefficient and increase the exponent
     if(static_cast<std::int64_t>(max_triple_digits) < value.coeff().adjexp() + 1) {
@@ -647,16 +658,6 @@ static any to_decimal_internal(
         out = value;
         return {};
     }
-    if(decimal_context_emax < value.adjexp() || value.adjexp() < decimal_context_emin) {
-        auto& e = ctx.add_error(
-            {error_kind::format_error,
-             string_builder{} << "adjusted exponent:" << value.adjexp() << " is out of range [" << decimal_context_emin
-                              << ", " << decimal_context_emax << "]" << string_builder::to_string}
-        );
-        e.new_argument() << s;
-        e.new_argument() << value;
-        return any{std::in_place_type<error>, error(error_kind::format_error)};
-    }
     if(auto a = reduce_decimal(value, value, ctx); a.error()) {
         return a;
     }
-- 
2.43.0


From c33dfad01115df0af79e62629579cb9c0009e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 27/92] fix: ignore leading and trailing spaces of NaN texts

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 18c1674..0afbd4c 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -691,7 +691,7 @@ any to_float4(std::string_view s, evaluator_context& ctx) {
     if(a.error()) {
         return a;
     }
-    if(d.isnan() && ! is_valid_nan(s)) {
+    if(d.isnan() && ! is_valid_nan(trim_spaces(s))) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float4"});
         e.new_argument() << s;
         e.new_argument() << d;
@@ -706,7 +706,7 @@ any to_float8(std::string_view s, evaluator_context& ctx) {
     if(a.error()) {
         return a;
     }
-    if(d.isnan() && ! is_valid_nan(s)) {
+    if(d.isnan() && ! is_valid_nan(trim_spaces(s))) {
         auto& e = ctx.add_error({error_kind::format_error, "invalid string passed for conversion to float8"});
         e.new_argument() << s;
         e.new_argument() << d;
-- 
2.43.0


From c579c0204bcf9f31aa32e1a39db6c77274485c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 28/92] fix: clamp decimals of more integral digits than the
 context to the maximum of DECIMAL(p,s)

---
 .../executor/expr/details/cast_evaluation.cpp | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 0afbd4c..1398c97 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -352,6 +352,21 @@ any handle_ps(
     if(*precision < *scale) {
         throw_exception(std::logic_error{"precision must be greater than or equal to scale"});
     }
+    auto digits = d.coeff().adjexp() + 1;
+    auto digits_prec = -d.exponent();
+
+    if((static_cast<std::int64_t>(*precision - *scale) < digits - digits_prec) && ! d.iszero()) {
+        // zero is the exceptional case where integral part has 1 digit but any decimal(p,s) can contain it
+        if(auto a = handle_precision_lost<decimal::Decimal, triple>(src, d, ctx); a.error()) {
+            return a;
+        }
+        decimal::Decimal mx{};
+        if(auto a = create_max_decimal(ctx, *precision, *scale, mx); a.error()) {
+            return a;
+        }
+        return as_triple(mx.copy_sign(d), ctx);
+    }
+
     if(d.exponent() > 0) {
         // extend integral part to full digits
         // e.g. 1.0E3 -> 1000
@@ -369,21 +384,6 @@ any handle_ps(
         }
         d = newd;
     }
-    auto digits = d.coeff().adjexp() + 1;
-    auto digits_prec = -d.exponent();
-
-    if((static_cast<std::int64_t>(*precision - *scale) < digits - digits_prec) && ! d.iszero()) {
-        // zero is the exceptional case where integral part has 1 digit but any decimal(p,s) can contain it
-        if(auto a = handle_precision_lost<decimal::Decimal, triple>(src, d, ctx); a.error()) {
-            return a;
-        }
-        decimal::Decimal mx{};
-        if(auto a = create_max_decimal(ctx, *precision, *scale, mx); a.error()) {
-            return a;
-        }
-        return as_triple(mx.copy_sign(d), ctx);
-    }
-
     // handle scale
     decimal::context.clear_status();
     decimal::Decimal rescaled{};
-- 
2.43.0


From 9c44fa688ac395f4913f2a384bddeba4d5a8f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 29/92] fix: convert infinity to the maximum of the target
 DECIMAL(p,s)

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 1398c97..66a0a87 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -987,6 +987,9 @@ static any float_to_decimal(
     }
     if(std::isinf(src)) {
         auto tgt = std::signbit(src) ? triple_min : triple_max;
+        if(precision.has_value() || scale.has_value()) {
+            return handle_ps(decimal::Decimal{tgt}, ctx, precision, scale);
+        }
         if(auto a = handle_precision_lost(src, tgt, ctx); a.error()) {
             return a;
         }
-- 
2.43.0


From b1673a51abab087e477f04f922071b6f1d8b9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 30/92] fix: trim texts that consist of spaces only to empty
 text

---
 src/jogasaki/executor/expr/details/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/details/common.h b/src/jogasaki/executor/expr/details/common.h
index bec8bfc..9e73274 100644
--- a/src/jogasaki/executor/expr/details/common.h
+++ b/src/jogasaki/executor/expr/details/common.h
@@ -52,7 +52,7 @@ inline std::string_view trim_spaces(std::string_view src) {
     auto b = std::find_if(src.begin(), src.end(), [](char c){
         return c != ' ';
     });
-    auto e = std::find_if(src.rbegin(), src.rend(), [](char c){
+    auto e = std::find_if(src.rbegin(), std::make_reverse_iterator(b), [](char c){
         return c != ' ';
     });
     return {b, static_cast<std::size_t>(std::distance(b, e.base()))};
-- 
2.43.0


From febc06b5ae5dbda0661436bcb03731aa754753bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 31/92] fix: substring with an extreme start position or length

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index edc4581..8a13ebf 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1035,7 +1035,7 @@ static size_t get_size_byte(std::string_view view, const size_t start_byte, cons
     if (!is_character_type) { return letter_count; }
     size_t tmp_byte = 0;
     size_t offset   = start_byte;
-    for (size_t i = 0; i < letter_count; ++i) {
+    for (size_t i = 0; i < letter_count && offset < view.size(); ++i) {
         tmp_byte = get_byte(detect_next_encoding(view, offset));
         offset += tmp_byte;
     }
@@ -1261,7 +1261,8 @@ data::any substring(evaluator_context&, sequence_view<data::any> args) {
     auto& start = static_cast<data::any&>(args[1]);
     if (start.empty()) { return {}; }
 
-    const auto zero_based_start = start.to<runtime_t<kind::int8>>() - 1;
+    const auto one_based_start = start.to<runtime_t<kind::int8>>();
+    const auto zero_based_start = one_based_start < 1 ? -1 : one_based_start - 1;
 
     if (args.size() > 2) {
         length = static_cast<data::any&>(args[2]);
-- 
2.43.0


From 62de880b925eafda8dd25d6f0644ee1c882b75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:13 +0000
Subject: [PATCH 32/92] fix: round of an integer near the limit of its type
 overflows

---
 .../executor/function/builtin_scalar_functions.cpp       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 8a13ebf..2f7dc2e 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1203,10 +1203,15 @@ static data::any round_integral(data::any src, int32_t precision, evaluator_cont
     auto fix_value = (value / divide) * divide;
     auto remain    = value - fix_value;
 
+    bool overflow = false;
     if (remain > 0 && remain >= divide / 2) {
-        fix_value += divide;
+        overflow = __builtin_add_overflow(fix_value, divide, &fix_value);
     } else if (remain < 0 && remain <= -divide / 2) {
-        fix_value -= divide;
+        overflow = __builtin_sub_overflow(fix_value, divide, &fix_value);
+    }
+    if (overflow) {
+        ctx.add_error({error_kind::overflow, std::string("value out of range: rounded value exceeds the range of ") + type_name});
+        return data::any{std::in_place_type<error>, error(error_kind::overflow)};
     }
 
     return data::any{std::in_place_type<T>, fix_value};
-- 
2.43.0


From 3e84ef09883b524702c1c59271e9cb5657fbba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 33/92] fix: round of a decimal already at the requested scale
 throws when it has many digits

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 2f7dc2e..f26b340 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1155,6 +1155,8 @@ static data::any round_decimal(data::any src, int32_t precision, evaluator_conte
         return data::any{std::in_place_type<error>, error(error_kind::unsupported)};
     }
     auto value  = src.to<runtime_t<kind::decimal>>();
+    // already a multiple of the unit - the remainder cannot be calculated when the quotient has too many digits
+    if (value.exponent() >= -precision) { return src; }
     auto type   = std::in_place_type<runtime_t<kind::decimal>>;
     auto one    = data::any{type, takatori::decimal::triple{+1, 0, 1, -precision}};
     auto remain = expr::remainder_any(src, one, ctx);
-- 
2.43.0


From b1a0ac2e265441964543eb1868c1453240c9933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 34/92] fix: round of a large floating point number gives
 infinity

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index f26b340..ffb39ad 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1235,6 +1235,10 @@ static data::any round_floating_point(data::any src, int32_t precision, evaluato
     auto value  = src.to<T>();
     auto factor = std::pow(static_cast<FactorType>(10.0), static_cast<FactorType>(precision));
     auto result = std::round(value * factor) / factor;
+    if (! std::isfinite(result)) {
+        // the value is infinity or NaN, or too large to have any digits to be rounded
+        result = value;
+    }
 
     return data::any{std::in_place_type<T>, result};
 }
-- 
2.43.0


From d8dce2a69bcc350d931b7ee3a9b5d2214ccfb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 35/92] fix: standardize NaN resulting from arithmetic
 operations

NaN that appears as the result of a computation is documented to be
normalized to the quiet NaN, while +,-,*,/ and unary minus returned whatever
the hardware generates (e.g. negative NaN for Infinity - Infinity), whose hash
value differs from the one of the standard NaN though they compare equal.
---
 src/jogasaki/executor/expr/evaluator.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 2f7d99f..f82b00f 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -15,6 +15,7 @@
  */
 #include "evaluator.h"
 
+#include <cmath>
 #include <cstdlib>
 #include <decimal.hh>
 #include <exception>
@@ -99,6 +100,17 @@ engine::engine(
     resource_(resource)
 {}
 
+// NaN appearing as the result of an operation is standardized to the quiet NaN, otherwise its sign would be visible
+template <class T>
+static T normalize_nan(T value) {
+    if constexpr (std::is_floating_point_v<T>) {
+        if (std::isnan(value)) {
+            return std::numeric_limits<T>::quiet_NaN();
+        }
+    }
+    return value;
+}
+
 // create arithmetic error because result of the integer operation is out of range of its type
 template <class... Args>
 static any integer_out_of_range(evaluator_context& ctx, std::string_view operation, Args const&... args) {
@@ -121,7 +133,7 @@ add(T const& l, T const& r, evaluator_context& ctx) {
         return any{std::in_place_type<T>, result};
     } else {
         (void) ctx;
-        return any{std::in_place_type<T>, l+r};
+        return any{std::in_place_type<T>, normalize_nan(l+r)};
     }
 }
 
@@ -315,7 +327,7 @@ subtract(T const& l, T const& r, evaluator_context& ctx) {
         return any{std::in_place_type<T>, result};
     } else {
         (void) ctx;
-        return any{std::in_place_type<T>, l-r};
+        return any{std::in_place_type<T>, normalize_nan(l-r)};
     }
 }
 
@@ -352,7 +364,7 @@ multiply(T const& l, T const& r, evaluator_context& ctx) {
         return any{std::in_place_type<T>, result};
     } else {
         (void) ctx;
-        return any{std::in_place_type<T>, l*r};
+        return any{std::in_place_type<T>, normalize_nan(l*r)};
     }
 }
 
@@ -383,7 +395,7 @@ divide(T const& l, T const& r, evaluator_context& ctx) {
             return integer_out_of_range(ctx, "divide", l, r);
         }
     }
-    return any{std::in_place_type<T>, l/r};
+    return any{std::in_place_type<T>, normalize_nan(l/r)};
 }
 
 static any divide(
@@ -566,7 +578,7 @@ static any sign_inversion(T const& l, evaluator_context& ctx) {
         }
     }
     (void) ctx;
-    return any{std::in_place_type<T>, -l};
+    return any{std::in_place_type<T>, normalize_nan(-l)};
 }
 
 template <>
-- 
2.43.0


From 30fc11f454b11bc7443e6370c16b4bb399fcc807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:15 +0000
Subject: [PATCH 36/92] fix: end the job of a request that is refused, cannot
 be resolved, or is DDL run by a resolve task

---
 src/jogasaki/executor/executor.cpp   | 17 ++++++++++++++++-
 src/jogasaki/scheduler/flat_task.cpp |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index a413c00..857f6f1 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -690,6 +690,17 @@ static bool validate_authorization(
     return true;
 }
 
+static void end_job_without_task(std::shared_ptr<request_context> const& rctx) {
+    auto& job = *rctx->job();
+    if(job.task_count() == 0) {
+        rctx->scheduler()->unregister_job(job.id());
+        return;
+    }
+    // called from a task of the job (e.g. resolve), which still uses the job - let it end after the task
+    job.callback([rctx]() { (void) rctx; });
+    scheduler::submit_teardown(*rctx);
+}
+
 bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexity)
     api::impl::database& database,
     std::shared_ptr<request_context> rctx,  //NOLINT
@@ -700,6 +711,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
 ) {
     auto& s = unsafe_downcast<api::impl::executable_statement&>(*statement);
     if(! validate_statement(*s.body(), rctx->record_channel(), on_completion)) {
+        end_job_without_task(rctx);
         return false;
     }
     rctx->enable_stats();
@@ -713,11 +725,13 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
     // currently only DML is checked, but in future, DDL should be checked too.
     if (e->is_execute() || (!e->is_ddl() && !e->is_empty())) {
         if(! validate_authorization(*rctx, *e, req_info, on_completion)) {
+            end_job_without_task(rctx);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
     }
 
     if(rctx->transaction() && ! validate_transaction(*rctx->transaction(), on_completion)) {
+        end_job_without_task(rctx);
         return true; // inactive tx error - this is normal error so return true
     }
 
@@ -736,6 +750,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
                     res
                 ), nullptr);
             utils::print_error(*rctx, msg);
+            end_job_without_task(rctx);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
         // pin primary storages in the transaction so that lazy deletion waits for tx completion
@@ -815,7 +830,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
         req->status(scheduler::request_detail_status::finishing);
         log_request(*req, rctx->status_code() == status::ok);
     }
-    ts.unregister_job(job->id());
+    end_job_without_task(rctx);
     return true;
 }
 
diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 0559398..440dc7a 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -450,6 +450,10 @@ void flat_task::resolve(tateyama::task_scheduler::context& ctx) {
     if(auto res = sctx_->database_->resolve_common(*sctx_->statement_, maybe_shared_ptr{sctx_->parameters_},
         e, info); res != status::ok) {
         set_error_info(*req_context_, info);
+        sctx_->callback_(res, std::move(info), nullptr);
+        // no other task is scheduled for this job, so let it end here
+        job()->callback([rctx=req_context_.ownership()]() { (void) rctx; });
+        submit_teardown(*req_context_);
     } else {
         executor::execute_async_on_context(
                 *sctx_->database_,
-- 
2.43.0


From 75b6491443d7df36535b74fb6d27455e74fb9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:07 +0000
Subject: [PATCH 37/92] fix: sorted_vector_reader takes every distinct sort key
 for a group of its own, and applies the limit to each of them

---
 .../executor/exchange/group/sorted_vector_reader.cpp  | 11 ++++++-----
 .../executor/exchange/group/sorted_vector_reader.h    |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
index 02da745..468430e 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
@@ -42,7 +42,8 @@ sorted_vector_reader::sorted_vector_reader(
     info_(std::move(info)),
     record_size_(info_->record_meta()->record_size()),
     buf_(std::make_unique<char[]>(record_size_)), //NOLINT
-    key_comparator_(info_->sort_compare_info())
+    key_comparator_(info_->compare_info()),
+    sort_key_comparator_(info_->sort_compare_info())
 {
     std::size_t count = 0;
     for(auto& p : partitions_) {
@@ -87,7 +88,7 @@ accessor::record_ref sorted_vector_reader::get_group() const {
 }
 
 void sorted_vector_reader::discard_remaining_members_in_group() {
-    auto k = info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_));
+    auto k = info_->extract_key(accessor::record_ref(buf_.get(), record_size_));
     while(current_ != aggregated_pointer_table_.end()) {
         if (key_comparator_(k, info_->extract_key(accessor::record_ref(*current_, record_size_))) != 0) {
             break;
@@ -115,8 +116,8 @@ bool sorted_vector_reader::next_member() {
             return false;
         }
         if (key_comparator_(
-                info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_)),
-                info_->extract_sort_key(accessor::record_ref(*current_, record_size_))) == 0) {
+                info_->extract_key(accessor::record_ref(buf_.get(), record_size_)),
+                info_->extract_key(accessor::record_ref(*current_, record_size_))) == 0) {
             read_and_pop();
             ++record_count_per_group_;
             return true;
@@ -168,7 +169,7 @@ void sorted_vector_reader::init_aggregated_table() {  //NOLINT(readability-funct
             aggregated_pointer_table_.begin(),
             aggregated_pointer_table_.end(),
             [&](auto const&x, auto const& y) {
-                return key_comparator_(
+                return sort_key_comparator_(
                     info_->extract_sort_key(accessor::record_ref(x, sz)),
                     info_->extract_sort_key(accessor::record_ref(y, sz))) < 0;
             }
diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
index d72c98f..8d6fb74 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
@@ -79,6 +79,7 @@ private:
     std::unique_ptr<char[]> buf_{}; //NOLINT
     reader_state state_{reader_state::init};
     comparator key_comparator_{};
+    comparator sort_key_comparator_{};
     std::vector<pointer> aggregated_pointer_table_{};
     bool aggregated_pointer_table_initialized = false;
     std::vector<pointer>::iterator current_{};
-- 
2.43.0


From f61d1b04d97191cb0b8b9a268df3811c30191430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 38/92] fix: left outer index join sends one null-padded row
 per rejected candidate, even when another candidate matches

---
 .../executor/process/impl/ops/index_join.h    | 22 +++++++++++++------
 .../process/impl/ops/index_join_context.h     |  1 +
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/index_join.h b/src/jogasaki/executor/process/impl/ops/index_join.h
index d49355c..885f168 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join.h
@@ -410,7 +410,8 @@ public:
             return operation_status_kind::ok;
         }
         // inner or left_outer join
-        if(ctx.matched_ || join_kind_ == join_kind::left_outer) {
+        ctx.exists_match_ = false;
+        if(ctx.matched_) {
             do {
                 if (condition_) {
                     // newly create c instead of re-using ectx since errors in ectx might have bad impact //TODO resolve this
@@ -427,14 +428,11 @@ public:
                         return operation_status_kind::aborted;
                     }
                     if(! r.template to<bool>()) {
-                        if(join_kind_ != join_kind::left_outer) {
-                            // inner join: skip record
-                            continue;
-                        }
-                        // left outer join: nullify output variables and send record downstream
-                        nullify_output_variables(ctx.variables().ref());
+                        // skip record (for left outer join, left record is sent after the loop if nothing matches)
+                        continue;
                     }
                 }
+                ctx.exists_match_ = true;
 resume_calling_child:
                 if (auto call_st = call_downstream(ctx, context); ! call_st) {
                     return call_st;
@@ -449,6 +447,16 @@ resume_calling_child:
             ctx.abort();
             return operation_status_kind::aborted;
         }
+        if(join_kind_ == join_kind::left_outer && ! ctx.exists_match_) {
+            // left outer join: no record matches, so send left record with output variables nullified
+            nullify_output_variables(ctx.variables().ref());
+            // no more records to process even if downstream yields and comes back to resume_calling_child
+            ctx.matched_ = false;
+            ctx.exists_match_ = true;
+            if (auto call_st = call_downstream(ctx, context); ! call_st) {
+                return call_st;
+            }
+        }
         return operation_status_kind::ok;
     }
 
diff --git a/src/jogasaki/executor/process/impl/ops/index_join_context.h b/src/jogasaki/executor/process/impl/ops/index_join_context.h
index c8e7305..12c3bc1 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join_context.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join_context.h
@@ -102,6 +102,7 @@ private:
 
     // frame variables for yield
     bool matched_{};
+    bool exists_match_{};
 };
 
 }  // namespace jogasaki::executor::process::impl::ops
-- 
2.43.0


From f4c4736fef097f8c1a68579766522ad72ebd3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 39/92] fix: secondary index on a primary key column whose
 direction differs from that of the primary key

---
 src/jogasaki/index/secondary_target.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/index/secondary_target.cpp b/src/jogasaki/index/secondary_target.cpp
index 8259fba..38a6e47 100644
--- a/src/jogasaki/index/secondary_target.cpp
+++ b/src/jogasaki/index/secondary_target.cpp
@@ -157,7 +157,7 @@ secondary_target::field_mapping_type secondary_target::create_fields(
     for(auto&& k : idx.keys()) {
         bool found = false;
         for(std::size_t i=0, n=primary->keys().size(); i<n; ++i) {
-            if(primary->keys().at(i) == k) {
+            if(primary->keys().at(i).column() == k.column()) {
                 auto spec = k.direction() == takatori::relation::sort_direction::ascendant ?
                     kvs::spec_key_ascending : kvs::spec_key_descending;
                 ret.emplace_back(
-- 
2.43.0


From 24a3cbe4f8494f7f8022b6f7530d2200dbcf0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 40/92] fix: reply to the client when the task resolving a
 statement ends with an exception

---
 src/jogasaki/scheduler/flat_task.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 440dc7a..949d0de 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -344,6 +344,10 @@ bool flat_task::execute_with_catch(tateyama::task_scheduler::context& ctx) {
         // Otherwise, the request appears to remain running and shutdown of session or database is hindered.
         job_completes = true;
         set_error_context(*req_context_, error_code::unknown_internal_error, "unexpected internal error occurred "+message, status::err_unknown);
+        if(kind_ == flat_task_kind::resolve && ! job()->callback()) {
+            // execution has not started yet, so nothing other than the statement callback replies back to client
+            sctx_->callback_(req_context_->status_code(), req_context_->error_info(), nullptr);
+        }
     }
     return job_completes;
 
-- 
2.43.0


From 8c11cefa372cc8c831e0c76c56850c3f6a8ae4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 41/92] fix: sinks of a forward or group exchange were added
 while tasks of another upstream process read them

---
 src/jogasaki/executor/exchange/forward/flow.cpp | 6 ++++++
 src/jogasaki/executor/exchange/forward/flow.h   | 3 +++
 src/jogasaki/executor/exchange/group/flow.cpp   | 5 +++++
 src/jogasaki/executor/exchange/group/flow.h     | 2 ++
 4 files changed, 16 insertions(+)

diff --git a/src/jogasaki/executor/exchange/forward/flow.cpp b/src/jogasaki/executor/exchange/forward/flow.cpp
index 9dcdb42..6ca7a38 100644
--- a/src/jogasaki/executor/exchange/forward/flow.cpp
+++ b/src/jogasaki/executor/exchange/forward/flow.cpp
@@ -16,6 +16,7 @@
 #include "flow.h"
 
 #include <algorithm>
+#include <mutex>
 #include <utility>
 #include <vector>
 #include <glog/logging.h>
@@ -62,6 +63,7 @@ void flow::setup_partitions(std::size_t partitions) {
     for(std::size_t i=0; i < partitions; ++i) {
         shared_partitions.emplace_back(std::make_shared<input_partition>(info_));
     }
+    std::unique_lock lk{mutex_};
     for(std::size_t i=0; i < partitions; ++i) {
         sinks_.emplace_back(
             std::make_unique<forward::sink>(info_, context_, write_count, shared_partitions[i])
@@ -79,18 +81,22 @@ void flow::setup_partitions(std::size_t partitions) {
 }
 
 std::size_t flow::sink_count() const noexcept {
+    std::unique_lock lk{mutex_};
     return sinks_.size();
 }
 
 std::size_t flow::source_count() const noexcept {
+    std::unique_lock lk{mutex_};
     return sources_.size();
 }
 
 exchange::sink& flow::sink_at(std::size_t index) {
+    std::unique_lock lk{mutex_};
     return *sinks_[index];
 }
 
 exchange::source& flow::source_at(std::size_t index) {
+    std::unique_lock lk{mutex_};
     return *sources_[index];
 }
 
diff --git a/src/jogasaki/executor/exchange/forward/flow.h b/src/jogasaki/executor/exchange/forward/flow.h
index db9a614..63851c0 100644
--- a/src/jogasaki/executor/exchange/forward/flow.h
+++ b/src/jogasaki/executor/exchange/forward/flow.h
@@ -16,7 +16,9 @@
 #pragma once
 
 #include <cstddef>
+#include <deque>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 #include <takatori/util/maybe_shared_ptr.h>
@@ -89,6 +91,7 @@ public:
 private:
     std::vector<std::shared_ptr<model::task>> tasks_{};
     std::shared_ptr<forward_info> info_{};
+    mutable std::mutex mutex_{};  // guards sinks_/sources_, which grow while tasks of other upstream processes are running
     std::deque<std::unique_ptr<forward::sink>> sinks_{};  // use deque to avoid relocation
     std::deque<std::unique_ptr<forward::source>> sources_{}; // use deque to avoid relocation
     request_context* context_{};
diff --git a/src/jogasaki/executor/exchange/group/flow.cpp b/src/jogasaki/executor/exchange/group/flow.cpp
index 350d645..aa2debb 100644
--- a/src/jogasaki/executor/exchange/group/flow.cpp
+++ b/src/jogasaki/executor/exchange/group/flow.cpp
@@ -68,6 +68,7 @@ takatori::util::sequence_view<std::shared_ptr<model::task>> flow::create_tasks()
 
 void flow::setup_partitions(std::size_t partitions) {
     // note this function can be called multiple times (e.g. multiple input process)
+    std::unique_lock lk{mutex_};
     // add sinks for the requested partitions, while keep the number of sources same as `downstream_partitions_`
     for(std::size_t i=0; i < partitions; ++i) {
         sinks_.emplace_back(std::make_unique<group::sink>(downstream_partitions_, info_, context()));
@@ -81,18 +82,22 @@ void flow::setup_partitions(std::size_t partitions) {
 }
 
 std::size_t flow::sink_count() const noexcept {
+    std::unique_lock lk{mutex_};
     return sinks_.size();
 }
 
 std::size_t flow::source_count() const noexcept {
+    std::unique_lock lk{mutex_};
     return sources_.size();
 }
 
 exchange::sink& flow::sink_at(std::size_t index) {
+    std::unique_lock lk{mutex_};
     return *sinks_[index];
 }
 
 exchange::source& flow::source_at(std::size_t index) {
+    std::unique_lock lk{mutex_};
     return *sources_[index];
 }
 
diff --git a/src/jogasaki/executor/exchange/group/flow.h b/src/jogasaki/executor/exchange/group/flow.h
index db858dd..48a4338 100644
--- a/src/jogasaki/executor/exchange/group/flow.h
+++ b/src/jogasaki/executor/exchange/group/flow.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <mutex>
 #include <vector>
 #include <deque>
 
@@ -111,6 +112,7 @@ public:
 private:
     std::vector<std::shared_ptr<model::task>> tasks_{};
     std::shared_ptr<group_info> info_{};
+    mutable std::mutex mutex_{};  // guards sinks_/sources_, which grow while tasks of other upstream processes are running
     std::deque<std::unique_ptr<group::sink>> sinks_;  // using deque to avoid relocation
     std::vector<std::unique_ptr<group::source>> sources_{};
     class request_context* context_{};
-- 
2.43.0


From 1fd5695219549678e9f6d3be116687eadac65d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 42/92] fix: flush of a group or aggregate exchange writer
 which has written no record indexed an empty vector

---
 src/jogasaki/executor/exchange/aggregate/writer.cpp | 6 +++---
 src/jogasaki/executor/exchange/group/writer.cpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/exchange/aggregate/writer.cpp b/src/jogasaki/executor/exchange/aggregate/writer.cpp
index a4845a3..27206e3 100644
--- a/src/jogasaki/executor/exchange/aggregate/writer.cpp
+++ b/src/jogasaki/executor/exchange/aggregate/writer.cpp
@@ -44,9 +44,9 @@ bool writer::write(accessor::record_ref rec) {
 }
 
 void writer::flush() {
-    for(std::size_t i=0; i < downstream_partitions_; ++i) {
-        if (partitions_[i]) {
-            partitions_[i]->flush();
+    for(auto& p : partitions_) {  // empty if no record has been written
+        if (p) {
+            p->flush();
         }
     }
 }
diff --git a/src/jogasaki/executor/exchange/group/writer.cpp b/src/jogasaki/executor/exchange/group/writer.cpp
index 9df87f0..04448ad 100644
--- a/src/jogasaki/executor/exchange/group/writer.cpp
+++ b/src/jogasaki/executor/exchange/group/writer.cpp
@@ -49,9 +49,9 @@ bool writer::write(accessor::record_ref rec) {
 }
 
 void writer::flush() {
-    for(std::size_t i=0; i < downstream_partitions_; ++i) {
-        if (partitions_[i]) {
-            partitions_[i]->flush();
+    for(auto& p : partitions_) {  // empty if no record has been written
+        if (p) {
+            p->flush();
         }
     }
 }
-- 
2.43.0


From e480c73e4a741ff0cc622b3ef9ddb47320b4b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 43/92] fix: COUNT(DISTINCT) counted every NaN as a value of
 its own

---
 .../executor/function/builtin_functions.cpp         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_functions.cpp b/src/jogasaki/executor/function/builtin_functions.cpp
index 3858981..493a29e 100644
--- a/src/jogasaki/executor/function/builtin_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_functions.cpp
@@ -47,6 +47,7 @@
 #include <jogasaki/accessor/binary.h>
 #include <jogasaki/accessor/record_ref.h>
 #include <jogasaki/accessor/text.h>
+#include <jogasaki/executor/equal_to.h>
 #include <jogasaki/executor/function/aggregate_function_info.h>
 #include <jogasaki/executor/function/aggregate_function_kind.h>
 #include <jogasaki/executor/function/aggregate_function_repository.h>
@@ -238,11 +239,19 @@ namespace builtin {
 
 namespace details {
 
+// equality consistent with the comparison operator (e.g. NaN is equal to itself)
+template<class T>
+struct value_equal_to {
+    bool operator()(T const& x, T const& y) const {
+        return executor::equal_to<T>(x, y);
+    }
+};
+
 template<class T>
 static std::int64_t count_distinct(data::value_store const& store) {
     using bucket_type = tsl::detail_hopscotch_hash::hopscotch_bucket<T, 62, false>;
     using hash_table_allocator = boost::container::pmr::polymorphic_allocator<T>;
-    using hash_set = tsl::hopscotch_set<T, std::hash<T>, std::equal_to<>, hash_table_allocator>;
+    using hash_set = tsl::hopscotch_set<T, std::hash<T>, value_equal_to<T>, hash_table_allocator>;
     // hopscotch default power_of_two_growth_policy forces the # of buckets to be power of two,
     // so round down here to avoid going over allocator limit
     constexpr static std::size_t default_initial_hash_table_size =
@@ -255,7 +264,7 @@ static std::int64_t count_distinct(data::value_store const& store) {
     hash_set values{
         default_initial_hash_table_size,
         std::hash<T>{},
-        std::equal_to<>{},
+        value_equal_to<T>{},
         hash_table_allocator{&resource}
     };
     while(b != e) {
-- 
2.43.0


From 4b774f4effe02921662e019b32b8ea26b359e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 44/92] fix: aggregate exchange failed with bad_alloc when the
 hash values of the keys collide

---
 .../exchange/aggregate/input_partition.cpp       | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/exchange/aggregate/input_partition.cpp b/src/jogasaki/executor/exchange/aggregate/input_partition.cpp
index cae97d1..14e7861 100644
--- a/src/jogasaki/executor/exchange/aggregate/input_partition.cpp
+++ b/src/jogasaki/executor/exchange/aggregate/input_partition.cpp
@@ -16,6 +16,7 @@
 #include "input_partition.h"
 
 #include <functional>
+#include <new>
 #include <type_traits>
 
 #include <takatori/util/maybe_shared_ptr.h>
@@ -77,6 +78,7 @@ bool input_partition::write(accessor::record_ref record) {
     auto& value_meta = info_->pre().group_meta()->value_shared();
     accessor::record_ref value{};
     bool initial = false;
+    bool flushed = false;
     if (auto it = hash_table_->find(key_buf.data()); it != hash_table_->end()) {
         value = accessor::record_ref(it->second, value_meta->record_size());
     } else {
@@ -85,7 +87,15 @@ bool input_partition::write(accessor::record_ref record) {
         accessor::record_ref key{keys_->allocate_record(), key_meta->record_size()};
         keys_->copier()(key, key_buf);
         key.set_value<void*>(key_meta->value_offset(key_meta->field_count()-1), value.data());
-        hash_table_->emplace(key.data(), value.data());
+        try {
+            hash_table_->emplace(key.data(), value.data());
+        } catch (std::bad_alloc const&) {
+            // The table tried to grow beyond the allocator limit because too many keys fell in a neighborhood.
+            // Finish the current pointer table and continue with the cleared hash table.
+            flush();
+            flushed = true;
+            hash_table_->emplace(key.data(), value.data());
+        }
         if(! current_table_active_) {
             pointer_tables_.emplace_back(resource_for_ptr_tables_.get(), max_pointers_);
             current_table_active_ = true;
@@ -110,9 +120,7 @@ bool input_partition::write(accessor::record_ref record) {
         flush();
         return true;
     }
-    // TODO predict and avoid unexpected reallocation (e.g. all neighbors occupied)
-    // where memory allocator raises bad_alloc
-    return false;
+    return flushed;
 }
 
 void input_partition::aggregate_empty_input() {
-- 
2.43.0


From d34108f9dba043670e91153c999cac2160040288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:40 +0000
Subject: [PATCH 45/92] fix: COUNT(DISTINCT) of more than about 59000 distinct
 values failed with bad_alloc

---
 .../executor/function/builtin_functions.cpp    | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_functions.cpp b/src/jogasaki/executor/function/builtin_functions.cpp
index 493a29e..0ed73c4 100644
--- a/src/jogasaki/executor/function/builtin_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_functions.cpp
@@ -249,24 +249,12 @@ struct value_equal_to {
 
 template<class T>
 static std::int64_t count_distinct(data::value_store const& store) {
-    using bucket_type = tsl::detail_hopscotch_hash::hopscotch_bucket<T, 62, false>;
-    using hash_table_allocator = boost::container::pmr::polymorphic_allocator<T>;
-    using hash_set = tsl::hopscotch_set<T, std::hash<T>, value_equal_to<T>, hash_table_allocator>;
-    // hopscotch default power_of_two_growth_policy forces the # of buckets to be power of two,
-    // so round down here to avoid going over allocator limit
-    constexpr static std::size_t default_initial_hash_table_size =
-        utils::round_down_to_power_of_two(memory::page_size / sizeof(bucket_type) - 32); // hopscotch has some (~1KB)
-                                                                                     // overhead outside bucket storage
+    // the number of distinct values is not bounded, so do not use paged memory resource that limits the hash table size
+    using hash_set = tsl::hopscotch_set<T, std::hash<T>, value_equal_to<T>>;
 
     auto b = store.begin<T>();
     auto e = store.end<T>();
-    memory::monotonic_paged_memory_resource resource{&global::page_pool()};
-    hash_set values{
-        default_initial_hash_table_size,
-        std::hash<T>{},
-        value_equal_to<T>{},
-        hash_table_allocator{&resource}
-    };
+    hash_set values{};
     while(b != e) {
         if (! b.is_null()) {
             values.emplace(*b);
-- 
2.43.0


From 0d0ce6dfc0b8df375c800438a2640d2d78d52534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 46/92] fix: record store of a forward exchange partition was
 created by the reader and the writer at the same time

---
 .../executor/exchange/forward/input_partition.cpp    | 12 +++++++-----
 .../executor/exchange/forward/input_partition.h      |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/exchange/forward/input_partition.cpp b/src/jogasaki/executor/exchange/forward/input_partition.cpp
index 2d1c13d..97666e8 100644
--- a/src/jogasaki/executor/exchange/forward/input_partition.cpp
+++ b/src/jogasaki/executor/exchange/forward/input_partition.cpp
@@ -35,7 +35,9 @@ input_partition::input_partition(
     std::shared_ptr<forward_info> info
 ) :
     info_(std::move(info))
-{}
+{
+    initialize();
+}
 
 input_partition::input_partition(
     std::unique_ptr<memory::fifo_paged_memory_resource> resource,
@@ -45,15 +47,15 @@ input_partition::input_partition(
     resource_(std::move(resource)),
     varlen_resource_(std::move(varlen_resource)),
     info_(std::move(info))
-{}
+{
+    initialize();
+}
 
 void input_partition::push(accessor::record_ref record) {
-    initialize_lazy();
     records_->push(record);
 }
 
 bool input_partition::try_pop(accessor::record_ref& out) {
-    initialize_lazy();
     return records_->try_pop(out);
 }
 
@@ -61,7 +63,7 @@ void input_partition::flush() {
     // no-op
 }
 
-void input_partition::initialize_lazy() {
+void input_partition::initialize() {
     if (! resource_) {
         resource_=
             std::make_unique<memory::fifo_paged_memory_resource>(std::addressof(global::page_pool()));
diff --git a/src/jogasaki/executor/exchange/forward/input_partition.h b/src/jogasaki/executor/exchange/forward/input_partition.h
index 6631615..61454f4 100644
--- a/src/jogasaki/executor/exchange/forward/input_partition.h
+++ b/src/jogasaki/executor/exchange/forward/input_partition.h
@@ -111,7 +111,8 @@ private:
     std::unique_ptr<data::fifo_record_store> records_{};
     std::atomic_bool active_{true};
 
-    void initialize_lazy();
+    // create the record store on construction, as writer and reader possibly work on it concurrently
+    void initialize();
 };
 
 }  // namespace jogasaki::executor::exchange::forward
-- 
2.43.0


From 9629a47bac33358d94a758f2ba0ab8b9f31c60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:44 +0000
Subject: [PATCH 47/92] fix: refuse to commit a transaction in which a request
 failed

---
 src/jogasaki/executor/executor.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 857f6f1..b3672ba 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -1049,6 +1049,20 @@ scheduler::job_context::job_id_type commit_async(
             return model::task_result::complete;
         }
 
+        if (auto info = rctx->transaction()->error_info(); info && *info) {
+            // an earlier request failed and the transaction is regarded as aborted, but cc engine is not necessarily
+            // aware of that (e.g. failure in evaluating expressions) - abort explicitly so that nothing is committed
+            (void) rctx->transaction()->abort_transaction();
+            set_error_context(
+                *rctx,
+                error_code::inactive_transaction_exception,
+                "Current transaction is inactive (maybe aborted already.)",
+                status::err_inactive_transaction
+            );
+            handle_error(*rctx);
+            return model::task_result::complete;
+        }
+
         rctx->transaction()->state(transaction_state_kind::going_to_commit);
         rctx->transaction()->profile()->set_commit_requested();
         [[maybe_unused]] auto b = rctx->transaction()->commit(
-- 
2.43.0


From 5a2977c918080809a4a5c644874e5c50269338e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:44 +0000
Subject: [PATCH 48/92] fix: do not run write operators of a read only
 transaction concurrently without strand

---
 src/jogasaki/executor/process/flow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/process/flow.cpp b/src/jogasaki/executor/process/flow.cpp
index e59c4d4..6f7495b 100644
--- a/src/jogasaki/executor/process/flow.cpp
+++ b/src/jogasaki/executor/process/flow.cpp
@@ -145,8 +145,9 @@ sequence_view<std::shared_ptr<model::task>> flow::create_tasks() {
 
         auto [rtx_parallel_scan_enabled, scan_parallel_count] = utils::scan_parallel_enabled(*context_->transaction());
         (void) scan_parallel_count;
-        if (is_rtx && rtx_parallel_scan_enabled) {
+        if (is_rtx && rtx_parallel_scan_enabled && ! d.has_write_operations()) {
             // parallel rtx operations need not to be sticky
+            // (write operators do not use strand, so they must not run concurrently even though they finally fail)
             tx_capability = model::task_transaction_kind::in_transaction;
         } else {
             tx_capability = model::task_transaction_kind::sticky;
-- 
2.43.0


From 344892c1fd14829b089ee75759277e56fa168297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 49/92] fix: a transaction is committed once its commit is
 accepted

The state stayed cc_committing (published as COMMITTING) after the response
to a commit with accepted/available, and while waiting for durability.
---
 src/jogasaki/executor/executor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index b3672ba..74fd7fd 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -924,6 +924,7 @@ static void process_commit_callback(
         return;
     }
     rctx->transaction()->durability_marker(marker);
+    rctx->transaction()->state(transaction_state_kind::committed_available);
 
     // if auto dispose
     if (option.auto_dispose_on_success()) {
-- 
2.43.0


From 07f304dfcb1995c0d6b00ce288c13761ac942db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:28 +0000
Subject: [PATCH 50/92] fix: synchronous commit returns only after its status
 is written

The callback set the flag before the status, both on the stack of the waiting
thread, so that the status was lost and memory overwritten when the callback
runs in other thread.
---
 src/jogasaki/kvs/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/kvs/transaction.cpp b/src/jogasaki/kvs/transaction.cpp
index 39f4257..fa776b1 100644
--- a/src/jogasaki/kvs/transaction.cpp
+++ b/src/jogasaki/kvs/transaction.cpp
@@ -78,8 +78,8 @@ status transaction::commit(bool async) {
     ){
         (void) ec;
         (void) marker;
-        callback_called = true;
         rc = resolve(st);
+        callback_called = true; // must be last - the waiting thread returns on this and local variables are gone
     });
     if(! b) {
         while(! callback_called) {}
-- 
2.43.0


From 1ab4ccfd30df1bdc402c519969622de7c6f81295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 51/92] fix: count the task of an INSERT as in use of its
 transaction

The task was not counted, so that a commit or an abort requested meanwhile
ran at the same time as its writes, and a commit stored a part of the rows.
---
 src/jogasaki/scheduler/flat_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 949d0de..faf10e9 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -495,7 +495,8 @@ flat_task::flat_task(
     kind_(flat_task_kind::write),
     req_context_(rctx),
     write_(write),
-    sticky_(true)
+    sticky_(true),
+    in_transaction_(true)
 {}
 
 bool flat_task::sticky() const noexcept {
-- 
2.43.0


From cfe9c7ebbb4a4568c4cf089211897510a9185947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:50 +0000
Subject: [PATCH 52/92] fix: diagnostics do not iterate over jobs while they
 are added and removed

Iterating the concurrent hash map during erase touched released jobs.
---
 .../scheduler/stealing_task_scheduler.cpp     | 26 ++++++++++---------
 .../scheduler/stealing_task_scheduler.h       |  2 ++
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/jogasaki/scheduler/stealing_task_scheduler.cpp b/src/jogasaki/scheduler/stealing_task_scheduler.cpp
index b7fc4dd..92fd9ac 100644
--- a/src/jogasaki/scheduler/stealing_task_scheduler.cpp
+++ b/src/jogasaki/scheduler/stealing_task_scheduler.cpp
@@ -18,7 +18,9 @@
 #include <atomic>
 #include <cstdint>
 #include <emmintrin.h>
+#include <mutex>
 #include <ostream>
+#include <shared_mutex>
 #include <stdexcept>
 #include <string_view>
 #include <unordered_map>
@@ -164,32 +166,32 @@ tateyama::task_scheduler::task_scheduler_cfg stealing_task_scheduler::create_sch
 
 void stealing_task_scheduler::register_job(std::shared_ptr<job_context> ctx) {
     auto cid = ctx->id();
+    std::shared_lock lk{job_contexts_mutex_};
     if(! job_contexts_.emplace(cid, std::move(ctx))) {
         throw_exception(std::logic_error{""});
     }
 }
 
 void stealing_task_scheduler::unregister_job(std::size_t job_id) {
-    if(! job_contexts_.erase(job_id)) {
+    std::shared_ptr<job_context> released{}; // keep until unlock
+    std::shared_lock lk{job_contexts_mutex_};
+    decltype(job_contexts_)::accessor acc{};
+    if(! job_contexts_.find(acc, job_id)) {
         throw_exception(std::logic_error{""});
     }
+    released = std::move(acc->second);
+    job_contexts_.erase(acc);
 }
 
 void stealing_task_scheduler::print_diagnostic(std::ostream &os) {
     // In order to avoid timing issue while printing jobs,
     // copy job contexts first so that it keeps shared_ptr until end of printing.
-    // Iterating tbb hash map is not thread-safe, and this is not complete solution,
-    // but we are doing our best for safety as much as possible.
+    // Iterating tbb hash map is not thread-safe, so keep jobs from being added or removed meanwhile.
     std::unordered_map<std::size_t, std::shared_ptr<job_context>> copied{};
-    for(auto [k, c] : job_contexts_) {  //NOLINT(performance-for-range-copy) using copy to keep shared_ptr ownership
-        (void) c;
-        {
-            decltype(job_contexts_)::accessor acc{};
-            if (! job_contexts_.find(acc, k)) {
-                // job already completed and is erased
-                continue;
-            }
-            copied.emplace(k, acc->second);
+    {
+        std::unique_lock lk{job_contexts_mutex_};
+        for(auto&& [k, c] : job_contexts_) {
+            copied.emplace(k, c);
         }
     }
     auto jobs = copied.size();
diff --git a/src/jogasaki/scheduler/stealing_task_scheduler.h b/src/jogasaki/scheduler/stealing_task_scheduler.h
index 4f24bc3..f30e43a 100644
--- a/src/jogasaki/scheduler/stealing_task_scheduler.h
+++ b/src/jogasaki/scheduler/stealing_task_scheduler.h
@@ -20,6 +20,7 @@
 #include <exception>
 #include <iosfwd>
 #include <memory>
+#include <shared_mutex>
 #include <vector>
 #include <boost/exception/exception.hpp>
 #include <tbb/concurrent_hash_map.h>
@@ -123,6 +124,7 @@ private:
     tateyama::task_scheduler::task_scheduler_cfg scheduler_cfg_{};
     tateyama::task_scheduler::scheduler<flat_task, conditional_task> scheduler_;
     tbb::concurrent_hash_map<std::size_t, std::shared_ptr<job_context>> job_contexts_{};
+    std::shared_mutex job_contexts_mutex_{}; // exclusive to iterate over job contexts
 
     tateyama::task_scheduler::task_scheduler_cfg create_scheduler_cfg(thread_params params);
 };
-- 
2.43.0


From a5d2c7887440c6c4e6f500c09d36b1c7fc32464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 53/92] fix: compute ranges of parallel scan on a strand,
 keeping the transaction in use

Ranges are computed while operators are created, out of the tasks in the
transaction, so that its handle was used at the same time by other requests,
and the transaction was committed or aborted meanwhile.
---
 .../process/impl/ops/operator_builder.cpp     | 70 +++++++++++++++++--
 1 file changed, 63 insertions(+), 7 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
index f3fcf79..4d66605 100644
--- a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
+++ b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
@@ -38,6 +38,7 @@
 #include <yugawara/function/declaration.h>
 #include <yugawara/storage/table.h>
 
+#include <jogasaki/commit_common.h>
 #include <jogasaki/data/iterable_record_store.h>
 #include <jogasaki/dist/key_range.h>
 #include <jogasaki/dist/simple_key_distribution.h>
@@ -57,8 +58,11 @@
 #include <jogasaki/executor/process/processor_info.h>
 #include <jogasaki/executor/process/relation_io_map.h>
 #include <jogasaki/executor/process/step.h>
+#include <jogasaki/kvs/transaction.h>
 #include <jogasaki/memory/lifo_paged_memory_resource.h>
 #include <jogasaki/plan/plan_exception.h>
+#include <jogasaki/request_context.h>
+#include <jogasaki/transaction_context.h>
 #include <jogasaki/utils/assert.h>
 #include <jogasaki/utils/from_endpoint.h>
 #include <jogasaki/utils/get_storage_by_index_name.h>
@@ -486,6 +490,50 @@ std::unique_ptr<operator_base> operator_builder::operator()(const relation::step
     );
 }
 
+namespace {
+
+/**
+ * @brief declaration of using the transaction, by which commit and abort requests are kept from ending it meanwhile
+ */
+class transaction_in_use {
+public:
+    explicit transaction_in_use(request_context& rctx) :
+        rctx_(rctx)
+    {
+        termination_state ts{};
+        acquired_ = rctx_.transaction()->termination_mgr().try_increment_task_use_count(ts);
+    }
+
+    ~transaction_in_use() {
+        if(! acquired_) {
+            return;
+        }
+        auto& tctx = *rctx_.transaction();
+        termination_state ts{};
+        tctx.termination_mgr().decrement_task_use_count(ts);
+        if(ts.going_to_abort() && ts.task_empty()) {
+            // abort requested meanwhile
+            (void) tctx.abort_transaction();
+            log_end_of_tx(tctx, true, rctx_.req_info());
+        }
+    }
+
+    transaction_in_use(transaction_in_use const& other) = delete;
+    transaction_in_use& operator=(transaction_in_use const& other) = delete;
+    transaction_in_use(transaction_in_use&& other) = delete;
+    transaction_in_use& operator=(transaction_in_use&& other) = delete;
+
+    explicit operator bool() const noexcept {
+        return acquired_;
+    }
+
+private:
+    request_context& rctx_;
+    bool acquired_{};
+};
+
+}  // namespace
+
 std::vector<std::shared_ptr<impl::scan_range>> operator_builder::create_scan_ranges(relation::scan const& node) {
     std::vector<std::shared_ptr<impl::scan_range>> scan_ranges{};
     auto& secondary_or_primary_index =
@@ -534,22 +582,30 @@ std::vector<std::shared_ptr<impl::scan_range>> operator_builder::create_scan_ran
     const auto option = request_context_->transaction()->option();
     const bool is_rtx = option && option->readonly();
     if (rtx_parallel_scan_enabled && scan_parallel_count > 1 && is_rtx && !is_empty) {
+        // Operators are created out of the tasks in the transaction, so declare its use and access it on a new strand,
+        // otherwise other request can use or end the transaction at the same time.
+        transaction_in_use in_use{*request_context_};
         std::unique_ptr<kvs::storage> stg{};
+        std::unique_ptr<kvs::transaction> strand{};
         std::unique_ptr<dist::key_distribution> distribution{};
         if(global::config_pool()->key_distribution() == key_distribution_kind::uniform) {
-            stg = utils::get_storage_by_index_name(secondary_or_primary_index.simple_name());
-            distribution = std::make_unique<dist::uniform_key_distribution>(
-                *stg,
-                *request_context_->transaction()->object(),
-                request_context_
-            );
+            if(in_use && (strand = request_context_->transaction()->object()->acquire_strand()) != nullptr) {
+                stg = utils::get_storage_by_index_name(secondary_or_primary_index.simple_name());
+                distribution = std::make_unique<dist::uniform_key_distribution>(
+                    *stg,
+                    *strand,
+                    request_context_
+                );
+            }
         } else {
             distribution = std::make_unique<dist::simple_key_distribution>();
         }
         const jogasaki::dist::key_range range(
             begin.key(), begin.endpointkind(), end.key(), end.endpointkind());
         const auto pivot_count = scan_parallel_count - 1;
-        auto pivots = distribution->compute_pivots(pivot_count, range); // possibly throws plan_exception
+        auto pivots = distribution
+            ? distribution->compute_pivots(pivot_count, range) // possibly throws plan_exception
+            : std::vector<dist::key_distribution::pivot_type>{};
         scan_ranges.reserve(pivots.size() + 1);
         if (pivots.empty()) {
             scan_ranges.emplace_back(
-- 
2.43.0


From 0eea684d8e5d3d7bdffa88a78f32d804ba037cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 54/92] fix: abort on errors only when no other task is using
 the transaction

Requests to abort wait for the tasks in the transaction, but failing write
operations aborted at once, while tasks of parallel scan use it.
---
 .../executor/process/impl/ops/write_create.cpp     |  6 ++----
 .../executor/process/impl/ops/write_existing.cpp   |  5 ++---
 src/jogasaki/utils/abort_transaction.cpp           | 14 +++++++++++++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/write_create.cpp b/src/jogasaki/executor/process/impl/ops/write_create.cpp
index c944e27..996c66b 100644
--- a/src/jogasaki/executor/process/impl/ops/write_create.cpp
+++ b/src/jogasaki/executor/process/impl/ops/write_create.cpp
@@ -61,6 +61,7 @@
 #include <jogasaki/request_statistics.h>
 #include <jogasaki/status.h>
 #include <jogasaki/transaction_context.h>
+#include <jogasaki/utils/abort_transaction.h>
 #include <jogasaki/utils/assert.h>
 #include <jogasaki/utils/checkpoint_holder.h>
 #include <jogasaki/utils/copy_field_data.h>
@@ -76,13 +77,10 @@ namespace jogasaki::executor::process::impl::ops {
 
 using variable = takatori::descriptor::variable;
 
-using takatori::util::throw_exception;
 namespace details {
 
 static void abort_transaction(transaction_context& tx) {
-    if (auto res = tx.abort_transaction(); res != status::ok) {
-        throw_exception(std::logic_error{"abort failed unexpectedly"});
-    }
+    utils::abort_transaction(tx);
 }
 
 }  // namespace details
diff --git a/src/jogasaki/executor/process/impl/ops/write_existing.cpp b/src/jogasaki/executor/process/impl/ops/write_existing.cpp
index f70a44a..1c68a7c 100644
--- a/src/jogasaki/executor/process/impl/ops/write_existing.cpp
+++ b/src/jogasaki/executor/process/impl/ops/write_existing.cpp
@@ -62,6 +62,7 @@
 #include <jogasaki/request_statistics.h>
 #include <jogasaki/status.h>
 #include <jogasaki/transaction_context.h>
+#include <jogasaki/utils/abort_transaction.h>
 #include <jogasaki/utils/assert.h>
 #include <jogasaki/utils/copy_field_data.h>
 #include <jogasaki/utils/fail.h>
@@ -109,9 +110,7 @@ operation_status write_existing::operator()(write_existing_context& ctx) {
 }
 
 static void abort_transaction(transaction_context& tx) {
-    if (auto res = tx.abort_transaction(); res != status::ok) {
-        throw_exception(std::logic_error{"abort failed unexpectedly"});
-    }
+    utils::abort_transaction(tx);
 }
 
 status update_record(
diff --git a/src/jogasaki/utils/abort_transaction.cpp b/src/jogasaki/utils/abort_transaction.cpp
index 1d32548..44f81b8 100644
--- a/src/jogasaki/utils/abort_transaction.cpp
+++ b/src/jogasaki/utils/abort_transaction.cpp
@@ -34,7 +34,19 @@ void abort_transaction(kvs::transaction& tx) {
 }
 
 void abort_transaction(transaction_context& tx) {
-    abort_transaction(*tx.object());
+    termination_state ts{};
+    if (! tx.termination_mgr().try_set_going_to_abort(ts)) {
+        // already requested to terminate
+        return;
+    }
+    tx.state(transaction_state_kind::going_to_abort);
+    if (! ts.task_empty()) {
+        // other tasks can be using the transaction - the last one (possibly the current task) aborts on its completion
+        return;
+    }
+    if (auto res = tx.abort_transaction(); res != status::ok) {
+        throw_exception(std::logic_error{"abort failed unexpectedly"});
+    }
 }
 
 }  // namespace jogasaki::utils
-- 
2.43.0


From 20eed439b0d90d6297d17252fb1d60f749f5de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 55/92] fix: serialize adding storage references and releasing
 them at transaction end

A request on a transaction adds references while other request ends it, and
the released scope was accessed.
---
 src/jogasaki/transaction_context.cpp | 10 +++++++---
 src/jogasaki/transaction_context.h   |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/transaction_context.cpp b/src/jogasaki/transaction_context.cpp
index 1d131a5..1e04fac 100644
--- a/src/jogasaki/transaction_context.cpp
+++ b/src/jogasaki/transaction_context.cpp
@@ -80,7 +80,7 @@ transaction_context::operator bool() const noexcept {
 
 status transaction_context::commit(bool async) {
     auto ret = transaction_->commit(async);
-    storage_ref_scope_.reset(); // release storage refs so maintenance thread can clean up
+    reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
     storage_lock_.reset();      // release write lock so DML can proceed after DDL commit
     return ret;
 }
@@ -92,7 +92,7 @@ bool transaction_context::commit(transaction_context::commit_callback_type cb) {
 
 status transaction_context::abort_transaction() {
     auto ret = transaction_->abort_transaction();
-    storage_ref_scope_.reset(); // release storage refs so maintenance thread can clean up
+    reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
     storage_lock_.reset(); // release storage lock as soon as possible
     state_.set(transaction_state_kind::aborted);
     return ret;
@@ -189,10 +189,14 @@ void transaction_context::storage_lock(std::unique_ptr<storage::unique_lock> arg
 }
 
 void transaction_context::reset_storage_ref_scope() noexcept {
-    storage_ref_scope_.reset();
+    std::unique_ptr<storage::reference_scope> released{}; // keep until unlock
+    std::scoped_lock lock{storage_ref_mutex_};
+    released = std::move(storage_ref_scope_);
 }
 
 void transaction_context::add_storage_ref(storage::storage_entry entry) {
+    // other requests possibly end the transaction and release the scope at the same time
+    std::scoped_lock lock{storage_ref_mutex_};
     if (storage_ref_scope_) {
         storage_ref_scope_->add_storage(entry);
     }
diff --git a/src/jogasaki/transaction_context.h b/src/jogasaki/transaction_context.h
index 9723610..40b077a 100644
--- a/src/jogasaki/transaction_context.h
+++ b/src/jogasaki/transaction_context.h
@@ -481,6 +481,7 @@ private:
     transaction_state state_{};
     std::unique_ptr<storage::unique_lock> storage_lock_{};
     std::unique_ptr<storage::reference_scope> storage_ref_scope_{};
+    std::mutex storage_ref_mutex_{}; // guards storage_ref_scope_
 
     cache_align static inline std::atomic_size_t surrogate_id_source_{};  //NOLINT
 };
-- 
2.43.0


From 70c35e93ba84c26f0f8c24e36a01fa634000b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 56/92] fix: a refused commit request does not log the end of
 the transaction

---
 src/jogasaki/executor/executor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 74fd7fd..a34157f 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -1022,7 +1022,7 @@ scheduler::job_context::job_id_type commit_async(
             << utils::hex(jobid);
 
         auto handle_error = [](request_context& rctx) {
-            log_end_of_tx_and_commit_request(rctx);
+            // the end of the transaction is not logged here - the one that ends the transaction does it
             rctx.commit_ctx()->on_error()(commit_response_kind::available, rctx.status_code(), rctx.error_info());
             scheduler::submit_teardown(rctx, true);
         };
@@ -1060,6 +1060,7 @@ scheduler::job_context::job_id_type commit_async(
                 "Current transaction is inactive (maybe aborted already.)",
                 status::err_inactive_transaction
             );
+            log_end_of_tx_and_commit_request(*rctx);
             handle_error(*rctx);
             return model::task_result::complete;
         }
-- 
2.43.0


From 357b2ac7bdf27a8b96da21f0a6f76b290e1c37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 57/92] fix: the response kind of a transaction is of the
 commit request accepted for it

---
 src/jogasaki/executor/executor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index a34157f..425dcd5 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -1012,10 +1012,9 @@ scheduler::job_context::job_id_type commit_async(
         option.commit_response() :
         database.config()->default_commit_response();
     assert_with_exception((cr == commit_response_kind::accepted || cr == commit_response_kind::stored), cr);
-    tx->commit_response(cr);
 
     auto t = scheduler::create_custom_task(rctx.get(),
-        [&database, rctx, jobid, txid, option]() {
+        [&database, rctx, jobid, txid, option, cr]() {
         VLOG(log_debug_timing_event) << "/:jogasaki:timing:committing "
             << txid
             << " job_id:"
@@ -1065,6 +1064,7 @@ scheduler::job_context::job_id_type commit_async(
             return model::task_result::complete;
         }
 
+        rctx->transaction()->commit_response(cr);
         rctx->transaction()->state(transaction_state_kind::going_to_commit);
         rctx->transaction()->profile()->set_commit_requested();
         [[maybe_unused]] auto b = rctx->transaction()->commit(
-- 
2.43.0


From f53a2eff7c8d3c17c166cac70e2556b0b6b7f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:21 +0000
Subject: [PATCH 58/92] fix: serialize accesses to storage locks held by a
 transaction

---
 src/jogasaki/executor/common/ddl_common.cpp |  8 +++++---
 src/jogasaki/executor/executor.cpp          |  3 ++-
 src/jogasaki/storage/storage_manager.cpp    | 14 +++++++++-----
 src/jogasaki/storage/unique_lock.cpp        | 11 ++++++++---
 src/jogasaki/storage/unique_lock.h          |  5 ++++-
 src/jogasaki/transaction_context.cpp        | 14 +++++++++-----
 src/jogasaki/transaction_context.h          |  9 ++++++---
 7 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index da65a95..d0de5ff 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -137,11 +137,13 @@ bool lock_storage_entry(
 ) {
     auto& smgr = *global::storage_manager();
     auto& tx = *context.transaction();
-    if(! tx.storage_lock()) {
-        tx.storage_lock(smgr.create_unique_lock());
+    auto lock = tx.storage_lock();
+    if(! lock) {
+        lock = smgr.create_unique_lock();
+        tx.storage_lock(lock);
     }
     storage::storage_list stg{tid};
-    if(! smgr.add_locked_storages(stg, *tx.storage_lock())) {
+    if(! smgr.add_locked_storages(stg, *lock)) {
         // should not happen normally since this is a newly created entry
         auto msg = string_builder{} << "DDL operation was blocked by other DML operation. table:\""
                                     << table_name << "\"" << string_builder::to_string;
diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 425dcd5..ee52422 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -608,7 +608,8 @@ static bool acquire_shared_lock(
 ) {
     auto& smgr = *global::storage_manager();
     auto stgs = e.mirrors()->storage_operation().storage();
-    if(auto lock = smgr.create_shared_lock(stgs, rctx.transaction()->storage_lock().get())) {
+    auto parent = rctx.transaction()->storage_lock();
+    if(auto lock = smgr.create_shared_lock(stgs, parent.get())) {
         rctx.storage_lock(std::move(lock));
         return true;
     }
diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 759c26f..bd07610 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -179,9 +179,11 @@ std::pair<bool, storage_list> storage_manager::lock_internal(bool shared, storag
     // holder holds in-flight locks until the end of this function.
     std::vector<storage_entry> locked_storages{};
     std::vector<lock_holder<std::shared_ptr<impl::storage_control>>> holders{};
-    auto max_held = storages.entity().size() + (lock ? lock->storage().entity().size() : 0);
+    auto held = lock != nullptr ? lock->storage() : storage_list{};
+    storage_list_view held_view{held};
+    auto max_held = storages.entity().size() + held.size();
     for(auto&& e : storages.entity()) {
-        if(lock != nullptr && lock->storage().contains(e)) {
+        if(held_view.contains(e)) {
             // lock already held by the given unique lock
             continue;
         }
@@ -202,7 +204,7 @@ std::pair<bool, storage_list> storage_manager::lock_internal(bool shared, storag
     if (! shared && lock) {
         // for unique lock, existing locked storages and requested storages are merged and returned
         locked_storages.reserve(max_held);
-        for(auto&& e : lock->storage().entity()) {
+        for(auto&& e : held) {
             locked_storages.emplace_back(e);
         }
         std::sort(locked_storages.begin(), locked_storages.end());
@@ -245,15 +247,17 @@ std::optional<storage_entry> storage_manager::find_by_name(std::string_view name
 }
 
 void storage_manager::remove_locked_storages(storage_list_view storages, unique_lock& lock) {
+    auto held = lock.storage();
+    storage_list_view held_view{held};
     for(auto&& e : storages.entity()) {
-        assert_with_exception(lock.storage().contains(e), lock.storage());
+        assert_with_exception(held_view.contains(e), held_view);
         auto s = find_entry(e);
         if (s) {
             s->release();
         }
     }
     // TODO implement subtract method for storage_list
-    std::vector<storage_entry> list{lock.storage().entity().begin(), lock.storage().entity().end()};
+    std::vector<storage_entry> list{held.begin(), held.end()};
     std::vector<storage_entry> to_remove{storages.entity().begin(), storages.entity().end()};
     lock.set_storage_list(storage_list{utils::subtract_vectors(list, to_remove)});
 }
diff --git a/src/jogasaki/storage/unique_lock.cpp b/src/jogasaki/storage/unique_lock.cpp
index c57546a..1fcaff9 100644
--- a/src/jogasaki/storage/unique_lock.cpp
+++ b/src/jogasaki/storage/unique_lock.cpp
@@ -45,13 +45,18 @@ unique_lock::unique_lock(storage_manager& manager, storage_list storages) :
     storages_(std::move(storages))
 {}
 
-storage_list_view unique_lock::storage() {
+storage_list unique_lock::storage() {
+    // requests in the same transaction see the list while it is being changed
+    std::scoped_lock lock{mutex_};
     return storages_;
 }
 
 void unique_lock::release_storage(storage_entry entry) noexcept {
-    if (! storages_.remove(entry)) {
-        return;
+    {
+        std::scoped_lock lock{mutex_};
+        if (! storages_.remove(entry)) {
+            return;
+        }
     }
     try {
         auto s = manager_->find_entry(entry);
diff --git a/src/jogasaki/storage/unique_lock.h b/src/jogasaki/storage/unique_lock.h
index 236b49c..6122ab0 100644
--- a/src/jogasaki/storage/unique_lock.h
+++ b/src/jogasaki/storage/unique_lock.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <memory>
+#include <mutex>
 #include <string>
 #include <string_view>
 
@@ -45,7 +46,7 @@ public:
 
     unique_lock(storage_manager& manager, storage_list storages);
 
-    storage_list_view storage();
+    storage_list storage();
 
     /**
      * @brief release the write lock for a single storage entry and remove it from this lock object
@@ -55,11 +56,13 @@ public:
     void release_storage(storage_entry entry) noexcept;
 
     void set_storage_list(storage_list storages) {
+        std::scoped_lock lock{mutex_};
         storages_ = std::move(storages);
     }
 private:
     storage_manager* manager_{};
     storage_list storages_{};
+    std::mutex mutex_{}; // guards storages_
 };
 
 };
diff --git a/src/jogasaki/transaction_context.cpp b/src/jogasaki/transaction_context.cpp
index 1e04fac..5110477 100644
--- a/src/jogasaki/transaction_context.cpp
+++ b/src/jogasaki/transaction_context.cpp
@@ -81,7 +81,7 @@ transaction_context::operator bool() const noexcept {
 status transaction_context::commit(bool async) {
     auto ret = transaction_->commit(async);
     reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
-    storage_lock_.reset();      // release write lock so DML can proceed after DDL commit
+    storage_lock(nullptr);      // release write lock so DML can proceed after DDL commit
     return ret;
 }
 
@@ -93,7 +93,7 @@ bool transaction_context::commit(transaction_context::commit_callback_type cb) {
 status transaction_context::abort_transaction() {
     auto ret = transaction_->abort_transaction();
     reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
-    storage_lock_.reset(); // release storage lock as soon as possible
+    storage_lock(nullptr); // release storage lock as soon as possible
     state_.set(transaction_state_kind::aborted);
     return ret;
 }
@@ -180,12 +180,16 @@ std::shared_ptr<commit_profile> const& transaction_context::profile() const noex
     return profile_;
 }
 
-std::unique_ptr<storage::unique_lock> const& transaction_context::storage_lock() const noexcept {
+std::shared_ptr<storage::unique_lock> transaction_context::storage_lock() const noexcept {
+    std::scoped_lock lock{storage_lock_mutex_};
     return storage_lock_;
 }
 
-void transaction_context::storage_lock(std::unique_ptr<storage::unique_lock> arg) noexcept {
-    storage_lock_ = std::move(arg);
+void transaction_context::storage_lock(std::shared_ptr<storage::unique_lock> arg) noexcept {
+    // other requests possibly end the transaction and release the lock at the same time
+    // the former lock is released by the parameter after unlock
+    std::scoped_lock lock{storage_lock_mutex_};
+    storage_lock_.swap(arg);
 }
 
 void transaction_context::reset_storage_ref_scope() noexcept {
diff --git a/src/jogasaki/transaction_context.h b/src/jogasaki/transaction_context.h
index 40b077a..4ab6b37 100644
--- a/src/jogasaki/transaction_context.h
+++ b/src/jogasaki/transaction_context.h
@@ -432,13 +432,15 @@ public:
     /**
      * @brief accessor for the table unique lock
      * @return unique lock for tables held by the transaction
+     * @note this function is thread-safe
      */
-    [[nodiscard]] std::unique_ptr<storage::unique_lock> const& storage_lock() const noexcept;
+    [[nodiscard]] std::shared_ptr<storage::unique_lock> storage_lock() const noexcept;
 
     /**
      * @brief setter for table unique lock
+     * @note this function is thread-safe
      */
-    void storage_lock(std::unique_ptr<storage::unique_lock> arg) noexcept;
+    void storage_lock(std::shared_ptr<storage::unique_lock> arg) noexcept;
 
     /**
      * @brief release the storage reference scope
@@ -479,7 +481,8 @@ private:
     std::shared_ptr<limestone::api::blob_pool> blob_pool_{};
     details::termination_manager term_mgr_{};
     transaction_state state_{};
-    std::unique_ptr<storage::unique_lock> storage_lock_{};
+    std::shared_ptr<storage::unique_lock> storage_lock_{};
+    mutable std::mutex storage_lock_mutex_{}; // guards storage_lock_
     std::unique_ptr<storage::reference_scope> storage_ref_scope_{};
     std::mutex storage_ref_mutex_{}; // guards storage_ref_scope_
 
-- 
2.43.0


From a631423a3638ce5c249e1f4d5592d9ecaa09b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:30 +0000
Subject: [PATCH 59/92] fix: sequences whose range spans more than a half of
 the integers

The distance from the current value to the bound overflows when their signs differ, so such sequences gave an error, or cycled, before the bound.
---
 src/jogasaki/executor/sequence/sequence.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 3a7625e..6fee52b 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -16,6 +16,7 @@
 #include "sequence.h"
 
 #include <atomic>
+#include <memory>
 #include <utility>
 
 #include <jogasaki/common_types.h>
@@ -53,20 +54,19 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
             continue;
         }
         sequence_value val{};
-        if (info_->increment() > 0 && info_->maximum_value() - cur.value_ < info_->increment()) {
+        auto overflow = __builtin_add_overflow(cur.value_, info_->increment(), std::addressof(val));
+        if (info_->increment() > 0 && (overflow || val > info_->maximum_value())) {
             if(info_->cycle()) {
                 val = info_->minimum_value();
             } else {
                 return sequence_error::out_of_upper_bound;
             }
-        } else if (info_->increment() < 0 && cur.value_ - info_->minimum_value() < -info_->increment()) {
+        } else if (info_->increment() < 0 && (overflow || val < info_->minimum_value())) {
             if(info_->cycle()) {
                 val = info_->maximum_value();
             } else {
                 return sequence_error::out_of_lower_bound;
             }
-        } else {
-            val = cur.value_ + info_->increment();
         }
         next = {cur.version_ + 1, val};
     } while(! body_.compare_exchange_strong(cur, next));
-- 
2.43.0


From 3c2cde2c2e355e9635c9d45c6df193f0e3057117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:49 +0000
Subject: [PATCH 60/92] fix: a transaction stores the sequence version it
 generated

notify_updates() stored the latest version at the time, so concurrent transactions stored the same version of a sequence, which the storage engine does not allow.
---
 src/jogasaki/executor/sequence/manager.cpp  | 14 ++++++++------
 src/jogasaki/executor/sequence/manager.h    | 10 ++++++----
 src/jogasaki/executor/sequence/sequence.cpp |  2 +-
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index bd44a19..9c36b98 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -19,7 +19,7 @@
 #include <optional>
 #include <ostream>
 #include <type_traits>
-#include <unordered_set>
+#include <unordered_map>
 #include <utility>
 #include <glog/logging.h>
 
@@ -186,7 +186,7 @@ sequence* manager::find_sequence(sequence_definition_id def_id) const {
 }
 
 bool manager::notify_updates(kvs::transaction& tx) {
-    std::unordered_set<sequence*> copy{};
+    std::unordered_map<sequence*, sequence_versioned_value> copy{};
     {
         decltype(used_sequences_)::accessor acc{};
         if (! used_sequences_.find(acc, std::addressof(tx))) {
@@ -195,8 +195,7 @@ bool manager::notify_updates(kvs::transaction& tx) {
         copy = acc->second;
         used_sequences_.erase(acc);
     }
-    for(auto* p : copy) {
-        auto s = p->get();
+    for(auto&& [p, s] : copy) {
         if (auto rc = db_->update_sequence(tx, p->info().id(), s.version_, s.value_); rc != status::ok) {
             // status::err_not_found never comes here because the sequence is already in used list
             throw_exception(exception{rc});
@@ -224,10 +223,13 @@ bool manager::remove_sequence(
     return true;
 }
 
-void manager::mark_sequence_used_by(kvs::transaction& tx, sequence& seq) {
+void manager::mark_sequence_used_by(kvs::transaction& tx, sequence& seq, sequence_versioned_value value) {
     decltype(used_sequences_)::accessor acc{};
     used_sequences_.insert(acc, std::addressof(tx));
-    acc->second.emplace(std::addressof(seq));
+    auto& e = acc->second[std::addressof(seq)];
+    if (e.version_ < value.version_) {
+        e = value;
+    }
 }
 
 
diff --git a/src/jogasaki/executor/sequence/manager.h b/src/jogasaki/executor/sequence/manager.h
index 951821b..55ed4d3 100644
--- a/src/jogasaki/executor/sequence/manager.h
+++ b/src/jogasaki/executor/sequence/manager.h
@@ -21,7 +21,6 @@
 #include <memory>
 #include <string_view>
 #include <unordered_map>
-#include <unordered_set>
 #include <tbb/concurrent_hash_map.h>
 
 #include <takatori/util/maybe_shared_ptr.h>
@@ -181,7 +180,7 @@ public:
     [[nodiscard]] sequence* find_sequence(sequence_definition_id def_id) const;
 
     /**
-     * @brief notifies kvs of the current sequence value so that they are made durable together with the updating tx
+     * @brief notifies kvs of the sequence value generated for the tx so that they are made durable together with the tx
      * @details when sequence value is updated with sequence::next() call, this function must be called before commit
      * of the transaction that calls next(). Otherwise, the updates are not sent to kvs and results in losing updates
      * for the sequences.
@@ -215,13 +214,16 @@ public:
 private:
     kvs::database* db_{};
     sequences_type sequences_{};
-    tbb::concurrent_hash_map<kvs::transaction*, std::unordered_set<sequence*>> used_sequences_{};
+    tbb::concurrent_hash_map<kvs::transaction*, std::unordered_map<sequence*, sequence_versioned_value>> used_sequences_{};
 
     /**
      * @brief mark the sequence used by given transaction
      * This function is thread-safe and multiple threads can call simultaneously.
+     * @param tx the transaction that updated the sequence
+     * @param seq the sequence updated
+     * @param value the version and value which the transaction generated
      */
-    void mark_sequence_used_by(kvs::transaction& tx, sequence& seq);
+    void mark_sequence_used_by(kvs::transaction& tx, sequence& seq, sequence_versioned_value value);
 
     void save_id_map(kvs::transaction* tx);
     void remove_id_map(sequence_definition_id def_id, kvs::transaction* tx);
diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 6fee52b..7785294 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -43,7 +43,6 @@ sequence_versioned_value sequence::get() const noexcept {
 }
 
 either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
-    parent_->mark_sequence_used_by(tx, *this);
     aligned_sequence_versioned_value cur{};
     aligned_sequence_versioned_value next{};
     do {
@@ -70,6 +69,7 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
         }
         next = {cur.version_ + 1, val};
     } while(! body_.compare_exchange_strong(cur, next));
+    parent_->mark_sequence_used_by(tx, *this, next);
     return next.value_;
 }
 
-- 
2.43.0


From 36961400f9abeb6df8a6a35464ff7dd0f9cbe66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:49 +0000
Subject: [PATCH 61/92] fix: a definition whose sequence could not be created
 does not remain

The entry without the sequence id was found by the definition tried next with the same id, whose values could not be stored.
---
 src/jogasaki/executor/sequence/manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index 9c36b98..7202932 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -108,6 +108,7 @@ sequence* manager::register_sequence(
             return {};
         }
         if(auto rc = db_->create_sequence(seq_id); rc != status::ok) {
+            sequences_.erase(acc);
             (void) tx->abort_transaction();
             throw_exception(exception{rc});
         }
-- 
2.43.0


From 54efbafad92aa4d37e49a0a7f2e5bcbfd4f54ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:21 +0000
Subject: [PATCH 62/92] fix: serialize definitions of sequences

Statements creating or dropping tables in different transactions run concurrently, and register_sequence() writes the ids of all sequences, also of ones being added or removed by another thread.
---
 src/jogasaki/executor/sequence/manager.cpp |  2 ++
 src/jogasaki/executor/sequence/manager.h   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index 7202932..988b26c 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -99,6 +99,7 @@ sequence* manager::register_sequence(
     bool save_id_map_entry,
     bool assign_new_seq_id_if_not_found
 ) {
+    std::unique_lock lock{definition_mutex_};
     sequence_id seq_id{};
     sequences_type::accessor acc;
     bool inserted = sequences_.insert(acc, def_id);
@@ -209,6 +210,7 @@ bool manager::remove_sequence(
     sequence_definition_id def_id,
     kvs::transaction* tx
 ) {
+    std::unique_lock lock{definition_mutex_};
     sequences_type::accessor acc;
     if (! sequences_.find(acc, def_id)) {
         return false;
diff --git a/src/jogasaki/executor/sequence/manager.h b/src/jogasaki/executor/sequence/manager.h
index 55ed4d3..dde2196 100644
--- a/src/jogasaki/executor/sequence/manager.h
+++ b/src/jogasaki/executor/sequence/manager.h
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <string_view>
 #include <unordered_map>
 #include <tbb/concurrent_hash_map.h>
@@ -99,8 +100,8 @@ public:
 
     manager(manager const& other) = delete;
     manager& operator=(manager const& other) = delete;
-    manager(manager&& other) noexcept = default;
-    manager& operator=(manager&& other) noexcept = default;
+    manager(manager&& other) noexcept = delete;
+    manager& operator=(manager&& other) noexcept = delete;
 
     /**
      * @brief create new manager object
@@ -122,7 +123,7 @@ public:
      * @details using the id_map currently held, create the in-memory sequence object with the given spec.
      * If the id_map doesn't has the given def_id, ask kvs to assign new sequence id
      * (or exit if `assign_new_seq_id_if_not_found=false`). Optionally save the id map.
-     * This function is not thread-safe. Only a thread can call this member function at a time.
+     * This function is thread-safe. Calls from multiple threads are serialized.
      * @param def_id the key to uniquely identify the sequence
      * @param name the name of the sequence
      * @param initial_value initial value of the sequence
@@ -194,7 +195,7 @@ public:
 
     /**
      * @brief remove the sequence (the in-memory sequence object, id_map entry and kvs object) completely
-     * This function is not thread-safe. Only a thread can call this member function at a time.
+     * This function is thread-safe. Calls from multiple threads are serialized.
      * @param def_id the definition id of the sequence to be removed
      * @return true if successful
      * @return false otherwise
@@ -213,6 +214,7 @@ public:
 
 private:
     kvs::database* db_{};
+    std::mutex definition_mutex_{};  // serializes the changes of definitions, which iterate sequences_
     sequences_type sequences_{};
     tbb::concurrent_hash_map<kvs::transaction*, std::unordered_map<sequence*, sequence_versioned_value>> used_sequences_{};
 
-- 
2.43.0


From c79686c096fa43a53774fb7f214d56f2406371e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:39 +0000
Subject: [PATCH 63/92] fix: a sequence missing on the system table does not
 hide the others

---
 src/jogasaki/executor/sequence/manager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index 988b26c..f007050 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <optional>
 #include <ostream>
+#include <string>
 #include <type_traits>
 #include <unordered_map>
 #include <utility>
@@ -154,8 +155,10 @@ void manager::register_sequences(
     maybe_shared_ptr<yugawara::storage::configurable_provider> const& provider,
     bool assign_new_seq_id_if_not_found
 ) {
+    // a sequence missing on the system table must not prevent the others from being registered
+    std::optional<std::string> missing{};
     provider->each_sequence(
-        [this, &tx, assign_new_seq_id_if_not_found](
+        [this, &tx, assign_new_seq_id_if_not_found, &missing](
             std::string_view,
             std::shared_ptr<yugawara::storage::sequence const> const& entry
         ) {
@@ -172,11 +175,14 @@ void manager::register_sequences(
                 false,
                 assign_new_seq_id_if_not_found
             ); p == nullptr) {
-                throw_exception(exception{status::err_not_found, entry->simple_name()});
+                missing.emplace(entry->simple_name());
             }
         }
     );
     save_id_map(tx);
+    if(missing) {
+        throw_exception(exception{status::err_not_found, *missing});
+    }
 }
 
 sequence* manager::find_sequence(sequence_definition_id def_id) const {
-- 
2.43.0


From 57331876ef29d40f423cb4569148a074b848a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:39 +0000
Subject: [PATCH 64/92] fix: do not reuse definition ids of sequences left by
 incomplete CREATE TABLE

---
 src/jogasaki/executor/common/ddl_common.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index d0de5ff..d9d1777 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -19,6 +19,7 @@
 #include <optional>
 #include <string>
 #include <string_view>
+#include <unordered_set>
 #include <glog/logging.h>
 
 #include <takatori/util/string_builder.h>
@@ -60,7 +61,21 @@ bool create_generated_sequence(
     std::size_t def_id{};
     try {
         if (new_def_id) {
-            ms.find_next_empty_def_id(def_id);
+            // definitions left by DDL which was not completed are not necessarily on the system table
+            std::unordered_set<std::size_t> used{};
+            ms.scan([&used](std::size_t def_id, std::size_t) {
+                used.emplace(def_id);
+            });
+            context.storage_provider()->each_sequence(
+                [&used](std::string_view, std::shared_ptr<yugawara::storage::sequence const> const& e) {
+                    if (auto id = e->definition_id()) {
+                        used.emplace(*id);
+                    }
+                }
+            );
+            while (used.count(def_id) != 0 || context.sequence_manager()->find_sequence(def_id) != nullptr) {
+                ++def_id;
+            }
             p.definition_id(def_id); // TODO p is part of prepared statement, avoid updating it directly
         }
         context.sequence_manager()->register_sequence(
-- 
2.43.0


From d4a72f23ae3b9e93b7e2257352a37865427244c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:47 +0000
Subject: [PATCH 65/92] fix: a storage which could not be created leaves no
 entry

---
 src/jogasaki/executor/common/ddl_common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index d9d1777..a1b25ee 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -226,6 +226,7 @@ bool create_primary_storage(
            }
        )) {
         set_error_info(context, err);
+        smgr.remove_entry(entry_id);
         return false;
     }
 
@@ -237,6 +238,7 @@ bool create_primary_storage(
     options.payload(std::move(storage));
     if(auto stg = context.database()->create_storage(
            (opt.has_value() ? opt.value() : primary_idx.simple_name()), options); ! stg) {
+        smgr.remove_entry(entry_id);
         set_error_context(
             context,
             error_code::target_already_exists_exception,
@@ -279,6 +281,7 @@ bool create_secondary_storage(
            utils::metadata_serializer_option{false, nullptr, nullptr, opt}
        )) {
         set_error_info(context, err);
+        smgr.remove_entry(entry_id);
         return false;
     }
 
@@ -290,6 +293,7 @@ bool create_secondary_storage(
     options.payload(std::move(storage));
     if(auto stg = context.database()->create_storage(
            (opt.has_value() ? opt.value() : sec_idx.simple_name()), options); ! stg) {
+        smgr.remove_entry(entry_id);
         VLOG_LP(log_warning) << "storage " << sec_idx.simple_name() << " already exists ";
         set_error_context(
             context,
-- 
2.43.0


From 330eddd16b3507d195ae43ce1dd534588dc78132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:00 +0000
Subject: [PATCH 66/92] fix: a table must not take the name of an existing
 index

---
 src/jogasaki/executor/common/create_table.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jogasaki/executor/common/create_table.cpp b/src/jogasaki/executor/common/create_table.cpp
index ba5bcf5..7385999 100644
--- a/src/jogasaki/executor/common/create_table.cpp
+++ b/src/jogasaki/executor/common/create_table.cpp
@@ -92,6 +92,17 @@ bool create_table::operator()(request_context& context) const {
         return false;
     }
 
+    // the primary index gets the name of the table, which must not replace another index
+    if(provider.find_index(c->simple_name())) {
+        set_error_context(
+            context,
+            error_code::target_already_exists_exception,
+            string_builder{} << "Index \"" << c->simple_name() << "\" already exists." << string_builder::to_string,
+            status::err_already_exists
+        );
+        return false;
+    }
+
     // currently no schema is supported, so only admin can create table
     if (auto& s = context.req_info().request_source()) {
         if(s->session_info().user_type() != tateyama::api::server::user_type::administrator) {
-- 
2.43.0


From 7ba9ec8ea48ed52c0bbbc88db9595bab7f0fadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 67/92] fix: CREATE INDEX checks the table is empty after
 locking it

---
 src/jogasaki/executor/common/create_index.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/common/create_index.cpp b/src/jogasaki/executor/common/create_index.cpp
index a9b0b18..c10aa3b 100644
--- a/src/jogasaki/executor/common/create_index.cpp
+++ b/src/jogasaki/executor/common/create_index.cpp
@@ -124,9 +124,6 @@ bool create_index::operator()(request_context& context) const {
         );
         return false;
     }
-    if(! validate_empty_table(context, i->table().simple_name())) {
-        return false;
-    }
     if(! utils::validate_index_key_type(context, *i)) {
         return false;
     }
@@ -139,6 +136,11 @@ bool create_index::operator()(request_context& context) const {
         return false;
     }
 
+    // no record must be added after this check
+    if(! validate_empty_table(context, i->table().simple_name())) {
+        return false;
+    }
+
     storage::storage_entry tid{};
     std::string serialized{};
     if(! create_secondary_storage(context, *i, storage_id, tid, &serialized)) {
-- 
2.43.0


From 6d4d3e43ac51652e36bbf10255f03301b296b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:39 +0000
Subject: [PATCH 68/92] fix: hold dropped storages before reserving their
 deletion

---
 src/jogasaki/executor/common/drop_index.cpp     |  9 +++++----
 src/jogasaki/executor/common/drop_table.cpp     | 10 ++++++----
 src/jogasaki/executor/common/truncate_table.cpp |  8 ++++++--
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/jogasaki/executor/common/drop_index.cpp b/src/jogasaki/executor/common/drop_index.cpp
index bcb017e..1500e96 100644
--- a/src/jogasaki/executor/common/drop_index.cpp
+++ b/src/jogasaki/executor/common/drop_index.cpp
@@ -74,6 +74,11 @@ bool drop_index::operator()(request_context& context) const {
         return false;
     }
 
+    // tx to remember that it has used the storage in order to prevent maintenance thread from deleting the storage
+    if (context.transaction()) {
+        context.transaction()->add_storage_ref(storage_id);
+    }
+
     auto& smgr = *global::storage_manager();
     if(! reserve_delete_index_metadata(context, name, *i)) {
         return false;
@@ -87,10 +92,6 @@ bool drop_index::operator()(request_context& context) const {
         return true;
     }
     smgr.reserve_delete_entry(e.value());
-    // tx to remember that it has used the storage in order to prevent maintenance thread from deleting the storage
-    if (context.transaction()) {
-        context.transaction()->add_storage_ref(storage_id);
-    }
     return true;
 }
 
diff --git a/src/jogasaki/executor/common/drop_table.cpp b/src/jogasaki/executor/common/drop_table.cpp
index 799bb07..2bb539a 100644
--- a/src/jogasaki/executor/common/drop_table.cpp
+++ b/src/jogasaki/executor/common/drop_table.cpp
@@ -127,6 +127,11 @@ bool drop_table::operator()(request_context& context) const {  //NOLINT(readabil
         return false;
     }
 
+    // tx to remember that it has used the storage in order to prevent maintenance thread from deleting the storage
+    if (context.transaction()) {
+        context.transaction()->add_storage_ref(storage_id);
+    }
+
     // note on error handling: now regular check for existence of table has passed. Going forward, if part of the table
     // dependencies (e.g. secondary indices or sequence entry on system table) are missing, drop table should clean-up
     // those dependencies as much as possible in order to avoid left garbage becoming a road block for other operations.
@@ -205,10 +210,7 @@ bool drop_table::operator()(request_context& context) const {  //NOLINT(readabil
 
     // remove primary storage entry (reserve for lazy deletion)
     smgr.reserve_delete_entry(storage_id);
-    // tx to remember that it has used the storage in order to prevent maintenance thread from deleting the storage
-    if (context.transaction()) {
-        context.transaction()->add_storage_ref(storage_id);
-    }
+
     return true;
 }
 
diff --git a/src/jogasaki/executor/common/truncate_table.cpp b/src/jogasaki/executor/common/truncate_table.cpp
index 73e0ab0..e80661f 100644
--- a/src/jogasaki/executor/common/truncate_table.cpp
+++ b/src/jogasaki/executor/common/truncate_table.cpp
@@ -176,6 +176,11 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
         return false;
     }
 
+    // tx to remember that it has used the storage in order to prevent maintenance thread from deleting the storage
+    if (context.transaction()) {
+        context.transaction()->add_storage_ref(old_storage_id);
+    }
+
     bool restart =
         ct_->options().contains(takatori::statement::truncate_table_option_kind::restart_identity);
 
@@ -261,9 +266,8 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
         }
     }
 
-    // tx to remember that it has used the existing storage in order to prevent maintenance thread from deleting the storage
+    // tx to remember that it has used the new storage in order to prevent maintenance thread from deleting the storage
     if (context.transaction()) {
-        context.transaction()->add_storage_ref(old_storage_id);
         context.transaction()->add_storage_ref(new_primary_id);
     }
 
-- 
2.43.0


From 2ee0bffca9b77d44d8164f8bc51529d20136df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:52 +0000
Subject: [PATCH 69/92] fix: authorize statements under the lock which keeps
 their privileges

---
 src/jogasaki/executor/executor.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index ee52422..16274d3 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -676,6 +676,7 @@ static bool validate_authorization(
                                << "\" requested:" << acts << " public:" << stg->public_actions()
                                << " authorized:" << authorized;
         }
+        rctx.storage_lock(nullptr); // the request is complete
         // TODO investigate what can be notified to clients
         on_completion(
             res,
@@ -723,14 +724,6 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
     external_log_stmt_start(*rctx, req_info, statement);
     external_log_stmt_explain(database, *rctx, req_info, statement);
 
-    // currently only DML is checked, but in future, DDL should be checked too.
-    if (e->is_execute() || (!e->is_ddl() && !e->is_empty())) {
-        if(! validate_authorization(*rctx, *e, req_info, on_completion)) {
-            end_job_without_task(rctx);
-            return true; // false is for unrecoverable abnormal error. This case is normal error.
-        }
-    }
-
     if(rctx->transaction() && ! validate_transaction(*rctx->transaction(), on_completion)) {
         end_job_without_task(rctx);
         return true; // inactive tx error - this is normal error so return true
@@ -754,6 +747,12 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
             end_job_without_task(rctx);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
+        // currently only DML is checked, but in future, DDL should be checked too.
+        // the lock prevents GRANT and REVOKE from changing the privileges meanwhile
+        if (! validate_authorization(*rctx, *e, req_info, on_completion)) {
+            end_job_without_task(rctx);
+            return true; // false is for unrecoverable abnormal error. This case is normal error.
+        }
         // pin primary storages in the transaction so that lazy deletion waits for tx completion
         if (rctx->transaction()) {
             rctx->transaction()->add_storages_ref(e->mirrors()->storage_operation().storage());
-- 
2.43.0


From a5d5bd4c251ea705a80b8a7b746a7774c909c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 70/92] fix: store identity values in INT columns by their own
 size

---
 .../executor/wrt/fill_record_fields.cpp        | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/wrt/fill_record_fields.cpp b/src/jogasaki/executor/wrt/fill_record_fields.cpp
index c5cc149..ff6a41a 100644
--- a/src/jogasaki/executor/wrt/fill_record_fields.cpp
+++ b/src/jogasaki/executor/wrt/fill_record_fields.cpp
@@ -16,6 +16,8 @@
 #include "fill_record_fields.h"
 
 #include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <string_view>
 #include <utility>
 #include <vector>
@@ -48,6 +50,7 @@
 #include <jogasaki/kvs/database.h>
 #include <jogasaki/memory/lifo_paged_memory_resource.h>
 #include <jogasaki/meta/field_type.h>
+#include <jogasaki/meta/field_type_kind.h>
 #include <jogasaki/meta/record_meta.h>
 #include <jogasaki/model/statement.h>
 #include <jogasaki/model/statement_kind.h>
@@ -167,7 +170,20 @@ status fill_default_value(
                 return res;
             }
             out.ref().set_null(f.nullity_offset_, false);
-            out.ref().set_value<std::int64_t>(f.offset_, v);
+            if (f.type_.kind() == meta::field_type_kind::int4) {
+                if (v < std::numeric_limits<std::int32_t>::min() || std::numeric_limits<std::int32_t>::max() < v) {
+                    auto rc = status::err_illegal_operation;
+                    set_error_context(
+                        ctx,
+                        error_code::value_evaluation_exception,
+                        string_builder{} << "sequence value is out of the range of the column:" << v << string_builder::to_string,
+                        rc);
+                    return rc;
+                }
+                out.ref().set_value<std::int32_t>(f.offset_, static_cast<std::int32_t>(v));
+            } else {
+                out.ref().set_value<std::int64_t>(f.offset_, v);
+            }
             break;
         }
         case process::impl::ops::default_value_kind::function: {
-- 
2.43.0


From 4c6cad2cf14288e343f662d232af71f595739bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:23 +0000
Subject: [PATCH 71/92] fix: the name of a storage belongs to one entry only

---
 src/jogasaki/storage/storage_manager.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index bd07610..081dd37 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -58,12 +58,16 @@ bool storage_manager::add_entry(
             ret = true;
         }
     }
+    if (ret && name) {
+        // add name after storages_ is updated successfully
+        if (! storage_names_.emplace(std::string{*name}, entry)) {
+            // the name is used by another entry, e.g. one being created concurrently
+            storages_.erase(entry);
+            return false;
+        }
+    }
     if (ret) {
         candidate_entries_.push(entry);
-        if (name) {
-            // add name after storages_ is updated successfully
-            storage_names_.emplace(std::string{*name}, entry);
-        }
         // add storage key mapping
         storage_keys_.emplace(std::string{control->derived_storage_key()}, entry);
     }
-- 
2.43.0


From 1b35a2e3bbfcb07b1c32575b911f26fc3cd46254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:47 +0000
Subject: [PATCH 72/92] fix: secondary indices belong to the table after
 TRUNCATE

---
 src/jogasaki/executor/common/truncate_table.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/common/truncate_table.cpp b/src/jogasaki/executor/common/truncate_table.cpp
index e80661f..afa3383 100644
--- a/src/jogasaki/executor/common/truncate_table.cpp
+++ b/src/jogasaki/executor/common/truncate_table.cpp
@@ -261,7 +261,13 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
     // create new secondary index storages
     for(auto&& entry : secondaries) {
         storage::storage_entry secondary_id{};
-        if(! create_secondary_storage(context, *entry, new_primary_id, secondary_id)) {
+        std::string serialized_index{};
+        if(! create_secondary_storage(context, *entry, new_primary_id, secondary_id, std::addressof(serialized_index))) {
+            return false;
+        }
+        // the table definition in the provider has been replaced, so let the index refer to the new one
+        if(auto err = recovery::deserialize_storage_option_into_provider(serialized_index, provider, provider, true)) {
+            set_error_info(context, err);
             return false;
         }
     }
-- 
2.43.0


From 472a29d72b54747b8c1d4ba4b9738a251d207e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:41 +0000
Subject: [PATCH 73/92] fix: a dropped storage cannot be locked

A statement which found the table before another transaction dropped it
acquired the lock once that transaction ended, and went on with the
storage already dropped: TRUNCATE TABLE for example registered the
table again though it has no storage.
---
 src/jogasaki/storage/storage_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 081dd37..a90ea68 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -197,7 +197,12 @@ std::pair<bool, storage_list> storage_manager::lock_internal(bool shared, storag
             return {false, {}};
         }
         holders.reserve(max_held);
+        auto reserved = s->delete_reserved();
         holders.emplace_back(std::move(s), shared);
+        if(reserved) {
+            // dropped by the transaction which held the lock until now
+            return {false, {}};
+        }
         locked_storages.reserve(max_held);
         locked_storages.emplace_back(e);
     }
-- 
2.43.0


From e1806fc1f805af2071b7c19a864603730b904992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:51 +0000
Subject: [PATCH 74/92] fix: lock the storage of a new table before its name is
 visible

TRUNCATE TABLE and CREATE TABLE locked the new storage entry only after
its name was registered, so another DDL statement, DROP TABLE for
example, could lock and drop it in between, and TRUNCATE TABLE had
registered the table again.
---
 src/jogasaki/executor/common/create_table.cpp |  3 ---
 src/jogasaki/executor/common/ddl_common.cpp   | 22 ++++++++++++-------
 src/jogasaki/executor/common/ddl_common.h     |  3 ++-
 .../executor/common/truncate_table.cpp        |  5 -----
 src/jogasaki/storage/storage_manager.cpp      | 11 +++++++++-
 src/jogasaki/storage/storage_manager.h        |  3 ++-
 6 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/jogasaki/executor/common/create_table.cpp b/src/jogasaki/executor/common/create_table.cpp
index 7385999..8011272 100644
--- a/src/jogasaki/executor/common/create_table.cpp
+++ b/src/jogasaki/executor/common/create_table.cpp
@@ -161,9 +161,6 @@ bool create_table::operator()(request_context& context) const {
         set_error_info(context, err);
         return false;
     }
-    if(! lock_storage_entry(context, tid, c->simple_name())) {
-        return false;
-    }
 
     // tx to remember that it has used the storage
     // this is not mandatory for create (since created one is not accessible externally),
diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index a1b25ee..6346ed9 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -145,21 +145,25 @@ bool reserve_delete_index_metadata(
     return false;
 }
 
+static std::shared_ptr<storage::unique_lock> ensure_storage_lock(request_context& context) {
+    auto& tx = *context.transaction();
+    auto lock = tx.storage_lock();
+    if(! lock) {
+        lock = global::storage_manager()->create_unique_lock();
+        tx.storage_lock(lock);
+    }
+    return lock;
+}
+
 bool lock_storage_entry(
     request_context& context,
     storage::storage_entry tid,
     std::string_view table_name
 ) {
     auto& smgr = *global::storage_manager();
-    auto& tx = *context.transaction();
-    auto lock = tx.storage_lock();
-    if(! lock) {
-        lock = smgr.create_unique_lock();
-        tx.storage_lock(lock);
-    }
+    auto lock = ensure_storage_lock(context);
     storage::storage_list stg{tid};
     if(! smgr.add_locked_storages(stg, *lock)) {
-        // should not happen normally since this is a newly created entry
         auto msg = string_builder{} << "DDL operation was blocked by other DML operation. table:\""
                                     << table_name << "\"" << string_builder::to_string;
         set_error_context(
@@ -187,7 +191,9 @@ bool create_primary_storage(
     auto storage_key = utils::to_big_endian(smgr.generate_surrogate_id());
     auto opt = global::config_pool()->enable_storage_key() ? std::optional<std::string_view>{storage_key} : std::nullopt;
 
-    if(! smgr.add_entry(entry_id, primary_idx.simple_name(), opt, true)) {
+    // lock the new entry before others find it by its name
+    auto lock = ensure_storage_lock(context);
+    if(! smgr.add_entry(entry_id, primary_idx.simple_name(), opt, true, std::nullopt, std::nullopt, lock.get())) {
         set_error_context(
             context,
             error_code::target_already_exists_exception,
diff --git a/src/jogasaki/executor/common/ddl_common.h b/src/jogasaki/executor/common/ddl_common.h
index 4ad6761..a8cd0a0 100644
--- a/src/jogasaki/executor/common/ddl_common.h
+++ b/src/jogasaki/executor/common/ddl_common.h
@@ -66,7 +66,7 @@ bool reserve_delete_index_metadata(
 );
 
 /**
- * @brief Acquire a write lock on a newly created storage entry within the current DDL transaction.
+ * @brief Acquire a write lock on a storage entry within the current DDL transaction.
  * @param context request context containing the transaction
  * @param tid storage entry to lock
  * @param table_name table name used in error messages
@@ -80,6 +80,7 @@ bool lock_storage_entry(
 
 /**
  * @brief Create a new primary index storage entry in the storage manager and the corresponding KVS storage.
+ * The new entry is held by the write lock of the transaction.
  * Provider metadata is NOT updated — the caller is responsible for updating it if needed.
  * @param context request context
  * @param primary_idx primary index whose metadata is serialized into the new storage
diff --git a/src/jogasaki/executor/common/truncate_table.cpp b/src/jogasaki/executor/common/truncate_table.cpp
index afa3383..44d8c0b 100644
--- a/src/jogasaki/executor/common/truncate_table.cpp
+++ b/src/jogasaki/executor/common/truncate_table.cpp
@@ -253,11 +253,6 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
         return false;
     }
 
-    // hold the write lock on the new primary storage entry until the DDL transaction completes
-    if(! lock_storage_entry(context, new_primary_id, c.simple_name())) {
-        return false;
-    }
-
     // create new secondary index storages
     for(auto&& entry : secondaries) {
         storage::storage_entry secondary_id{};
diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index a90ea68..df9f0c9 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -40,7 +40,8 @@ std::size_t storage_manager::size() const noexcept {
 
 bool storage_manager::add_entry(
     storage_entry entry, std::optional<std::string_view> name, std::optional<std::string_view> storage_key,
-    bool is_primary, std::optional<storage_entry> primary_entry, std::optional<std::string_view> original_name
+    bool is_primary, std::optional<storage_entry> primary_entry, std::optional<std::string_view> original_name,
+    unique_lock* lock
 ) {
     bool ret = false;
     std::shared_ptr<impl::storage_control> control{};
@@ -55,6 +56,9 @@ bool storage_manager::add_entry(
             if (! name) {
                 control->delete_reserved(true);
             }
+            if (lock != nullptr) {
+                (void) control->lock(); // always succeeds because no one knows the new entry
+            }
             ret = true;
         }
     }
@@ -67,6 +71,11 @@ bool storage_manager::add_entry(
         }
     }
     if (ret) {
+        if (lock != nullptr) {
+            auto held = lock->storage();
+            held.add(entry);
+            lock->set_storage_list(std::move(held));
+        }
         candidate_entries_.push(entry);
         // add storage key mapping
         storage_keys_.emplace(std::string{control->derived_storage_key()}, entry);
diff --git a/src/jogasaki/storage/storage_manager.h b/src/jogasaki/storage/storage_manager.h
index 26bd5e8..f446ef8 100644
--- a/src/jogasaki/storage/storage_manager.h
+++ b/src/jogasaki/storage/storage_manager.h
@@ -333,10 +333,11 @@ public:
      * @param primary_entry the storage entry of the primary index owning this secondary index. std::nullopt for primary indices.
      * @param original_name the original name of the storage before deletion. Used only when name is std::nullopt.
      * If both name and original_name are std::nullopt, original_name in storage_control will be empty.
+     * @param lock the lock to hold the new entry before it gets visible by its name. nullptr if the entry needs no lock.
      * @return true if the entry was added successfully
      * @return false is the entry already exists
      */
-    bool add_entry(storage_entry entry, std::optional<std::string_view> name, std::optional<std::string_view> storage_key = std::nullopt, bool is_primary = true, std::optional<storage_entry> primary_entry = std::nullopt, std::optional<std::string_view> original_name = std::nullopt);
+    bool add_entry(storage_entry entry, std::optional<std::string_view> name, std::optional<std::string_view> storage_key = std::nullopt, bool is_primary = true, std::optional<storage_entry> primary_entry = std::nullopt, std::optional<std::string_view> original_name = std::nullopt, unique_lock* lock = nullptr);
 
     /**
      * @brief remove storage entry
-- 
2.43.0


From d49ba7c1228de32f9557fd64703cffb3eb6879ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:30 +0000
Subject: [PATCH 75/92] fix: answer requests that carry a malformed decimal
 parameter

---
 src/jogasaki/api/impl/service.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index dbbc698..157d1c4 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <cstdlib>
 #include <exception>
+#include <limits>
 #include <optional>
 #include <ostream>
 #include <ratio>
@@ -1320,9 +1321,14 @@ void service::execute_statement(
     }
 }
 
-static takatori::decimal::triple to_triple(::jogasaki::proto::sql::common::Decimal const& arg) {
+static std::optional<takatori::decimal::triple> to_triple(::jogasaki::proto::sql::common::Decimal const& arg) {
+    constexpr std::size_t max_coefficient_size = sizeof(std::uint64_t) * 2 + 1;
     std::string_view buf{arg.unscaled_value()};
     auto exp = arg.exponent();
+    if(buf.empty() || buf.size() > max_coefficient_size || ! utils::validate_decimal_coefficient(buf) ||
+        exp == std::numeric_limits<std::int32_t>::min()) {
+        return {};
+    }
     return utils::read_decimal(buf, -exp);
 }
 
@@ -1356,7 +1362,12 @@ void service::set_params(
                 params->set_octet(p.name(), p.octet_value());
                 break;
             case sql::request::Parameter::ValueCase::kDecimalValue:
-                params->set_decimal(p.name(), to_triple(p.decimal_value()));
+                if (auto value = to_triple(p.decimal_value()); value.has_value()) {
+                    params->set_decimal(p.name(), *value);
+                } else {
+                    // leave the parameter unset so that the request is rejected
+                    VLOG(log_error) << log_location_prefix << "invalid decimal value for parameter '" << p.name() << "'";
+                }
                 break;
             case sql::request::Parameter::ValueCase::kDateValue:
                 params->set_date(p.name(), field_type_traits<kind::date>::parameter_type{p.date_value()});
-- 
2.43.0


From 5433b4e39e684bfd2c2b135d993573ef80d5adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:06 +0000
Subject: [PATCH 76/92] fix: COMMIT through a handle of a disposed transaction
 is an error

---
 src/jogasaki/api/impl/service.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index 157d1c4..f1a0a6f 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -606,6 +606,15 @@ void service::command_commit(
     opt.auto_dispose_on_success(cm.has_option() ? cm.option().auto_dispose() : cm.auto_dispose()).commit_response(cr);
 
     auto tctx = get_transaction_context(tx);
+    if(! tctx) {
+        auto err_info = create_error_info(
+            error_code::transaction_not_found_exception,
+            "Transaction handle is invalid.",
+            status::err_invalid_argument
+        );
+        details::error<sql::response::ResultOnly>(*res, err_info.get(), req_info);
+        return;
+    }
     executor::commit_async(
         get_impl(*db_),
         std::move(tctx),
-- 
2.43.0


From ba47f5baea4d1d69dad9e332a98fdfa17f278e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:56 +0000
Subject: [PATCH 77/92] fix: LOAD through a handle of a disposed transaction is
 an error

---
 src/jogasaki/api/impl/service.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index f1a0a6f..5d51a09 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -1740,6 +1740,19 @@ void service::execute_load( //NOLINT
     assert_with_exception(! q.has_sql());
     auto statement = q.handle();
 
+    std::shared_ptr<transaction_context> t{};
+    if(tx) {
+        t = get_impl(*db_).find_transaction(tx);
+        if(! t) {
+            auto err_info = create_error_info(
+                error_code::transaction_not_found_exception,
+                "Transaction handle is invalid.",
+                status::err_invalid_argument
+            );
+            details::error<sql::response::ExecuteResult>(*res, err_info.get(), req_info);
+            return;
+        }
+    }
     auto c = std::make_shared<callback_control>(res);
     auto* cbp = c.get();
     auto cid = c->id_;
@@ -1747,7 +1760,6 @@ void service::execute_load( //NOLINT
         throw_exception(std::logic_error{"callback already exists"});
     }
     if(tx) {
-        auto t = get_impl(*db_).find_transaction(tx);
         if (auto rc = executor::execute_load(  //NOLINT
                 get_impl(*db_),
                 t,
-- 
2.43.0


From c5ba3de8caae9e690891ba6420d0b5a39b251f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:28 +0000
Subject: [PATCH 78/92] fix: EXTRACT STATEMENT INFO finds handles without the
 session store

---
 src/jogasaki/api/impl/service.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index 5d51a09..162f9a1 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -844,7 +844,11 @@ void service::command_extract_statement_info(
     std::shared_ptr<std::string> sql_text{};
     std::shared_ptr<error::error_info> err{};
     std::string tx_id{};
-    if(! utils::extract_sql_and_tx_id(decoded_req, sql_text, tx_id, err, ex.session_id())) {
+    // handles belong to the session only if session store is enabled
+    auto session_id = db_->config()->enable_session_store() ?
+        std::optional<std::size_t>{ex.session_id()} :
+        std::nullopt;
+    if(! utils::extract_sql_and_tx_id(decoded_req, sql_text, tx_id, err, session_id)) {
         details::error<sql::response::ExtractStatementInfo>(*res, err.get(), req_info);
         return;
     }
-- 
2.43.0


From 16d04fc2ef2249a9f7c474569b13d258d86dbfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:17 +0000
Subject: [PATCH 79/92] fix: widen an int4 parameter that is assigned to an
 int8 placeholder

---
 src/jogasaki/plan/compiler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/plan/compiler.cpp b/src/jogasaki/plan/compiler.cpp
index f2fa5fd..5287bff 100644
--- a/src/jogasaki/plan/compiler.cpp
+++ b/src/jogasaki/plan/compiler.cpp
@@ -1035,8 +1035,17 @@ std::shared_ptr<executor::process::impl::variable_table> create_host_variables(
             // value_to_any does not support blob or clob
             utils::value_to_any(e.value(), a);
         }
+        auto type = e.type();
+        if (type.kind() == meta::field_type_kind::int4 &&
+            info->meta()->at(os.index()).kind() == meta::field_type_kind::int8) {
+            // int4 parameter is admissible for int8 host variable, whose field is wider than the parameter
+            if (! a.empty()) {
+                a = data::any{std::in_place_type<std::int64_t>, a.to<std::int32_t>()};
+            }
+            type = info->meta()->at(os.index());
+        }
         utils::copy_nullable_field(
-            e.type(),
+            type,
             target,
             os.value_offset(),
             os.nullity_offset(),
-- 
2.43.0


From 628b487d7212f3728f5b74751333d87f2987fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:53 +0000
Subject: [PATCH 80/92] fix: tasks of one statement acquire writers of the null
 channel concurrently

---
 src/jogasaki/executor/io/null_record_channel.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jogasaki/executor/io/null_record_channel.h b/src/jogasaki/executor/io/null_record_channel.h
index c095cd8..fc51718 100644
--- a/src/jogasaki/executor/io/null_record_channel.h
+++ b/src/jogasaki/executor/io/null_record_channel.h
@@ -15,6 +15,11 @@
  */
 #pragma once
 
+#include <memory>
+#include <mutex>
+#include <optional>
+#include <vector>
+
 #include <jogasaki/api/data_channel.h>
 #include <jogasaki/executor/io/data_channel_writer.h>
 #include <jogasaki/executor/io/null_record_channel_writer.h>
@@ -47,6 +52,8 @@ public:
      * @return any other error
      */
     status acquire(std::shared_ptr<record_writer>& wrt) override {
+        // tasks of a statement acquire writers concurrently
+        std::lock_guard lk{mutex_};
         wrt = writers_.emplace_back(std::make_shared<null_record_channel_writer>(meta_->origin()));
         return status::ok;
     }
@@ -80,6 +87,7 @@ public:
         return {};
     }
 private:
+    std::mutex mutex_{};
     std::vector<std::shared_ptr<null_record_channel_writer>> writers_{};
     maybe_shared_ptr<meta::external_record_meta> meta_{};
     executor::io::record_channel_stats stats_{};
-- 
2.43.0


From 227f6e7412e77e26f51ae19fef53e4c979dfc95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:53 +0000
Subject: [PATCH 81/92] fix: parallel scans exclude the entries below an
 exclusive begin key

Pivots that lie within the excluded prefix became inclusive begin keys of ranges.
---
 .../executor/process/impl/ops/operator_builder.cpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
index 4d66605..4c925e7 100644
--- a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
+++ b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
@@ -15,6 +15,7 @@
  */
 #include "operator_builder.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <stdexcept>
 #include <type_traits>
@@ -606,6 +607,15 @@ std::vector<std::shared_ptr<impl::scan_range>> operator_builder::create_scan_ran
         auto pivots = distribution
             ? distribution->compute_pivots(pivot_count, range) // possibly throws plan_exception
             : std::vector<dist::key_distribution::pivot_type>{};
+        if (range.begin_endpoint() == kvs::end_point_kind::prefixed_exclusive) {
+            // the ranges starting at the pivots must not include the entries excluded by the begin key
+            pivots.erase(
+                std::remove_if(pivots.begin(), pivots.end(), [&range](auto const& pivot) {
+                    return pivot.compare(0, range.begin_key().size(), range.begin_key()) == 0;
+                }),
+                pivots.end()
+            );
+        }
         scan_ranges.reserve(pivots.size() + 1);
         if (pivots.empty()) {
             scan_ranges.emplace_back(
-- 
2.43.0


From 2033e08d17120980149680097fb86afa1acfe87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:09 +0000
Subject: [PATCH 82/92] fix: KVS service no longer hands strings on the stack
 to protobuf to own

---
 src/jogasaki/api/kvsservice/impl/service.cpp | 26 +++++---------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/impl/service.cpp b/src/jogasaki/api/kvsservice/impl/service.cpp
index c041ae3..f763168 100644
--- a/src/jogasaki/api/kvsservice/impl/service.cpp
+++ b/src/jogasaki/api/kvsservice/impl/service.cpp
@@ -80,13 +80,11 @@ static void set_error(status status, tateyama::proto::kvs::response::Error &erro
     error.set_code(static_cast<google::protobuf::int32>(status));
 }
 
-static bool set_error(status status, std::string *message, tateyama::proto::kvs::response::Error &error) {
+static void set_error(status status, std::string const *message, tateyama::proto::kvs::response::Error &error) {
     set_error(status, error);
     if (message != nullptr) {
-        error.set_allocated_detail(message);
-        return true;
+        error.set_detail(*message);
     }
-    return false;
 }
 
 /*
@@ -158,11 +156,8 @@ static void error_begin(status status, std::shared_ptr<tateyama::api::server::re
     tateyama::proto::kvs::response::Response proto_res { };
     auto* begin = proto_res.mutable_begin();
     auto* error = begin->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 static status_message check_supported(transaction_option &opt) {
@@ -232,11 +227,8 @@ static void error_commit(status status, std::shared_ptr<tateyama::api::server::r
     tateyama::proto::kvs::response::Response proto_res { };
     auto* commit = proto_res.mutable_commit();
     auto* error = commit->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 static status_message check_supported(tateyama::proto::kvs::request::CommitStatus const status) {
@@ -360,11 +352,8 @@ static void error_put(status status, std::shared_ptr<tateyama::api::server::resp
     tateyama::proto::kvs::response::Response proto_res { };
     auto* put = proto_res.mutable_put();
     auto* error = put->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 void service::command_put(tateyama::proto::kvs::request::Request const &proto_req,
@@ -494,11 +483,8 @@ static void error_remove(status status, std::shared_ptr<tateyama::api::server::r
     tateyama::proto::kvs::response::Response proto_res { };
     auto* remove = proto_res.mutable_remove();
     auto* error = remove->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 void service::command_remove(tateyama::proto::kvs::request::Request const &proto_req,
-- 
2.43.0


From 325d5786768fe0a7ec7651c3a5a53d286908b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:36 +0000
Subject: [PATCH 83/92] fix: KVS service answers requests with unknown option
 numbers

---
 src/jogasaki/api/kvsservice/impl/service.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/impl/service.cpp b/src/jogasaki/api/kvsservice/impl/service.cpp
index f763168..89e37e6 100644
--- a/src/jogasaki/api/kvsservice/impl/service.cpp
+++ b/src/jogasaki/api/kvsservice/impl/service.cpp
@@ -197,6 +197,11 @@ static status_message check_supported(transaction_option &opt) {
 void service::command_begin(tateyama::proto::kvs::request::Request const &proto_req,
                                  std::shared_ptr<tateyama::api::server::response> &res) {
     auto &begin = proto_req.begin();
+    if (!tateyama::proto::kvs::transaction::Type_IsValid(begin.transaction_option().type()) ||
+        !tateyama::proto::kvs::transaction::Priority_IsValid(begin.transaction_option().priority())) {
+        error_begin(status::err_invalid_argument, res);
+        return;
+    }
     auto option = convert(begin.transaction_option());
     if (auto sm = check_supported(option); sm.status_code() != status::ok) {
         error_begin(sm.status_code(), res, sm.message());
@@ -251,6 +256,10 @@ static status_message check_supported(tateyama::proto::kvs::request::CommitStatu
 void service::command_commit(tateyama::proto::kvs::request::Request const&proto_req,
                                   std::shared_ptr<tateyama::api::server::response> &res) {
     auto &commit = proto_req.commit();
+    if (!tateyama::proto::kvs::request::CommitStatus_IsValid(commit.notification_type())) {
+        error_commit(status::err_invalid_argument, res);
+        return;
+    }
     if (auto sm = check_supported(commit.notification_type()); sm.status_code() != status::ok) {
         error_commit(sm.status_code(), res, sm.message());
         return;
@@ -363,6 +372,10 @@ void service::command_put(tateyama::proto::kvs::request::Request const &proto_re
         error_put(status::err_unsupported, res);
         return;
     }
+    if (!tateyama::proto::kvs::request::Put_Type_IsValid(put.type())) {
+        error_put(status::err_invalid_argument, res);
+        return;
+    }
     auto &proto_handle = put.transaction_handle();
     auto tx = store_->find_transaction(proto_handle.system_id());
     if (tx == nullptr) {
@@ -494,6 +507,10 @@ void service::command_remove(tateyama::proto::kvs::request::Request const &proto
         error_remove(status::err_unsupported, res);
         return;
     }
+    if (!tateyama::proto::kvs::request::Remove_Type_IsValid(remove.type())) {
+        error_remove(status::err_invalid_argument, res);
+        return;
+    }
     auto &proto_handle = remove.transaction_handle();
     auto tx = store_->find_transaction(proto_handle.system_id());
     if (tx == nullptr) {
-- 
2.43.0


From 8606d2321c3f9108cd1600102b7c287ebe2bc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:29 +0000
Subject: [PATCH 84/92] fix: KVS service returns stored values for columns
 given along with the primary key

---
 src/jogasaki/api/kvsservice/transaction_utils.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/transaction_utils.cpp b/src/jogasaki/api/kvsservice/transaction_utils.cpp
index 2d770bf..feb3452 100644
--- a/src/jogasaki/api/kvsservice/transaction_utils.cpp
+++ b/src/jogasaki/api/kvsservice/transaction_utils.cpp
@@ -37,7 +37,6 @@
 #include <jogasaki/kvs/readable_stream.h>
 #include <jogasaki/utils/storage_utils.h>
 
-#include "mapped_record.h"
 #include "serializer.h"
 
 namespace jogasaki::api::kvsservice {
@@ -215,11 +214,17 @@ status make_record(std::shared_ptr<yugawara::storage::table const> &table,
                           tateyama::proto::kvs::data::Record &record) {
     auto input = value_slice.to_string_view();
     jogasaki::kvs::readable_stream stream{input.data(), input.size()};
-    //
-    mapped_record m_key {primary_key};
+    // columns other than the primary key may be specified with it, but what is stored is returned for them
+    record_columns key_cols{table, primary_key, true};
     for (auto &col : table->columns()) {
         auto col_name = col.simple_name();
-        auto value = m_key.get_value(col_name);
+        tateyama::proto::kvs::data::Value const* value = nullptr;
+        for (auto const& cd : key_cols.primary_keys()) {
+            if (cd.column()->simple_name() == col_name) {
+                value = cd.value();
+                break;
+            }
+        }
         if (value != nullptr) {
             add_key_column(col_name, value, record);
         } else if (auto s = add_value_column(col, stream, record);
-- 
2.43.0


From cfe57f9292454712a41c0da394c79c2c799486ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:29 +0000
Subject: [PATCH 85/92] fix: KVS service returns decimals with their sign

---
 src/jogasaki/api/kvsservice/serializer.cpp | 30 ++++------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 81d5dc0..ecc1ef7 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -252,32 +252,12 @@ static status decode_character(jogasaki::kvs::coding_spec const &spec, yugawara:
 
 static inline void set_decimal(data::any &dest, tateyama::proto::kvs::data::Value *value) {
     auto triple = dest.to<takatori::decimal::triple>();
-    const auto lo = triple.coefficient_low();
-    const auto hi = triple.coefficient_high();
-    std::string buf{};
-    const auto buflen = sizeof(lo) + sizeof(hi);
-    buf.resize(buflen);
-    auto v = lo;
-    for (int i = 0; i < 8; i++) {
-        buf[15 - i] = static_cast<char>(v & 0xffU);
-        v >>= 8U;
-    }
-    v = hi;
-    for (int i = 0; i < 8; i++) {
-        buf[7 - i] = static_cast<char>(v & 0xffU);
-        v >>= 8U;
-    }
-    // skip zero-padding
-    std::size_t start = 0;
-    while (start < buflen - 1) {
-        if (buf[start] != 0) {
-            break;
-        }
-        start++;
-    }
+    // unscaled value is signed (2's complement, big endian)
+    const auto [hi, lo, size] = jogasaki::utils::make_signed_coefficient_full(triple);
+    jogasaki::utils::decimal_buffer buf{};
+    jogasaki::utils::create_decimal(triple.sign(), lo, hi, size, buf);
     auto *decimal = value->mutable_decimal_value();
-    // NOTE: buf.size() returns 0, not 16
-    decimal->set_unscaled_value(std::addressof(buf[start]), buflen - start);
+    decimal->set_unscaled_value(buf.data(), size);
     decimal->set_exponent(triple.exponent());
 }
 
-- 
2.43.0


From d06ff9abd35176916417e1c67e140b82ff85ae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:07 +0000
Subject: [PATCH 86/92] fix: KVS service takes the result of a commit before it
 is said to be there

---
 src/jogasaki/api/kvsservice/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/transaction.cpp b/src/jogasaki/api/kvsservice/transaction.cpp
index c297acc..f7c6b76 100644
--- a/src/jogasaki/api/kvsservice/transaction.cpp
+++ b/src/jogasaki/api/kvsservice/transaction.cpp
@@ -112,8 +112,8 @@ status transaction::commit() {
     ){
         (void) ec;
         (void) marker;
-        callback_called = true;
         code = st;
+        callback_called = true;
     });
     if(! b) {
         // NOTE using busy wait for OCC is acceptable
-- 
2.43.0


From eac605339f8148a5e290326368596f60290d123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:07 +0000
Subject: [PATCH 87/92] fix: KVS service disposes a transaction after its
 operations under way

---
 src/jogasaki/api/kvsservice/store.cpp       | 8 +++++++-
 src/jogasaki/api/kvsservice/transaction.cpp | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/store.cpp b/src/jogasaki/api/kvsservice/store.cpp
index 0b38a26..0b2ece3 100644
--- a/src/jogasaki/api/kvsservice/store.cpp
+++ b/src/jogasaki/api/kvsservice/store.cpp
@@ -15,6 +15,7 @@
  */
 
 #include <ostream>
+#include <mutex>
 #include <stdexcept>
 #include <string_view>
 #include <utility>
@@ -101,7 +102,12 @@ std::shared_ptr<transaction> store::find_transaction(std::uint64_t system_id) {
 status store::dispose_transaction(std::uint64_t system_id) {
     decltype(transactions_)::accessor acc{};
     if (transactions_.find(acc, system_id)) {
-        auto s = acc->second->dispose();
+        status s{};
+        {
+            // wait for operations under way
+            std::unique_lock<std::mutex> lock{acc->second->transaction_mutex()};
+            s = acc->second->dispose();
+        }
         if (s != status::ok) {
             LOG(ERROR) << log_location_prefix << "transaction::dispose() failed: "<< s;
         }
diff --git a/src/jogasaki/api/kvsservice/transaction.cpp b/src/jogasaki/api/kvsservice/transaction.cpp
index f7c6b76..864a4ee 100644
--- a/src/jogasaki/api/kvsservice/transaction.cpp
+++ b/src/jogasaki/api/kvsservice/transaction.cpp
@@ -295,6 +295,8 @@ tateyama::proto::kvs::response::Error const &transaction::get_error_info() const
 }
 
 status transaction::dispose() {
+    // let operations waiting for the mutex find the transaction ended
+    commit_abort_called_ = true;
     auto code = sharksfin::transaction_dispose(ctrl_handle_);
     return convert(code);
 }
-- 
2.43.0


From 9e055fede8901567ab369ddea029e5803ef347ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:39 +0000
Subject: [PATCH 88/92] fix: LOAD in a transaction takes the errors of all
 statements before it ends

---
 src/jogasaki/executor/file/loader.cpp | 33 ++++++++++++++++++---------
 src/jogasaki/executor/file/loader.h   |  5 +++-
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/jogasaki/executor/file/loader.cpp b/src/jogasaki/executor/file/loader.cpp
index 22d8535..02ca1af 100644
--- a/src/jogasaki/executor/file/loader.cpp
+++ b/src/jogasaki/executor/file/loader.cpp
@@ -154,12 +154,17 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
     if (error_aborted_) {
         return loader_result::error;
     }
+    // read the count first so that the errors of the statements no longer counted are visible below
+    auto running = running_statement_count_.load();
     if (error_aborting_) {
-        if (running_statement_count_ == 0) {
+        if (running == 0) {
             VLOG_LP(log_error) << "transaction is aborted due to the error during loading";
             // currently err_aborted should be used in order to report tx aborted. When abort can be reported
             // in different channel, original status code should be passed. TODO
-            status_ = status::err_aborted;
+            {
+                std::lock_guard lk{error_mutex_};
+                status_ = status::err_aborted;
+            }
             executor::abort_transaction(tx_, {}); // TODO fill request info
             VLOG_LP(log_info) << "transaction aborted";
             error_aborted_ = true;
@@ -168,9 +173,9 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
         return loader_result::running;
     }
     if (! more_to_read_) {
-        return running_statement_count_ != 0 ? loader_result::running : loader_result::ok;
+        return running != 0 ? loader_result::running : loader_result::ok;
     }
-    auto slots = bulk_size_ - running_statement_count_;
+    auto slots = bulk_size_ - running;
     if (slots == 0) {
         return loader_result::running;
     }
@@ -181,7 +186,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
             if(next_file_ == files_.end()) {
                 // reading all files completed
                 more_to_read_ = false;
-                return running_statement_count_ != 0 ? loader_result::running : loader_result::ok;
+                return loader_result::running;
             }
 
             reader_option opt{};
@@ -189,6 +194,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
             reader_ = parquet_reader::open(*next_file_, std::addressof(opt));
             ++next_file_;
             if(! reader_) {
+                std::lock_guard lk{error_mutex_};
                 status_ = status::err_io_error;
                 msg_ = "opening parquet file failed.";
                 VLOG_LP(log_error) << msg_;
@@ -219,18 +225,22 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
                 std::shared_ptr<request_statistics> stats  //NOLINT(performance-unnecessary-value-param)
             ){
                 (void) stats; // TODO
-                --running_statement_count_;
+                // decrement at last because this object possibly goes away after that
                 if(st != status::ok) {
                     std::stringstream ss{};
                     ss << "load failed with the statement position:" << records_loaded_ << " status:" << st
                        << " with message \"" << (info ? info->message() : "") << "\"";
-                    status_ = st;
-                    msg_ = ss.str();
-                    VLOG_LP(log_error) << msg_;  //NOLINT
+                    {
+                        std::lock_guard lk{error_mutex_};
+                        status_ = st;
+                        msg_ = ss.str();
+                        VLOG_LP(log_error) << msg_;  //NOLINT
+                    }
                     error_aborting_ = true;
-                    return;
+                } else {
+                    ++records_loaded_;
                 }
-                ++records_loaded_;
+                --running_statement_count_;
             }
         );
     }
@@ -246,6 +256,7 @@ std::size_t loader::records_loaded() const noexcept {
 }
 
 std::pair<status, std::string> loader::error_info() const noexcept {
+    std::lock_guard lk{error_mutex_};
     return {status_, msg_};
 }
 
diff --git a/src/jogasaki/executor/file/loader.h b/src/jogasaki/executor/file/loader.h
index 5feb226..246641c 100644
--- a/src/jogasaki/executor/file/loader.h
+++ b/src/jogasaki/executor/file/loader.h
@@ -20,6 +20,7 @@
 #include <cstdlib>
 #include <iosfwd>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <unordered_map>
@@ -170,9 +171,11 @@ private:
     std::unordered_map<std::string, parameter> mapping_{};
     std::size_t bulk_size_{};
     bool more_to_read_{true};
+    // guards status_ and msg_
+    mutable std::mutex error_mutex_{};
     status status_{status::ok};
     std::string msg_{};
-    bool error_aborting_{false};
+    std::atomic_bool error_aborting_{false};
     bool error_aborted_{false};
 };
 
-- 
2.43.0


From 39fd059f7442095501d6c1601a0c056bbe2aefda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:39 +0000
Subject: [PATCH 89/92] fix: LOAD accepts files without row groups

---
 src/jogasaki/executor/batch/batch_file_executor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/batch/batch_file_executor.cpp b/src/jogasaki/executor/batch/batch_file_executor.cpp
index abc805d..8da3cca 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_file_executor.cpp
@@ -53,7 +53,7 @@ std::pair<bool, std::shared_ptr<batch_block_executor>> batch_file_executor::crea
     std::size_t cur{};
     do {
         cur = next_block_index_.load();
-        if(cur > block_count_-1) {
+        if(cur >= block_count_) {
             return {true, nullptr};
         }
     } while (! next_block_index_.compare_exchange_strong(cur, cur+1));
-- 
2.43.0


From 3a65a07d74b4c8624471ede75228b59984d73a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:34 +0000
Subject: [PATCH 90/92] fix: LOAD ends each file once even if its blocks finish
 while others are being created

---
 src/jogasaki/executor/batch/batch_executor.cpp  | 11 ++++-------
 .../executor/batch/batch_file_executor.cpp      | 15 +++++++++++++--
 .../executor/batch/batch_file_executor.h        | 17 +++++++++++++++++
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_executor.cpp b/src/jogasaki/executor/batch/batch_executor.cpp
index 4beb30f..3cbb333 100644
--- a/src/jogasaki/executor/batch/batch_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_executor.cpp
@@ -36,9 +36,10 @@ batch_executor::batch_executor(
 {}
 
 std::pair<bool, bool> batch_executor::create_blocks(std::shared_ptr<batch_file_executor> const& file) {
-    bool block_created = false;
     auto mb = info_.options().max_concurrent_blocks_per_file();
     std::size_t n = (mb == batch_executor_option::undefined) ? std::numeric_limits<std::size_t>::max() : mb;
+    // blocks created here possibly finish soon, so keep the file from ending until all of them are created
+    file->begin_creating_blocks();
     for(std::size_t i=0; i < n; ++i) {
         auto&& [success, blk] = file->next_block();
         if(! success) {
@@ -47,13 +48,9 @@ std::pair<bool, bool> batch_executor::create_blocks(std::shared_ptr<batch_file_e
         if(! blk) {
             break;
         }
-        block_created = true;
     }
-    if(file->remaining_block_count() == 0) {
-        // blocks might have been created, but they finished already, so handle as if they are not created
-        block_created = false;
-    }
-    return {true, block_created};
+    // blocks might have been created, but if all of them finished already, handle as if they are not created
+    return {true, ! file->end_creating_blocks()};
 }
 
 std::pair<bool, std::shared_ptr<batch_file_executor>> batch_executor::next_file() {
diff --git a/src/jogasaki/executor/batch/batch_file_executor.cpp b/src/jogasaki/executor/batch/batch_file_executor.cpp
index 8da3cca..7182f58 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_file_executor.cpp
@@ -82,13 +82,15 @@ std::pair<std::shared_ptr<batch_block_executor>, std::size_t> batch_file_executo
         ret = std::move(acc->second);
         children_.erase(acc);
     }
-    // Operations removing from children_ and fetching its size cannot be atomic, so we use remaining_block_count_
+    // Operations removing from children_ and fetching its size cannot be atomic, so we use end_count_
     // to check if this block is the last.
-    auto cnt = --remaining_block_count_;
+    --remaining_block_count_;
 
     if(info_.options().release_block_cb()) {
         info_.options().release_block_cb()(arg);
     }
+    // decrement at last because this file is possibly released by other thread after that
+    auto cnt = --end_count_;
     return {ret, cnt};
 }
 
@@ -125,6 +127,7 @@ bool batch_file_executor::init() {
     }
     block_count_ = reader->row_group_count();
     remaining_block_count_ = block_count_;
+    end_count_ = block_count_;
     return true;
 }
 
@@ -179,6 +182,14 @@ void batch_file_executor::end_of_block(batch_block_executor *arg) {
     parent_->end_of_file(this);
 }
 
+void batch_file_executor::begin_creating_blocks() noexcept {
+    ++end_count_;
+}
+
+bool batch_file_executor::end_creating_blocks() noexcept {
+    return --end_count_ == 0;
+}
+
 std::size_t batch_file_executor::remaining_block_count() const noexcept {
     return remaining_block_count_;
 }
diff --git a/src/jogasaki/executor/batch/batch_file_executor.h b/src/jogasaki/executor/batch/batch_file_executor.h
index 08a553a..02317b7 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.h
+++ b/src/jogasaki/executor/batch/batch_file_executor.h
@@ -104,6 +104,19 @@ public:
      */
     [[nodiscard]] std::size_t remaining_block_count() const noexcept;
 
+    /**
+     * @brief declare that the parent begins creating the blocks of the file
+     * @details the file does not end until end_creating_blocks() is called
+     */
+    void begin_creating_blocks() noexcept;
+
+    /**
+     * @brief declare that the parent finished creating the blocks of the file
+     * @return true if all the blocks already finished and the caller is responsible for handling the end of the file
+     * @return false otherwise. The file object is possibly released after this call.
+     */
+    [[nodiscard]] bool end_creating_blocks() noexcept;
+
     /**
      * @brief factory function to construct file executor
      * @see constructor for the details of parameters
@@ -131,6 +144,10 @@ private:
     std::size_t block_count_{};
     std::atomic_size_t remaining_block_count_{};
 
+    // the number of the blocks not yet released plus one while the parent is creating the blocks.
+    // Only the thread decrementing this to 0 handles the end of the file.
+    std::atomic_size_t end_count_{};
+
     /**
      * @brief create new object
      * @param file the file path containing parameter
-- 
2.43.0


From 5e627793b27f669b31f83721cc9d5cc95deb8119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:54 +0000
Subject: [PATCH 91/92] fix: LOAD keeps a file whose blocks are in progress
 when creating one of them fails

---
 src/jogasaki/executor/batch/batch_executor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/batch/batch_executor.cpp b/src/jogasaki/executor/batch/batch_executor.cpp
index 3cbb333..152261e 100644
--- a/src/jogasaki/executor/batch/batch_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_executor.cpp
@@ -62,7 +62,7 @@ std::pair<bool, std::shared_ptr<batch_file_executor>> batch_executor::next_file(
 
         auto [s, block_created] = create_blocks(file);
         if (! s) {
-            release(file.get());
+            // other blocks of the file are possibly in progress, so keep the file until this object ends
             return {false, {}};
         }
         if (! block_created) {
-- 
2.43.0


From 1ddc47d05025b65ec132d8b0ffba004e70dff72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:30 +0000
Subject: [PATCH 92/92] fix: LOAD tells its end even if the next block or file
 finishes first

---
 src/jogasaki/executor/batch/batch_executor.cpp      | 6 +-----
 src/jogasaki/executor/batch/batch_file_executor.cpp | 5 +----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_executor.cpp b/src/jogasaki/executor/batch/batch_executor.cpp
index 152261e..7de2e34 100644
--- a/src/jogasaki/executor/batch/batch_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_executor.cpp
@@ -176,12 +176,8 @@ void batch_executor::end_of_file(batch_file_executor *arg) {
 
     auto [f, cnt] = release(arg);
     (void) f;
+    (void) file;  // the next file is possibly finished already, so only the count tells the end
 
-    if (file) {
-        return;
-    }
-
-    // no more file
     if(cnt != 0) {
         // other files are in progress, so leave finalizing batch to it
         return;
diff --git a/src/jogasaki/executor/batch/batch_file_executor.cpp b/src/jogasaki/executor/batch/batch_file_executor.cpp
index 7182f58..6c60220 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_file_executor.cpp
@@ -168,10 +168,7 @@ void batch_file_executor::end_of_block(batch_block_executor *arg) {
 
     auto [self, cnt] = release(arg); // keep self by the end of this scope
     (void) self;
-
-    if(next) {
-        return;
-    }
+    (void) next;  // the next block is possibly finished already, so only the count tells the end
 
     if(cnt != 0) {
         // other block in the file are in progress, so leave finalizing file to it
-- 
2.43.0

