From 4ad1f0d6397e09b0f6df74e96991771db291e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 01/17] fix: end of file is not reported as bad_alloc because
 of a stale errno

---
 include/ss/common.hpp | 1 +
 ssp.hpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index e507994..28f186e 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -130,6 +130,7 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
         curr_char += ssize;
diff --git a/ssp.hpp b/ssp.hpp
index 0fc4cd3..cb60f71 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -747,6 +747,7 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
         curr_char += ssize;
-- 
2.43.0


From 92a1b7df0434a3ea99b9da538f1ff89fc5813046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 02/17] fix: reading a file to its end does not decrement
 position

---
 include/ss/common.hpp | 4 +++-
 ssp.hpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 28f186e..fe231d7 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -133,7 +133,9 @@ using ssize_t = intptr_t;
     errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
diff --git a/ssp.hpp b/ssp.hpp
index cb60f71..e385705 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -750,7 +750,9 @@ using ssize_t = intptr_t;
     errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
-- 
2.43.0


From 8364448bb4e1548c0e7d36d3e6c4df2c2b436c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 03/17] fix: ignore_next updates eof and does nothing at the
 end of the data

---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b054328..2026d26 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -95,7 +95,10 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (!eof_) {
+            read_line();
+        }
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
diff --git a/ssp.hpp b/ssp.hpp
index e385705..1a735bb 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2372,7 +2372,10 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (!eof_) {
+            read_line();
+        }
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
-- 
2.43.0


From 2430848bfe13bcbba12fdad40db7d559e1a0af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 04/17] fix: move assignment releases the buffers and the file
 of the target

---
 include/ss/parser.hpp | 14 ++++++++++----
 ssp.hpp               | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 2026d26..3002c58 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -799,6 +799,8 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -828,6 +830,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -837,10 +847,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
diff --git a/ssp.hpp b/ssp.hpp
index 1a735bb..8e91a7e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3076,6 +3076,8 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -3105,6 +3107,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -3114,10 +3124,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
-- 
2.43.0


From c97b89d8213e4eea797d309a741c3d31b671ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 05/17] fix: an empty line does not inherit the split error of
 the previous line

---
 include/ss/converter.hpp | 1 +
 ssp.hpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 06e67d2..a9c1c91 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -191,6 +191,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
diff --git a/ssp.hpp b/ssp.hpp
index 8e91a7e..6f9c4d5 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1978,6 +1978,7 @@ public:
     const split_data& split(line_ptr_type line,
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
+        splitter_.clear_error();
         if (line[0] == '\0') {
             return splitter_.get_split_data();
         }
-- 
2.43.0


From 71d1a3741d1cba92af5c352d05ba282effe44b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 06/17] fix: a header which could not be read completely is not
 used later

---
 include/ss/parser.hpp | 9 +++++----
 ssp.hpp               | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 3002c58..b462316 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -559,16 +559,17 @@ private:
             return;
         }
 
+        std::vector<std::string> header;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
+            if (std::find(header.begin(), header.end(), field) !=
+                header.end()) {
                 handle_error_duplicate_header_field(field);
-                header_.clear();
                 return;
             }
-            header_.push_back(std::move(field));
+            header.push_back(std::move(field));
         }
+        header_ = std::move(header);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
diff --git a/ssp.hpp b/ssp.hpp
index 6f9c4d5..4073c72 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2837,16 +2837,17 @@ private:
             return;
         }
 
+        std::vector<std::string> header;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
+            if (std::find(header.begin(), header.end(), field) !=
+                header.end()) {
                 handle_error_duplicate_header_field(field);
-                header_.clear();
                 return;
             }
-            header_.push_back(std::move(field));
+            header.push_back(std::move(field));
         }
+        header_ = std::move(header);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
-- 
2.43.0


From db6518e7cfc04b7241421f5bb9568654d1d56779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 07/17] fix: a failing use_fields does not change the mapping
 of every other row

---
 include/ss/parser.hpp | 9 ++++++---
 ssp.hpp               | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b462316..34a278f 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -242,9 +242,12 @@ public:
             column_mappings.push_back(*index);
         }
 
-        reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        auto next_line_column_mappings = column_mappings;
+        reader_.converter_.set_column_mapping(std::move(column_mappings),
+                                              header_.size());
+        reader_.next_line_converter_
+            .set_column_mapping(std::move(next_line_column_mappings),
+                                header_.size());
 
         if (line() == 0) {
             ignore_next();
diff --git a/ssp.hpp b/ssp.hpp
index 4073c72..4b6a618 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2520,9 +2520,12 @@ public:
             column_mappings.push_back(*index);
         }
 
-        reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        auto next_line_column_mappings = column_mappings;
+        reader_.converter_.set_column_mapping(std::move(column_mappings),
+                                              header_.size());
+        reader_.next_line_converter_
+            .set_column_mapping(std::move(next_line_column_mappings),
+                                header_.size());
 
         if (line() == 0) {
             ignore_next();
-- 
2.43.0


From 5df8e1c0fb7a888fef19478b4fe971322660d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 08/17] fix: use_fields skips a header which is preceded by
 ignored empty lines

---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 34a278f..a05827a 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -39,6 +39,7 @@ public:
         : file_name_{std::move(file_name)}, reader_{file_name_, delim} {
         if (reader_.file_) {
             read_line();
+            header_line_number_ = reader_.line_number_;
             if constexpr (ignore_header) {
                 ignore_next();
             } else {
@@ -56,6 +57,7 @@ public:
           reader_{csv_data_buffer, csv_data_size, delim} {
         if (csv_data_buffer) {
             read_line();
+            header_line_number_ = reader_.line_number_;
             if constexpr (ignore_header) {
                 ignore_next();
             } else {
@@ -249,7 +251,7 @@ public:
             .set_column_mapping(std::move(next_line_column_mappings),
                                 header_.size());
 
-        if (line() == 0) {
+        if (reader_.line_number_ == header_line_number_) {
             ignore_next();
         }
     }
@@ -1071,6 +1073,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 4b6a618..088a4b2 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2317,6 +2317,7 @@ public:
         : file_name_{std::move(file_name)}, reader_{file_name_, delim} {
         if (reader_.file_) {
             read_line();
+            header_line_number_ = reader_.line_number_;
             if constexpr (ignore_header) {
                 ignore_next();
             } else {
@@ -2334,6 +2335,7 @@ public:
           reader_{csv_data_buffer, csv_data_size, delim} {
         if (csv_data_buffer) {
             read_line();
+            header_line_number_ = reader_.line_number_;
             if constexpr (ignore_header) {
                 ignore_next();
             } else {
@@ -2527,7 +2529,7 @@ public:
             .set_column_mapping(std::move(next_line_column_mappings),
                                 header_.size());
 
-        if (line() == 0) {
+        if (reader_.line_number_ == header_line_number_) {
             ignore_next();
         }
     }
@@ -3349,6 +3351,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From a09da96573fae5490f844d5eddfd48a01488b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 09/17] fix: no write past the conversion buffer for 64
 character numbers

---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 58cea4e..86c6016 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -52,7 +52,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
diff --git a/ssp.hpp b/ssp.hpp
index 088a4b2..9339142 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1585,7 +1585,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
-- 
2.43.0


From 998b8c63dbf9f1ea71da6c0ef2f4e2e67ce2187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 10/17] fix: or_else and or_object do not convert left-overs
 when there is no row

At the end of the file and for malformed multiline rows the substitute
conversions accepted the remains of another row. Reading at the end of
the file reports it without touching the row read last.
---
 include/ss/parser.hpp | 38 +++++++++++++++++++++++---------------
 ssp.hpp               | 38 +++++++++++++++++++++++---------------
 2 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index a05827a..4f94df6 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -119,17 +119,23 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        clear_error();
+        row_available_ = false;
+
+        if (eof_) {
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -139,12 +145,7 @@ public:
             return {};
         }
 
-        clear_error();
-
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
+        row_available_ = true;
 
         if constexpr (throw_on_error) {
             try {
@@ -422,6 +423,12 @@ public:
                 return;
             }
 
+            // no row to convert, eg. at the end of the file or if the row
+            // is malformed, the error is already set
+            if (!parser_.row_available_) {
+                return;
+            }
+
             auto tuple_output = try_same<Us...>();
             if (!parser_.valid()) {
                 return;
@@ -1074,6 +1081,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    bool row_available_{false};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 9339142..3b78efc 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2397,17 +2397,23 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        clear_error();
+        row_available_ = false;
+
+        if (eof_) {
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -2417,12 +2423,7 @@ public:
             return {};
         }
 
-        clear_error();
-
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
+        row_available_ = true;
 
         if constexpr (throw_on_error) {
             try {
@@ -2700,6 +2701,12 @@ public:
                 return;
             }
 
+            // no row to convert, eg. at the end of the file or if the row
+            // is malformed, the error is already set
+            if (!parser_.row_available_) {
+                return;
+            }
+
             auto tuple_output = try_same<Us...>();
             if (!parser_.valid()) {
                 return;
@@ -3352,6 +3359,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    bool row_available_{false};
     bool eof_{false};
 };
 
-- 
2.43.0


From 0ce04cc07ebdf57b99eda2ec59908fcb9e5db046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 11/17] fix: a row whose conversion is left by an exception is
 not converted again

An exception thrown by user code (or bad_alloc) skipped reading of the
next line while the buffers were swapped already, the following call
converted the row before it. If memory runs out while a line is being
read, the rest of it is not taken for a line of its own.
---
 include/ss/parser.hpp | 76 +++++++++++++++++++++++++------------------
 ssp.hpp               | 76 +++++++++++++++++++++++++------------------
 2 files changed, 88 insertions(+), 64 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 4f94df6..8a10872 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -127,42 +127,24 @@ public:
             return {};
         }
 
-        if constexpr (throw_on_error) {
+        // the next line is read no matter how the conversion of the current
+        // row ends, otherwise it would be converted again
+        auto value = [this] {
             try {
-                reader_.parse();
+                return convert_row<T, Ts...>();
             } catch (const ss::exception& e) {
                 read_line();
-                decorate_rethrow(e);
-            }
-        } else {
-            reader_.parse();
-        }
-
-        reader_.update();
-        if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-            read_line();
-            return {};
-        }
-
-        row_available_ = true;
-
-        if constexpr (throw_on_error) {
-            try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
-                read_line();
-                return value;
-            } catch (const ss::exception& e) {
-                read_line();
-                decorate_rethrow(e);
+                if constexpr (throw_on_error) {
+                    decorate_rethrow(e);
+                }
+                throw;
+            } catch (...) {
+                if (!eof_) {
+                    read_line();
+                }
+                throw;
             }
-        }
-
-        auto value = reader_.converter_.template convert<T, Ts...>();
-
-        if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-        }
+        }();
 
         read_line();
         return value;
@@ -773,10 +755,40 @@ private:
     // line reading
     ////////////////
 
+    // if running out of memory while reading, a part of the line may be lost,
+    // nothing is read afterwards
     void read_line() {
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
+    void parse_line() {
+        eof_ = true;
+        reader_.parse();
+        eof_ = false;
+    }
+
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
+        parse_line();
+        reader_.update();
+
+        if (!reader_.converter_.valid()) {
+            handle_error_invalid_conversion();
+            return {};
+        }
+
+        row_available_ = true;
+
+        auto value = reader_.converter_.template convert<T, Ts...>();
+
+        if (!reader_.converter_.valid()) {
+            handle_error_invalid_conversion();
+        }
+
+        return value;
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
diff --git a/ssp.hpp b/ssp.hpp
index 3b78efc..40761fd 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2405,42 +2405,24 @@ public:
             return {};
         }
 
-        if constexpr (throw_on_error) {
+        // the next line is read no matter how the conversion of the current
+        // row ends, otherwise it would be converted again
+        auto value = [this] {
             try {
-                reader_.parse();
+                return convert_row<T, Ts...>();
             } catch (const ss::exception& e) {
                 read_line();
-                decorate_rethrow(e);
-            }
-        } else {
-            reader_.parse();
-        }
-
-        reader_.update();
-        if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-            read_line();
-            return {};
-        }
-
-        row_available_ = true;
-
-        if constexpr (throw_on_error) {
-            try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
-                read_line();
-                return value;
-            } catch (const ss::exception& e) {
-                read_line();
-                decorate_rethrow(e);
+                if constexpr (throw_on_error) {
+                    decorate_rethrow(e);
+                }
+                throw;
+            } catch (...) {
+                if (!eof_) {
+                    read_line();
+                }
+                throw;
             }
-        }
-
-        auto value = reader_.converter_.template convert<T, Ts...>();
-
-        if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-        }
+        }();
 
         read_line();
         return value;
@@ -3051,10 +3033,40 @@ private:
     // line reading
     ////////////////
 
+    // if running out of memory while reading, a part of the line may be lost,
+    // nothing is read afterwards
     void read_line() {
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
+    void parse_line() {
+        eof_ = true;
+        reader_.parse();
+        eof_ = false;
+    }
+
+    template <typename T, typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
+        parse_line();
+        reader_.update();
+
+        if (!reader_.converter_.valid()) {
+            handle_error_invalid_conversion();
+            return {};
+        }
+
+        row_available_ = true;
+
+        auto value = reader_.converter_.template convert<T, Ts...>();
+
+        if (!reader_.converter_.valid()) {
+            handle_error_invalid_conversion();
+        }
+
+        return value;
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
-- 
2.43.0


From b56c6920d503e0bee15406ca4714bf1830bbdfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 12/17] fix: errors name the line of the row they are about

The line number was taken after the next line was read, it was off by
one for substitute conversions, and by any number of ignored empty lines
for thrown errors.
---
 include/ss/parser.hpp | 7 +++++--
 ssp.hpp               | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 8a10872..cadf8d7 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -133,6 +133,7 @@ public:
             try {
                 return convert_row<T, Ts...>();
             } catch (const ss::exception& e) {
+                row_line_number_ = reader_.line_number_;
                 read_line();
                 if constexpr (throw_on_error) {
                     decorate_rethrow(e);
@@ -645,7 +646,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -746,7 +747,7 @@ private:
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(row_line_number_))
                                 .append(": ")
                                 .append(e.what())};
     }
@@ -771,6 +772,7 @@ private:
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
         parse_line();
+        row_line_number_ = reader_.line_number_;
         reader_.update();
 
         if (!reader_.converter_.valid()) {
@@ -1093,6 +1095,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    size_t row_line_number_{0};
     bool row_available_{false};
     bool eof_{false};
 };
diff --git a/ssp.hpp b/ssp.hpp
index 40761fd..4567c15 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2411,6 +2411,7 @@ public:
             try {
                 return convert_row<T, Ts...>();
             } catch (const ss::exception& e) {
+                row_line_number_ = reader_.line_number_;
                 read_line();
                 if constexpr (throw_on_error) {
                     decorate_rethrow(e);
@@ -2923,7 +2924,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -3024,7 +3025,7 @@ private:
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(row_line_number_))
                                 .append(": ")
                                 .append(e.what())};
     }
@@ -3049,6 +3050,7 @@ private:
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> convert_row() {
         parse_line();
+        row_line_number_ = reader_.line_number_;
         reader_.update();
 
         if (!reader_.converter_.valid()) {
@@ -3371,6 +3373,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    size_t row_line_number_{0};
     bool row_available_{false};
     bool eof_{false};
 };
-- 
2.43.0


From b5ca0451f8b9873d01693641daea61c16139c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 13/17] fix: ignore_next skips a whole row, not only its first
 line

---
 include/ss/parser.hpp | 14 +++++++++++++-
 ssp.hpp               | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index cadf8d7..0af5055 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -98,7 +98,7 @@ public:
 
     bool ignore_next() {
         if (!eof_) {
-            read_line();
+            skip_row();
         }
         return !eof_;
     }
@@ -763,6 +763,18 @@ private:
         eof_ = !reader_.read_next();
     }
 
+    // a row may be made of multiple lines
+    void skip_row() {
+        if constexpr (multiline::enabled) {
+            try {
+                parse_line();
+            } catch (const ss::exception&) {
+                // malformed rows are skipped as well
+            }
+        }
+        read_line();
+    }
+
     void parse_line() {
         eof_ = true;
         reader_.parse();
diff --git a/ssp.hpp b/ssp.hpp
index 4567c15..c29fce4 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2376,7 +2376,7 @@ public:
 
     bool ignore_next() {
         if (!eof_) {
-            read_line();
+            skip_row();
         }
         return !eof_;
     }
@@ -3041,6 +3041,18 @@ private:
         eof_ = !reader_.read_next();
     }
 
+    // a row may be made of multiple lines
+    void skip_row() {
+        if constexpr (multiline::enabled) {
+            try {
+                parse_line();
+            } catch (const ss::exception&) {
+                // malformed rows are skipped as well
+            }
+        }
+        read_line();
+    }
+
     void parse_line() {
         eof_ = true;
         reader_.parse();
-- 
2.43.0


From fc36520d7595b88479829ae196939dc63f5fb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 14/17] fix: a failed read is reported and not taken for the
 end of the file

A read error in the middle of a line yielded its first half as a row,
and an error between lines looked like a regular end of file.
---
 include/ss/common.hpp |  9 ++++++++
 include/ss/parser.hpp | 42 ++++++++++++++++++++++++++++++++---
 ssp.hpp               | 51 ++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 96 insertions(+), 6 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index fe231d7..fcdc69f 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -132,8 +132,17 @@ using ssize_t = intptr_t;
     ssize_t ssize = 0;
     errno = 0;
     if (file) {
+        if (std::ferror(file)) {
+            return {-1, true};
+        }
+
         ssize = get_line_file(buffer, buffer_size, file);
+
         if (ssize != -1) {
+            // the line could be incomplete
+            if (std::ferror(file)) {
+                return {-1, true};
+            }
             curr_char += ssize;
         }
     } else {
diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 0af5055..f159a26 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -45,6 +45,10 @@ public:
             } else {
                 raw_header_ = reader_.get_buffer();
             }
+
+            if (!eof_ && reader_.read_failed()) {
+                handle_error_read_failed();
+            }
         } else {
             handle_error_file_not_open();
             eof_ = true;
@@ -97,9 +101,16 @@ public:
     }
 
     bool ignore_next() {
-        if (!eof_) {
-            skip_row();
+        if (eof_) {
+            return false;
+        }
+
+        if (reader_.read_failed()) {
+            handle_error_read_failed();
+            return false;
         }
+
+        skip_row();
         return !eof_;
     }
 
@@ -127,6 +138,11 @@ public:
             return {};
         }
 
+        if (reader_.read_failed()) {
+            handle_error_read_failed();
+            return {};
+        }
+
         // the next line is read no matter how the conversion of the current
         // row ends, otherwise it would be converted again
         auto value = [this] {
@@ -628,6 +644,20 @@ private:
         }
     }
 
+    void handle_error_read_failed() {
+        constexpr static auto error_msg = ": could not be read";
+        eof_ = true;
+
+        if constexpr (string_error) {
+            error_.clear();
+            error_.append(file_name_).append(error_msg);
+        } else if constexpr (throw_on_error) {
+            throw ss::exception{file_name_ + error_msg};
+        } else {
+            error_ = true;
+        }
+    }
+
     void handle_error_eof_reached() {
         constexpr static auto error_msg = ": read on end of file";
 
@@ -760,7 +790,7 @@ private:
     // nothing is read afterwards
     void read_line() {
         eof_ = true;
-        eof_ = !reader_.read_next();
+        eof_ = !reader_.read_next() && !reader_.read_failed();
     }
 
     // a row may be made of multiple lines
@@ -979,6 +1009,12 @@ private:
             std::swap(converter_, next_line_converter_);
         }
 
+        // reading failed, no more lines are available, even though the end
+        // of the file is not reached
+        [[nodiscard]] bool read_failed() const {
+            return file_ && std::ferror(file_);
+        }
+
         [[nodiscard]] bool multiline_limit_reached(size_t& limit) {
             if constexpr (multiline::size > 0) {
                 if (limit++ >= multiline::size) {
diff --git a/ssp.hpp b/ssp.hpp
index c29fce4..b226b29 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -749,8 +749,17 @@ using ssize_t = intptr_t;
     ssize_t ssize = 0;
     errno = 0;
     if (file) {
+        if (std::ferror(file)) {
+            return {-1, true};
+        }
+
         ssize = get_line_file(buffer, buffer_size, file);
+
         if (ssize != -1) {
+            // the line could be incomplete
+            if (std::ferror(file)) {
+                return {-1, true};
+            }
             curr_char += ssize;
         }
     } else {
@@ -2323,6 +2332,10 @@ public:
             } else {
                 raw_header_ = reader_.get_buffer();
             }
+
+            if (!eof_ && reader_.read_failed()) {
+                handle_error_read_failed();
+            }
         } else {
             handle_error_file_not_open();
             eof_ = true;
@@ -2375,9 +2388,16 @@ public:
     }
 
     bool ignore_next() {
-        if (!eof_) {
-            skip_row();
+        if (eof_) {
+            return false;
         }
+
+        if (reader_.read_failed()) {
+            handle_error_read_failed();
+            return false;
+        }
+
+        skip_row();
         return !eof_;
     }
 
@@ -2405,6 +2425,11 @@ public:
             return {};
         }
 
+        if (reader_.read_failed()) {
+            handle_error_read_failed();
+            return {};
+        }
+
         // the next line is read no matter how the conversion of the current
         // row ends, otherwise it would be converted again
         auto value = [this] {
@@ -2906,6 +2931,20 @@ private:
         }
     }
 
+    void handle_error_read_failed() {
+        constexpr static auto error_msg = ": could not be read";
+        eof_ = true;
+
+        if constexpr (string_error) {
+            error_.clear();
+            error_.append(file_name_).append(error_msg);
+        } else if constexpr (throw_on_error) {
+            throw ss::exception{file_name_ + error_msg};
+        } else {
+            error_ = true;
+        }
+    }
+
     void handle_error_eof_reached() {
         constexpr static auto error_msg = ": read on end of file";
 
@@ -3038,7 +3077,7 @@ private:
     // nothing is read afterwards
     void read_line() {
         eof_ = true;
-        eof_ = !reader_.read_next();
+        eof_ = !reader_.read_next() && !reader_.read_failed();
     }
 
     // a row may be made of multiple lines
@@ -3257,6 +3296,12 @@ private:
             std::swap(converter_, next_line_converter_);
         }
 
+        // reading failed, no more lines are available, even though the end
+        // of the file is not reached
+        [[nodiscard]] bool read_failed() const {
+            return file_ && std::ferror(file_);
+        }
+
         [[nodiscard]] bool multiline_limit_reached(size_t& limit) {
             if constexpr (multiline::size > 0) {
                 if (limit++ >= multiline::size) {
-- 
2.43.0


From ec2d34ed36d03ddd5c9576debafbaab9591fda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 15/17] fix: an escaped character which follows spacing is
 unescaped in place

With trimming enabled, looking for a delimiter behind spacing shifted the
field by the spacing instead of removing the escape.
---
 include/ss/splitter.hpp | 5 +++--
 ssp.hpp                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 0f06499..2349614 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -246,8 +246,8 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // spacing is a part of the field, it can be followed by an escape
+            return {end == begin ? 1 : end - begin, false};
         }
 
         end += delimiter_size(delim);
@@ -374,6 +374,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
diff --git a/ssp.hpp b/ssp.hpp
index b226b29..e2cc8a4 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1313,8 +1313,8 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // spacing is a part of the field, it can be followed by an escape
+            return {end == begin ? 1 : end - begin, false};
         }
 
         end += delimiter_size(delim);
@@ -1441,6 +1441,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
-- 
2.43.0


From 6e4d6c48c00fa100bc87f351059aaffedb99fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 16/17] fix: an empty field is not the number zero without
 fast_float

---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 86c6016..08c271b 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -70,7 +70,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (string_range == 0 || parse_end != buff + string_range) {
         return std::nullopt;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index e2cc8a4..6d1c26b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1613,7 +1613,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (string_range == 0 || parse_end != buff + string_range) {
         return std::nullopt;
     }
 
-- 
2.43.0


From e6c30167375fc80dda7b0b475a6f13e0b4763d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:20 +0000
Subject: [PATCH 17/17] fix: lines with null characters are read correctly
 without getline

---
 include/ss/common.hpp | 28 ++++++++++------------------
 ssp.hpp               | 28 ++++++++++------------------
 2 files changed, 20 insertions(+), 36 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index fcdc69f..7677ad0 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -6,7 +6,6 @@
 #include <vector>
 
 #if !__unix__
-#include <array>
 #include <cstdint>
 #endif
 
@@ -52,36 +51,29 @@ using ssize_t = intptr_t;
 
 [[nodiscard]] inline ssize_t get_line_file(char*& lineptr, size_t& n,
                                            FILE* file) {
-    std::array<char, get_line_initial_buffer_size> buff;
-
-    if (lineptr == nullptr || n < sizeof(buff)) {
-        const size_t new_n = sizeof(buff);
+    if (lineptr == nullptr || n < get_line_initial_buffer_size) {
+        const size_t new_n = get_line_initial_buffer_size;
         lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
         n = new_n;
     }
 
-    lineptr[0] = '\0';
-
+    // the line can contain null characters
     size_t line_used = 0;
-    while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
-
-        if (n <= buff_used + line_used) {
+    int c = 0;
+    while ((c = std::getc(file)) != EOF) {
+        if (line_used + 1 >= n) {
             const size_t new_n = n * 2;
             lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
             n = new_n;
         }
 
-        std::memcpy(lineptr + line_used, buff.data(), buff_used);
-        line_used += buff_used;
-        lineptr[line_used] = '\0';
-
-        if (lineptr[line_used - 1] == '\n') {
-            return line_used;
+        lineptr[line_used++] = static_cast<char>(c);
+        if (c == '\n') {
+            break;
         }
     }
 
+    lineptr[line_used] = '\0';
     return (line_used != 0) ? line_used : -1;
 }
 
diff --git a/ssp.hpp b/ssp.hpp
index 6d1c26b..551f69a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -623,7 +623,6 @@ struct ne {
 } /* namespace ss */
 
 #if !__unix__
-#include <array>
 #include <cstdint>
 #endif
 
@@ -669,36 +668,29 @@ using ssize_t = intptr_t;
 
 [[nodiscard]] inline ssize_t get_line_file(char*& lineptr, size_t& n,
                                            FILE* file) {
-    std::array<char, get_line_initial_buffer_size> buff;
-
-    if (lineptr == nullptr || n < sizeof(buff)) {
-        const size_t new_n = sizeof(buff);
+    if (lineptr == nullptr || n < get_line_initial_buffer_size) {
+        const size_t new_n = get_line_initial_buffer_size;
         lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
         n = new_n;
     }
 
-    lineptr[0] = '\0';
-
+    // the line can contain null characters
     size_t line_used = 0;
-    while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
-
-        if (n <= buff_used + line_used) {
+    int c = 0;
+    while ((c = std::getc(file)) != EOF) {
+        if (line_used + 1 >= n) {
             const size_t new_n = n * 2;
             lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
             n = new_n;
         }
 
-        std::memcpy(lineptr + line_used, buff.data(), buff_used);
-        line_used += buff_used;
-        lineptr[line_used] = '\0';
-
-        if (lineptr[line_used - 1] == '\n') {
-            return line_used;
+        lineptr[line_used++] = static_cast<char>(c);
+        if (c == '\n') {
+            break;
         }
     }
 
+    lineptr[line_used] = '\0';
     return (line_used != 0) ? line_used : -1;
 }
 
-- 
2.43.0

