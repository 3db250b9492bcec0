From d5eb0839434aea3edfb26781e7bede9eccaca813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 01/38] verif hook: runtime-selectable static buffer size
 (LOG_SURGEON_VERIF)

---
 src/log_surgeon/Buffer.hpp    | 4 ++++
 src/log_surgeon/Constants.hpp | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/log_surgeon/Buffer.hpp b/src/log_surgeon/Buffer.hpp
index 2a35195..2b2fa93 100644
--- a/src/log_surgeon/Buffer.hpp
+++ b/src/log_surgeon/Buffer.hpp
@@ -88,7 +88,11 @@ private:
     uint32_t m_pos{0};
     uint32_t m_active_size{cStaticByteBuffSize};
     std::vector<std::vector<Item>> m_dynamic_storages;
+#ifdef LOG_SURGEON_VERIF
+    Item m_static_storage[cStaticByteBuffCapacity];
+#else
     Item m_static_storage[cStaticByteBuffSize];
+#endif
     Item* m_active_storage{m_static_storage};
 };
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/Constants.hpp b/src/log_surgeon/Constants.hpp
index 17f0372..7b6f047 100644
--- a/src/log_surgeon/Constants.hpp
+++ b/src/log_surgeon/Constants.hpp
@@ -46,7 +46,15 @@ constexpr char cTokenHex[] = "hex";
 constexpr char cTokenFirstTimestamp[] = "firstTimestamp";
 constexpr char cTokenNewlineTimestamp[] = "newLineTimestamp";
 constexpr char cTokenNewline[] = "newLine";
+#ifdef LOG_SURGEON_VERIF
+// Verification hook: lets a test harness choose (at runtime, up to the capacity below) the size used
+// for the static buffers, so that the wrapping and growth of the buffers can be explored with small
+// inputs. Must only be changed while no buffer is in use.
+constexpr uint32_t cStaticByteBuffCapacity = 1024;
+inline uint32_t cStaticByteBuffSize{cStaticByteBuffCapacity};
+#else
 constexpr uint32_t cStaticByteBuffSize = 48'000;
+#endif
 
 namespace utf8 {
 // 0xC0, 0xC1, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE,
-- 
2.43.0


From 5f3177df26b634be12b25e10eab760d3af1efea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/38] fix: do not treat a short read as the end of the input

A Reader may return fewer bytes than it was asked for (e.g. a socket, or a pipe). The input buffer
took the first short read for the end of the input, so the rest was silently dropped. Also remember
how much of a schema string was already handed to the parser, rather than starting over on every
read.
---
 src/log_surgeon/ParserInputBuffer.cpp | 36 +++++++++++++++++----------
 src/log_surgeon/ParserInputBuffer.hpp |  3 +++
 src/log_surgeon/SchemaParser.cpp      |  4 +--
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..d9045fe 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -14,6 +14,7 @@ void ParserInputBuffer::reset() {
     m_finished_reading_input = false;
     m_pos_last_read_char = 0;
     m_last_read_first_half = false;
+    m_bytes_read_into_half = 0;
     m_storage.reset();
     m_consumed_pos = m_storage.size() - 1;
 }
@@ -33,28 +34,37 @@ auto ParserInputBuffer::read_is_safe() -> bool {
 }
 
 auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
-    size_t bytes_read{0};
     // read into the correct half of the buffer
     uint32_t read_offset{0};
     if (m_last_read_first_half) {
         read_offset = m_storage.size() / 2;
     }
-    if (ErrorCode err = m_storage.read(reader, read_offset, m_storage.size() / 2, bytes_read);
-        ErrorCode::Success != err)
-    {
-        if (ErrorCode::EndOfFile == err) {
+    // A reader may return less than what was asked for without being finished, so the half is only
+    // complete once it is full or the reader has reached its end.
+    uint32_t const bytes_to_read{m_storage.size() / 2};
+    while (m_bytes_read_into_half < bytes_to_read) {
+        size_t bytes_read{0};
+        ErrorCode const err = m_storage.read(
+                reader,
+                read_offset + m_bytes_read_into_half,
+                bytes_to_read - m_bytes_read_into_half,
+                bytes_read
+        );
+        if (ErrorCode::EndOfFile == err || (ErrorCode::Success == err && 0 == bytes_read)) {
             m_finished_reading_input = true;
+            break;
+        }
+        if (ErrorCode::Success != err) {
+            return err;
         }
-        return err;
+        m_bytes_read_into_half += bytes_read;
     }
-    m_last_read_first_half = !m_last_read_first_half;
-    // TODO: This is not a portable check for certain forms of IO
-    // A method from Reader should be used to check if the input source is
-    // finished
-    if (bytes_read < m_storage.size() / 2) {
-        m_finished_reading_input = true;
+    if (0 == m_bytes_read_into_half) {
+        return ErrorCode::EndOfFile;
     }
-    m_pos_last_read_char += bytes_read;
+    m_last_read_first_half = !m_last_read_first_half;
+    m_pos_last_read_char += m_bytes_read_into_half;
+    m_bytes_read_into_half = 0;
     if (m_pos_last_read_char > m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
     }
diff --git a/src/log_surgeon/ParserInputBuffer.hpp b/src/log_surgeon/ParserInputBuffer.hpp
index 3d5f735..6a55147 100644
--- a/src/log_surgeon/ParserInputBuffer.hpp
+++ b/src/log_surgeon/ParserInputBuffer.hpp
@@ -127,6 +127,9 @@ private:
     // the position of the last character read into the buffer
     uint32_t m_pos_last_read_char{0};
     bool m_last_read_first_half{false};
+    // the number of bytes already in the half being read into (it takes several reads if they are
+    // short)
+    uint32_t m_bytes_read_into_half{0};
     // the log has been completely read into the buffer
     bool m_finished_reading_input{false};
     // the buffer has finished iterating over the entire log
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..6e611a7 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    size_t unparsed_string_pos{0};
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
@@ -94,7 +94,7 @@ auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_
         if (read_to == 0) {
             return ErrorCode::EndOfFile;
         }
-        for (uint32_t i = 0; i < count; i++) {
+        for (size_t i = 0; i < count; i++) {
             buf[i] = schema_string[unparsed_string_pos + i];
         }
         unparsed_string_pos += count;
-- 
2.43.0


From 2563db9e37576e914dd8f52c651c9dd2bfbafdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 03/38] fix: keep track of unconsumed data when the input
 buffer wraps or grows

The position of the last consumed character was inclusive or exclusive depending on how the log
event ended, a position at the boundary of the two halves was mapped to the wrong end of the data
when growing, and a buffer which could not be read into after growing grew forever (e.g. if a log
event without a timestamp ended exactly at the end of the buffer).
---
 src/log_surgeon/Lexer.tpp             | 36 ++++++++++++---------------
 src/log_surgeon/LogParser.cpp         |  5 +++-
 src/log_surgeon/ParserInputBuffer.cpp | 17 +++++++------
 3 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..430dd8e 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -19,22 +19,15 @@
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
 void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
-        m_match_pos -= old_storage_size / 2;
-    } else {
-        m_match_pos += old_storage_size / 2;
-    }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
-    if (m_start_pos > old_storage_size / 2) {
-        m_start_pos -= old_storage_size / 2;
-    } else {
-        m_start_pos += old_storage_size / 2;
-    }
-    if (m_last_match_pos >= old_storage_size / 2) {
-        m_last_match_pos -= old_storage_size / 2;
-    } else {
-        m_last_match_pos += old_storage_size / 2;
+    // The unconsumed data never fills the entire buffer (see ParserInputBuffer::read_is_safe), so a
+    // position at the start of the second half can only be the end of the first half.
+    uint32_t const half_storage_size{old_storage_size / 2};
+    for (auto* pos : {&m_match_pos, &m_start_pos, &m_last_match_pos}) {
+        if (*pos > half_storage_size) {
+            *pos -= half_storage_size;
+        } else {
+            *pos += half_storage_size;
+        }
     }
 }
 
@@ -308,10 +301,13 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
     if (old_storage_size < input_buffer.storage().size()) {
         if (flipped_static_buffer) {
             flip_states(old_storage_size);
-        }
-        if (0 == m_last_match_pos) {
-            m_last_match_pos = old_storage_size;
-            m_start_pos = old_storage_size;
+        } else {
+            // Similarly, a position at the start of the buffer can only be the end of the data.
+            for (auto* pos : {&m_match_pos, &m_start_pos, &m_last_match_pos}) {
+                if (0 == *pos) {
+                    *pos = old_storage_size;
+                }
+            }
         }
     }
 }
diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..d4b72c9 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -245,7 +245,10 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-            m_input_buffer.set_consumed_pos(output_buffer->get_curr_token().m_end_pos);
+            uint32_t const end_pos{output_buffer->get_curr_token().m_end_pos};
+            m_input_buffer.set_consumed_pos(
+                    (0 == end_pos ? m_input_buffer.storage().size() : end_pos) - 1
+            );
             output_buffer->advance_to_next_token();
             parsing_action = ParsingAction::Compress;
             return ErrorCode::Success;
diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index d9045fe..6cb3853 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -23,14 +23,12 @@ auto ParserInputBuffer::read_is_safe() -> bool {
     if (m_finished_reading_input) {
         return false;
     }
-    // Check if the last log message ends in the buffer half last read.
+    // Check if the last consumed character is in the buffer half last read.
     // This means the other half of the buffer has already been fully used.
-    if ((!m_last_read_first_half && m_consumed_pos > m_storage.size() / 2)
-        || (m_last_read_first_half && m_consumed_pos < m_storage.size() / 2 && m_consumed_pos > 0))
-    {
-        return true;
-    }
-    return false;
+    // NOTE: a half must not be read into before a character of the half last read is consumed, even
+    // if the other half is fully used. Otherwise, the unconsumed data could fill the entire buffer
+    // and the positions of its start and its end could not be told apart.
+    return m_last_read_first_half == (m_consumed_pos < m_storage.size() / 2);
 }
 
 auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
@@ -65,7 +63,7 @@ auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
     m_last_read_first_half = !m_last_read_first_half;
     m_pos_last_read_char += m_bytes_read_into_half;
     m_bytes_read_into_half = 0;
-    if (m_pos_last_read_char > m_storage.size()) {
+    if (m_pos_last_read_char >= m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
     }
     return ErrorCode::Success;
@@ -91,6 +89,9 @@ auto ParserInputBuffer::increase_capacity(uint32_t& old_storage_size, bool& flip
     m_last_read_first_half = true;
     m_pos_last_read_char = new_storage_size - old_storage_size;
     m_storage.set_pos(old_storage_size);
+    // The second half is new, so it's always safe to read into it. The first character is never
+    // needed (see read_is_safe).
+    m_consumed_pos = 0;
 }
 
 auto ParserInputBuffer::get_next_character(unsigned char& next_char) -> ErrorCode {
-- 
2.43.0


From 69e3e8634d5e09c483238629bc608305101f6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 04/38] fix: keep skipping static text when more input is
 needed

If the end of the input buffer was reached while skipping static text, the lexer continued from the
state it was in before it started skipping, and could match a variable that does not start with a
delimiter.
---
 src/log_surgeon/Lexer.tpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 430dd8e..40b118c 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -65,6 +65,17 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_prev_state = state;
             return err;
         }
+        if (nullptr == state) {
+            // Continue skipping static text.
+            if (input_buffer.log_fully_consumed()
+                || (m_is_first_char[next_char] && m_is_delimiter[next_char]))
+            {
+                input_buffer.set_pos(prev_byte_buf_pos);
+                m_start_pos = prev_byte_buf_pos;
+                state = m_dfa->get_root();
+            }
+            continue;
+        }
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
             && state->is_accepting())
         {
@@ -145,7 +156,8 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                     ErrorCode::Success != err)
                 {
                     m_asked_for_more_data = true;
-                    m_prev_state = state;
+                    // No state: the static text is still being skipped.
+                    m_prev_state = nullptr;
                     return err;
                 }
             }
-- 
2.43.0


From 151cacfff9df9f011cf226d541abc662721f0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 05/38] fix: parse from the given offset after
 BufferParser::reset

The positions tracked by the lexer were set when it is reset, before the buffer to be parsed is
known, so the first token parsed from a non-zero offset began at the start of the buffer.
---
 src/log_surgeon/Lexer.hpp | 1 +
 src/log_surgeon/Lexer.tpp | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index ddb12cf..a69b8cf 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -158,6 +158,7 @@ private:
     bool m_has_delimiters{false};
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
+    bool m_prepended_start_of_file{false};
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 40b118c..aea087d 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -38,6 +38,13 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
     if (m_asked_for_more_data) {
         state = m_prev_state;
         m_asked_for_more_data = false;
+        if (m_prepended_start_of_file) {
+            // The input buffer may have been set up after the start of file was prepended.
+            m_prepended_start_of_file = false;
+            m_start_pos = input_buffer.storage().pos();
+            m_match_pos = input_buffer.storage().pos();
+            m_last_match_pos = input_buffer.storage().pos();
+        }
     } else {
         if (m_match) {
             m_match = false;
@@ -335,6 +342,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_last_match_line = 0;
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
+    m_prepended_start_of_file = false;
     m_prev_state = nullptr;
 }
 
@@ -343,6 +351,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
+    m_prepended_start_of_file = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
-- 
2.43.0


From 570d12d6dc237384c08d1d2a3a70eb899b8480d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 06/38] fix: treat the start of the input as a delimiter
 without a prior reset

A newly constructed BufferParser did not recognise a timestamp or variable at the start of the input
unless reset was called first.
---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index d4b72c9..8a0572c 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -34,6 +34,7 @@ LogParser::LogParser(std::unique_ptr<SchemaAST> schema_ast) {
     add_rules(std::move(schema_ast));
     m_lexer.generate();
     m_log_event_view = make_unique<LogEventView>(*this);
+    reset();
 }
 
 auto LogParser::add_delimiters(unique_ptr<ParserAST> const& delimiters) -> void {
-- 
2.43.0


From 399e17fea81c3f1d06f3a8ad1900cfef5a8e3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 07/38] fix: find variables after the start of a timestamp that
 is not one

If the input started like a timestamp without being one, the search for variables only continued
after the characters which looked like a timestamp, though they may contain delimiters.
---
 src/log_surgeon/Lexer.hpp |  1 +
 src/log_surgeon/Lexer.tpp | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index a69b8cf..5b5b67b 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -159,6 +159,7 @@ private:
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
     bool m_prepended_start_of_file{false};
+    bool m_is_first_token{false};
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index aea087d..b921db0 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -41,6 +41,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         if (m_prepended_start_of_file) {
             // The input buffer may have been set up after the start of file was prepended.
             m_prepended_start_of_file = false;
+            m_is_first_token = nullptr != state;
             m_start_pos = input_buffer.storage().pos();
             m_match_pos = input_buffer.storage().pos();
             m_last_match_pos = input_buffer.storage().pos();
@@ -92,6 +93,17 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             m_match_line = m_line;
         }
         DFAStateType* next = state->next(next_char);
+        if (m_is_first_token && !m_match
+            && (input_buffer.log_fully_consumed() || next == nullptr || next_char == '\n'))
+        {
+            // The characters read so far may contain delimiters (if they are the start of a
+            // timestamp), so they have to be searched for variables.
+            m_is_first_token = false;
+            input_buffer.set_log_fully_consumed(false);
+            input_buffer.set_pos(m_start_pos);
+            state = m_dfa->get_root();
+            continue;
+        }
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -105,6 +117,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         }
         if (input_buffer.log_fully_consumed() || next == nullptr) {
             if (m_match) {
+                m_is_first_token = false;
                 input_buffer.set_log_fully_consumed(false);
                 input_buffer.set_pos(m_match_pos);
                 m_line = m_match_line;
@@ -343,6 +356,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
     m_prepended_start_of_file = false;
+    m_is_first_token = false;
     m_prev_state = nullptr;
 }
 
-- 
2.43.0


From fc1033c1c165ce168234655bf56b9f6cd40f900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 08/38] fix: end a log event at a newline which is its first
 token

Without a timestamp every newline ends a log event, but a newline right after the previous log event
(or at the start of the input) was taken to be a part of the next one, unless it was followed by a
timestamp.
---
 src/log_surgeon/LogParser.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 8a0572c..df84cf7 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -181,28 +181,33 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             if (ErrorCode err = get_next_symbol(next_token); ErrorCode::Success != err) {
                 return err;
             }
-            if (false == output_buffer->has_timestamp()
-                && next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewlineTimestamp)
+            auto const token_type = next_token.m_type_ids_ptr->at(0);
+            if (token_type != (uint32_t)SymbolId::TokenEnd
+                && token_type != (uint32_t)SymbolId::TokenFirstTimestamp
+                && next_token.get_char(0) == '\n')
             {
                 // TODO: combine the below with found_start_of_next_message
                 // into 1 function
-                // Increment by 1 because the '\n' character is not part of the
-                // next log message
-                m_start_of_log_message = next_token;
-                if (m_start_of_log_message.m_start_pos == m_start_of_log_message.m_buffer_size - 1)
-                {
-                    m_start_of_log_message.m_start_pos = 0;
-                } else {
-                    m_start_of_log_message.m_start_pos++;
+                if (token_type != (uint32_t)SymbolId::TokenNewline) {
+                    // Increment by 1 because the '\n' character is not part of the
+                    // next log message
+                    m_start_of_log_message = next_token;
+                    if (m_start_of_log_message.m_start_pos
+                        == m_start_of_log_message.m_buffer_size - 1)
+                    {
+                        m_start_of_log_message.m_start_pos = 0;
+                    } else {
+                        m_start_of_log_message.m_start_pos++;
+                    }
+                    m_has_start_of_log = true;
+                    next_token.m_end_pos = next_token.m_start_pos + 1;
+                    next_token.m_type_ids_ptr = &Lexer<RegexNFAByteState, RegexDFAByteState>::
+                                                        cTokenUncaughtStringTypes;
                 }
                 // make a message with just the '\n' character
-                next_token.m_end_pos = next_token.m_start_pos + 1;
-                next_token.m_type_ids_ptr
-                        = &Lexer<RegexNFAByteState, RegexDFAByteState>::cTokenUncaughtStringTypes;
                 output_buffer->set_token(1, next_token);
                 output_buffer->set_pos(2);
                 m_input_buffer.set_consumed_pos(next_token.m_start_pos);
-                m_has_start_of_log = true;
                 parsing_action = ParsingAction::Compress;
                 return ErrorCode::Success;
             }
-- 
2.43.0


From 0f6962b705aaaa7ad301f53d512cc4217982951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 09/38] fix: accept variable patterns with negated groups

The internal start of file delimiter is part of every negated group, so every
such pattern was rejected as containing a delimiter.
---
 src/log_surgeon/LogParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index df84cf7..adec929 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -99,7 +99,8 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
-            if (is_possible_input[delimiter]) {
+            // The start of file character is not one of the user's delimiters
+            if (utf8::cCharStartOfFile != delimiter && is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
                 break;
-- 
2.43.0


From c0be8181bba4d36bdbcb6be69219cc634cd8b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 10/38] fix: let an empty regex node match the empty string

RegexASTEmpty added nothing to the NFA, so R* and R{0,N} needed at least one
repetition.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..18be1aa 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -177,11 +177,8 @@ public:
         // Do nothing as an empty node contains no delimiters.
     }
 
-    auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
-    ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
+    auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override {
+        nfa->get_root()->add_epsilon_transition(end_state);
     }
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
-- 
2.43.0


From 40d98a179f3f473b8865f78b8bebae85de297847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 11/38] fix: do not let a repetition loop on a state shared
 with other alternatives

A repetition looped on the end state it was given, even if that state was shared
by the alternatives of an OR or was the start of an outer repetition, so that
e.g. (a+)|b also matched 'ba', and (ab+)* matched 'b'.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 77 ++++++++++++++------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 18be1aa..8cfeb7b 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -121,7 +121,37 @@ public:
         }
     }
 
+    /**
+     * Adds the node to the NFA (see `add_to_nfa_with_negative_tags`) such that it adds no outgoing
+     * transitions to `end_state`. This is necessary if `end_state` can also be reached without
+     * matching the node.
+     * @param nfa
+     * @param end_state
+     */
+    auto add_to_nfa_with_shared_end_state(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
+            const -> void {
+        if (extends_end_state()) {
+            auto* exclusive_end_state = nfa->new_state();
+            add_to_nfa_with_negative_tags(nfa, exclusive_end_state);
+            exclusive_end_state->add_epsilon_transition(end_state);
+        } else {
+            add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    }
+
+    /**
+     * @return Whether `add_to_nfa_with_negative_tags` adds outgoing transitions to the end state.
+     */
+    [[nodiscard]] auto extends_end_state() const -> bool {
+        return m_negative_tags.empty() && is_end_state_extended_by_add_to_nfa();
+    }
+
 protected:
+    /**
+     * @return Whether `add_to_nfa` adds outgoing transitions to the end state.
+     */
+    [[nodiscard]] virtual auto is_end_state_extended_by_add_to_nfa() const -> bool { return false; }
+
     RegexAST(RegexAST const& rhs) = default;
     auto operator=(RegexAST const& rhs) -> RegexAST& = default;
     RegexAST(RegexAST&& rhs) noexcept = delete;
@@ -542,6 +572,11 @@ public:
 
     [[nodiscard]] auto get_right() const -> RegexAST<NFAStateType> const* { return m_right.get(); }
 
+protected:
+    [[nodiscard]] auto is_end_state_extended_by_add_to_nfa() const -> bool override {
+        return m_right->extends_end_state();
+    }
+
 private:
     std::unique_ptr<RegexAST<NFAStateType>> m_left;
     std::unique_ptr<RegexAST<NFAStateType>> m_right;
@@ -612,6 +647,11 @@ public:
 
     [[nodiscard]] auto get_max() const -> uint32_t { return m_max; }
 
+protected:
+    [[nodiscard]] auto is_end_state_extended_by_add_to_nfa() const -> bool override {
+        return is_infinite();
+    }
+
 private:
     std::unique_ptr<RegexAST<NFAStateType>> m_operand;
     uint32_t m_min;
@@ -780,8 +820,8 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    m_left->add_to_nfa_with_shared_end_state(nfa, end_state);
+    m_right->add_to_nfa_with_shared_end_state(nfa, end_state);
 }
 
 template <typename NFAStateType>
@@ -846,30 +886,23 @@ void RegexASTMultiplication<NFAStateType>::add_to_nfa(
     NFAStateType* saved_root = nfa->get_root();
     if (this->m_min == 0) {
         nfa->get_root()->add_epsilon_transition(end_state);
-    } else {
-        for (uint32_t i = 1; i < this->m_min; i++) {
-            NFAStateType* intermediate_state = nfa->new_state();
-            m_operand->add_to_nfa_with_negative_tags(nfa, intermediate_state);
-            nfa->set_root(intermediate_state);
+    }
+    // Add all but the last repetition, each of which ends the regex if no more are required
+    uint32_t const num_reps = this->is_infinite() ? this->m_min : std::max(this->m_min, this->m_max);
+    for (uint32_t i = 1; i < num_reps; i++) {
+        NFAStateType* intermediate_state = nfa->new_state();
+        m_operand->add_to_nfa_with_negative_tags(nfa, intermediate_state);
+        nfa->set_root(intermediate_state);
+        if (i >= this->m_min) {
+            intermediate_state->add_epsilon_transition(end_state);
         }
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+    }
+    if (0 < num_reps) {
+        m_operand->add_to_nfa_with_shared_end_state(nfa, end_state);
     }
     if (this->is_infinite()) {
         nfa->set_root(end_state);
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
-    } else if (this->m_max > this->m_min) {
-        if (this->m_min != 0) {
-            NFAStateType* intermediate_state = nfa->new_state();
-            m_operand->add_to_nfa_with_negative_tags(nfa, intermediate_state);
-            nfa->set_root(intermediate_state);
-        }
-        for (uint32_t i = this->m_min + 1; i < this->m_max; ++i) {
-            m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
-            NFAStateType* intermediate_state = nfa->new_state();
-            m_operand->add_to_nfa_with_negative_tags(nfa, intermediate_state);
-            nfa->set_root(intermediate_state);
-        }
-        m_operand->add_to_nfa_with_negative_tags(nfa, end_state);
+        m_operand->add_to_nfa_with_shared_end_state(nfa, end_state);
     }
     nfa->set_root(saved_root);
 }
-- 
2.43.0


From a78ef1cc527878bb1f84617ea534462fe91aa9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 12/38] fix: let zero repetitions match the empty string

R{0} and R{0,0} were treated as an infinite number of repetitions.
---
 src/log_surgeon/SchemaParser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 6e611a7..544b59d 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -224,6 +224,10 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r3_size; i++) {
         reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
     }
+    if (0 == reps) {
+        // A maximum of 0 would be an infinite number of repetitions
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
@@ -245,6 +249,10 @@ static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     for (uint32_t i = 0; i < r5_size; i++) {
         max += r5_ptr->get_digit(i) * (uint32_t)pow(10, r5_size - i - 1);
     }
+    if (0 == min && 0 == max) {
+        // A maximum of 0 would be an infinite number of repetitions
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
     if (0 == min) {
-- 
2.43.0


From 9b53f96711410e3246521e17f4b290036b2f8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 13/38] fix: report the types of a token once and in schema
 order

The types were ordered by the addresses of NFA states, and a type was repeated
for each of its rules that matched.
---
 src/log_surgeon/finite_automata/RegexDFA.hpp      |  1 +
 src/log_surgeon/finite_automata/RegexDFA.tpp      | 13 ++++++++++++-
 src/log_surgeon/finite_automata/RegexNFA.hpp      |  1 +
 src/log_surgeon/finite_automata/RegexNFAState.hpp |  8 ++++++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexDFA.hpp b/src/log_surgeon/finite_automata/RegexDFA.hpp
index b549d7c..a3ca075 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <map>
 #include <memory>
 #include <set>
 #include <utility>
diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..84e119d 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -44,9 +44,20 @@ auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
+    // Accepting states are created in the order of the rules
+    std::map<size_t, uint32_t> matching_variable_ids;
     for (auto const* nfa_state : nfa_state_set) {
         if (nfa_state->is_accepting()) {
-            dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
+            matching_variable_ids.emplace(
+                    nfa_state->get_creation_idx(),
+                    nfa_state->get_matching_variable_id()
+            );
+        }
+    }
+    for (auto const& [creation_idx, variable_id] : matching_variable_ids) {
+        auto const& ids = dfa_state->get_matching_variable_ids();
+        if (std::find(ids.begin(), ids.end(), variable_id) == ids.end()) {
+            dfa_state->add_matching_variable_id(variable_id);
         }
     }
     return dfa_state;
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..64a0590 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -110,6 +110,7 @@ RegexNFA<NFAStateType>::RegexNFA(std::vector<LexicalRule<NFAStateType>> rules)
 template <typename NFAStateType>
 auto RegexNFA<NFAStateType>::new_state() -> NFAStateType* {
     m_states.emplace_back(std::make_unique<NFAStateType>());
+    m_states.back()->set_creation_idx(m_states.size() - 1);
     return m_states.back().get();
 }
 
diff --git a/src/log_surgeon/finite_automata/RegexNFAState.hpp b/src/log_surgeon/finite_automata/RegexNFAState.hpp
index 8fce8cf..5978fa6 100644
--- a/src/log_surgeon/finite_automata/RegexNFAState.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFAState.hpp
@@ -49,6 +49,13 @@ public:
         return m_matching_variable_id;
     }
 
+    auto set_creation_idx(size_t const creation_idx) -> void { m_creation_idx = creation_idx; }
+
+    /**
+     * @return The position of the state in the order in which the states of the NFA were created.
+     */
+    [[nodiscard]] auto get_creation_idx() const -> size_t { return m_creation_idx; }
+
     auto
     add_positive_tagged_start_transition(Tag const* tag, RegexNFAState const* dest_state) -> void {
         m_positive_tagged_start_transitions.emplace_back(tag, dest_state);
@@ -110,6 +117,7 @@ public:
 private:
     bool m_accepting{false};
     uint32_t m_matching_variable_id{0};
+    size_t m_creation_idx{0};
     std::vector<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_start_transitions;
     std::optional<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_end_transition;
     std::optional<NegativeTaggedTransition<RegexNFAState>> m_negative_tagged_transition;
-- 
2.43.0


From 5208bfb12fc9a45db607149548123cfa148301f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 14/38] fix: keep the first token in a deep copy of an event
 without a timestamp

The first slot of the output buffer is unused without a timestamp, but the copy
used it for the first token, which was then skipped by every query.
---
 src/log_surgeon/LogEvent.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..e1237d7 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -84,6 +84,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
     }
     m_buffer.resize(buffer_size);
     uint32_t curr_pos = 0;
+    m_log_output_buffer->set_pos(start);
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
         uint32_t start_pos = curr_pos;
@@ -102,7 +103,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From f04239ac9ff96a7a0a47bd32e88a64352ea14644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 15/38] fix: forget the start of the next event when a parser
 is reset

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index adec929..19d675f 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -160,6 +160,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 auto LogParser::reset() -> void {
     m_input_buffer.reset();
     m_lexer.reset();
+    m_has_start_of_log = false;
     m_lexer.prepend_start_of_file_char(m_input_buffer);
 }
 
-- 
2.43.0


From 90b52ac2bb53e62ede0549056a3b1b95f863ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 16/38] fix: report the start of the next event as the offset
 of BufferParser

If the end of an event was found by lexing the first token of the next event, the
offset was past that token, and if the end of the buffer was reached before the
end of an event without a timestamp, the offset was that of an unused token.
---
 src/log_surgeon/BufferParser.cpp | 13 ++++++-------
 src/log_surgeon/LogParser.hpp    |  9 +++++++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..c60d06b 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -28,22 +28,21 @@ auto BufferParser::parse_next_event(
     // TODO in order to allow logs/tokens to wrap user buffers this function
     // will need more parameters or the input buffer may need to be exposed to
     // the user
-    m_log_parser.set_input_buffer(buf, size, offset, finished_reading_input);
+    // If the first token of the log event has already been lexed, continue after it
+    size_t const input_pos{
+            m_log_parser.get_next_event_pos() == offset ? m_log_parser.get_input_pos() : offset
+    };
+    m_log_parser.set_input_buffer(buf, size, input_pos, finished_reading_input);
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
-            offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
-                             .m_start_pos;
-        }
         reset();
         return error_code;
     }
     if (LogParser::ParsingAction::CompressAndFinish == parsing_action) {
         m_done = true;
     }
-    offset = m_log_parser.get_input_pos();
+    offset = m_log_parser.get_next_event_pos();
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9133914..8f1497a 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -93,6 +93,15 @@ public:
      */
     auto get_input_pos() -> uint32_t { return m_input_buffer.storage().pos(); }
 
+    /**
+     * @return the position inside the input buffer of the start of the next log event to be parsed.
+     * This may precede the input position as the end of a log event may only be found by lexing the
+     * first token of the next log event.
+     */
+    auto get_next_event_pos() -> uint32_t {
+        return m_has_start_of_log ? m_start_of_log_message.m_start_pos : get_input_pos();
+    }
+
     /**
      * Reads into the input buffer if only consumed data will be overwritten.
      * @param reader to use for IO.
-- 
2.43.0


From 37c6a6c03d6c1eaf2379e04063f234a498d27c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 17/38] fix: grow the storage of the children of nonterminals

A long comment or regex, or many schemas parsed in a row, needed more children
than the fixed size storage has.
---
 src/log_surgeon/LALR1Parser.cpp | 5 ++++-
 src/log_surgeon/LALR1Parser.hpp | 7 ++++---
 src/log_surgeon/LALR1Parser.tpp | 5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..7f7584e 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,7 +1,7 @@
 #include "LALR1Parser.hpp"
 
 namespace log_surgeon {
-MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
+std::vector<MatchedSymbol> NonTerminal::m_all_children(cSizeOfAllChildren);
 
 ParserAST::~ParserAST() = default;
 
@@ -12,5 +12,8 @@ NonTerminal::NonTerminal(Production* p)
           m_production(p),
           m_ast(nullptr) {
     NonTerminal::m_next_children_start += p->m_body.size();
+    if (NonTerminal::m_next_children_start > NonTerminal::m_all_children.size()) {
+        NonTerminal::m_all_children.resize(2 * NonTerminal::m_next_children_start);
+    }
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index c31e78e..ed9b776 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -76,7 +76,7 @@ public:
      * @return Token*
      */
     [[nodiscard]] auto token_cast(uint32_t i) const -> Token* {
-        assert(i < cSizeOfAllChildren);
+        assert(m_children_start + i < NonTerminal::m_all_children.size());
         return &std::get<Token>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -88,7 +88,7 @@ public:
      * @return NonTerminal*
      */
     [[nodiscard]] auto non_terminal_cast(uint32_t i) const -> NonTerminal* {
-        assert(i < cSizeOfAllChildren);
+        assert(m_children_start + i < NonTerminal::m_all_children.size());
         return &std::get<NonTerminal>(NonTerminal::m_all_children[m_children_start + i]);
     }
 
@@ -99,7 +99,8 @@ public:
      */
     auto get_parser_ast() -> std::unique_ptr<ParserAST>& { return m_ast; }
 
-    static MatchedSymbol m_all_children[];
+    // Grows as needed by the nonterminals of a parse
+    static std::vector<MatchedSymbol> m_all_children;
     static uint32_t m_next_children_start;
     uint32_t m_children_start;
     Production* m_production;
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..3b7d58a 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -543,7 +543,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_input_after_last_newline(
                         },
                         [&parse_stack_matches](NonTerminal& m) {
                             for (size_t i = 0; i < m.m_production->m_body.size(); i++) {
-                                assert(m.m_children_start + i < cSizeOfAllChildren);
+                                assert(m.m_children_start + i < NonTerminal::m_all_children.size());
                                 parse_stack_matches.push(std::move(
                                         NonTerminal::m_all_children[m.m_children_start + i]
                                 ));
@@ -652,6 +652,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTermin
 
 template <typename NFAStateType, typename DFAStateType>
 void LALR1Parser<NFAStateType, DFAStateType>::reset() {
+    NonTerminal::m_next_children_start = 0;
     m_next_token = std::nullopt;
     while (!m_parse_stack_states.empty()) {
         m_parse_stack_states.pop();
@@ -726,7 +727,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse_symbol(
                         for (size_t i = 0; i < n; i++) {
                             m_parse_stack_states.pop();
                             assert((matched_non_terminal.m_children_start + n - i - 1)
-                                   < cSizeOfAllChildren);
+                                   < NonTerminal::m_all_children.size());
                             NonTerminal::m_all_children
                                     [matched_non_terminal.m_children_start + n - i - 1]
                                     = std::move(m_parse_stack_matches.top());
-- 
2.43.0


From 2df23e7581887873bc08eb79347cab5ebc5664f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 18/38] fix: do not take the start of a variable for a
 delimiter in the logtype

A variable at the start of an event has no delimiter.
---
 src/log_surgeon/LogEvent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index e1237d7..92daf94 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -55,7 +55,10 @@ auto LogEventView::get_logtype() const -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenUncaughtString) {
             logtype += token.to_string_view();
         } else {
-            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)) {
+            // A variable at the start of the input isn't preceded by a delimiter
+            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)
+                && m_log_parser.m_lexer.is_delimiter(static_cast<uint8_t>(token.get_char(0))))
+            {
                 logtype += token.get_delimiter();
             }
             logtype += "<";
-- 
2.43.0


From 96c6d69b2a4d0afc8454ccbae8228cfb667c4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 19/38] fix: find the lines of an event whose last token is a
 variable after a newline

A newline that is the delimiter of the last variable of an event was taken for
the newline at the end of the event.
---
 src/log_surgeon/LogParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 19d675f..bfe7344 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -306,20 +306,20 @@ auto LogParser::generate_log_event_view_metadata() -> void {
     if (false == m_log_event_view->m_log_output_buffer->has_timestamp()) {
         start = 1;
     }
-    uint32_t first_newline_pos{0};
+    auto const has_timestamp{m_log_event_view->m_log_output_buffer->has_timestamp()};
+    bool found_newline{false};
     for (uint32_t i = start; i < m_log_event_view->m_log_output_buffer->pos(); i++) {
         Token* token = &m_log_event_view->m_log_output_buffer->get_mutable_token(i);
         m_log_event_view->add_token(token->m_type_ids_ptr->at(0), token);
-        if (token->get_delimiter() == "\n" && first_newline_pos == 0) {
-            first_newline_pos = i;
+        if (found_newline) {
+            // There's at least one character after the newline
+            m_log_event_view->set_multiline(has_timestamp);
+        } else if (token->get_delimiter() == "\n") {
+            found_newline = true;
+            if (1 < token->get_length()) {
+                m_log_event_view->set_multiline(has_timestamp);
+            }
         }
     }
-    // To be a multiline log there must be at least one token between the
-    // newline token and the last token in the output buffer.
-    if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < first_newline_pos
-        && first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos())
-    {
-        m_log_event_view->set_multiline(true);
-    }
 }
 }  // namespace log_surgeon
-- 
2.43.0


From d92d35871f4ab07b16e4ab8af1232588e72355ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 20/38] fix: find newlines in static text if they are not
 delimiters

---
 src/log_surgeon/Lexer.hpp | 9 +++++++++
 src/log_surgeon/Lexer.tpp | 6 ++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index 5b5b67b..f80b87c 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -131,6 +131,15 @@ public:
     std::unordered_map<uint32_t, std::string> m_id_symbol;
 
 private:
+    /**
+     * @param byte
+     * @return Whether a token other than static text may start at byte. A newline is always a token,
+     * even if it isn't a delimiter.
+     */
+    [[nodiscard]] auto is_first_char_after_static_text(uint8_t byte) const -> bool {
+        return m_is_first_char[byte] && (m_is_delimiter[byte] || '\n' == byte);
+    }
+
     /**
      * Return epsilon_closure over m_epsilon_transitions
      * @return
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index b921db0..cc3052c 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -75,9 +75,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         }
         if (nullptr == state) {
             // Continue skipping static text.
-            if (input_buffer.log_fully_consumed()
-                || (m_is_first_char[next_char] && m_is_delimiter[next_char]))
-            {
+            if (input_buffer.log_fully_consumed() || is_first_char_after_static_text(next_char)) {
                 input_buffer.set_pos(prev_byte_buf_pos);
                 m_start_pos = prev_byte_buf_pos;
                 state = m_dfa->get_root();
@@ -169,7 +167,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
             // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
             // check not needed
             while (input_buffer.log_fully_consumed() == false
-                   && (m_is_first_char[next_char] == false || m_is_delimiter[next_char] == false))
+                   && false == is_first_char_after_static_text(next_char))
             {
                 prev_byte_buf_pos = input_buffer.storage().pos();
                 if (ErrorCode err = input_buffer.get_next_character(next_char);
-- 
2.43.0


From 71a79eec3f661ab420e7792f3c15e30e90d6cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 21/38] fix: let the tags of a cloned regex refer to its own
 captures

The tags of the nodes of a clone referred to the captures of the original, which
may be destroyed before the clone.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 43 +++++++++++++++-----
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 8cfeb7b..7f90542 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -464,7 +464,9 @@ public:
     RegexASTOr(RegexASTOr const& rhs)
             : RegexAST<NFAStateType>(rhs),
               m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {
+        update_tags();
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTOr
@@ -510,6 +512,16 @@ public:
     [[nodiscard]] auto get_right() const -> RegexAST<NFAStateType> const* { return m_right.get(); }
 
 private:
+    /**
+     * Updates the tags of this node and its children to those of the captures among its descendants.
+     */
+    auto update_tags() -> void {
+        m_left->set_negative_tags(m_right->get_subtree_positive_tags());
+        m_right->set_negative_tags(m_left->get_subtree_positive_tags());
+        RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
+        RegexAST<NFAStateType>::add_subtree_positive_tags(m_right->get_subtree_positive_tags());
+    }
+
     std::unique_ptr<RegexAST<NFAStateType>> m_left;
     std::unique_ptr<RegexAST<NFAStateType>> m_right;
 };
@@ -527,7 +539,9 @@ public:
     RegexASTCat(RegexASTCat const& rhs)
             : RegexAST<NFAStateType>(rhs),
               m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {
+        update_tags();
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTCat
@@ -578,6 +592,14 @@ protected:
     }
 
 private:
+    /**
+     * Updates the tags of this node to those of the captures among its descendants.
+     */
+    auto update_tags() -> void {
+        RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
+        RegexAST<NFAStateType>::add_subtree_positive_tags(m_right->get_subtree_positive_tags());
+    }
+
     std::unique_ptr<RegexAST<NFAStateType>> m_left;
     std::unique_ptr<RegexAST<NFAStateType>> m_right;
 };
@@ -597,7 +619,9 @@ public:
             : RegexAST<NFAStateType>(rhs),
               m_operand(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_operand->clone())),
               m_min(rhs.m_min),
-              m_max(rhs.m_max) {}
+              m_max(rhs.m_max) {
+        RegexAST<NFAStateType>::set_subtree_positive_tags(m_operand->get_subtree_positive_tags());
+    }
 
     /**
      * Used for cloning a unique_pointer of type RegexASTMultiplication
@@ -698,7 +722,10 @@ public:
                       std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone())
               },
               m_tag{std::make_unique<Tag>(*rhs.m_tag)} {
-        RegexAST<NFAStateType>::set_subtree_positive_tags(rhs.get_subtree_positive_tags());
+        RegexAST<NFAStateType>::set_subtree_positive_tags(
+                m_group_regex_ast->get_subtree_positive_tags()
+        );
+        RegexAST<NFAStateType>::add_subtree_positive_tags({m_tag.get()});
     }
 
     /**
@@ -811,10 +838,7 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 )
         : m_left(std::move(left)),
           m_right(std::move(right)) {
-    m_left->set_negative_tags(m_right->get_subtree_positive_tags());
-    m_right->set_negative_tags(m_left->get_subtree_positive_tags());
-    RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
-    RegexAST<NFAStateType>::add_subtree_positive_tags(m_right->get_subtree_positive_tags());
+    update_tags();
 }
 
 template <typename NFAStateType>
@@ -841,8 +865,7 @@ RegexASTCat<NFAStateType>::RegexASTCat(
 )
         : m_left(std::move(left)),
           m_right(std::move(right)) {
-    RegexAST<NFAStateType>::set_subtree_positive_tags(m_left->get_subtree_positive_tags());
-    RegexAST<NFAStateType>::add_subtree_positive_tags(m_right->get_subtree_positive_tags());
+    update_tags();
 }
 
 template <typename NFAStateType>
-- 
2.43.0


From feddda9021ca29e3b327f08ee06d8ef140b3e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 22/38] fix: read as much of a schema as its parser needs

A schema with e.g. a comment or run of spaces longer than the input buffer could
not be lexed, and neither could the rest of a line with an error, if it was not
in the buffer yet.
---
 src/log_surgeon/LALR1Parser.hpp |  1 +
 src/log_surgeon/LALR1Parser.tpp | 20 +++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index ed9b776..2d88f89 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -281,6 +281,7 @@ protected:
     std::stack<MatchedSymbol> m_parse_stack_matches;
     std::stack<ItemSet*> m_parse_stack_states;
     ItemSet* m_root_item_set_ptr{nullptr};
+    Reader* m_reader{nullptr};
     std::optional<Token> m_next_token;
     std::vector<std::unique_ptr<Production>> m_productions;
     std::unordered_map<std::string, std::map<std::vector<std::string>, Production*>>
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 3b7d58a..182e969 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -631,6 +631,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTerminal {
     reset();
+    m_reader = &reader;
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
     while (true) {
@@ -668,12 +669,21 @@ template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::get_next_symbol() -> Token {
     if (m_next_token == std::nullopt) {
         Token token;
-        if (ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
-            ErrorCode::Success != error)
-        {
-            throw std::runtime_error("Error scanning in lexer.");
+        while (true) {
+            ErrorCode const error = this->m_lexer.scan(m_input_buffer, token);
+            if (ErrorCode::Success == error) {
+                return token;
+            }
+            if (ErrorCode::BufferOutOfBounds != error) {
+                throw std::runtime_error("Error scanning in lexer.");
+            }
+            this->m_lexer.increase_buffer_capacity(m_input_buffer);
+            if (ErrorCode const read_error = m_input_buffer.read_if_safe(*m_reader);
+                ErrorCode::Success != read_error && ErrorCode::EndOfFile != read_error)
+            {
+                throw std::runtime_error("Error reading schema.");
+            }
         }
-        return token;
     }
     Token s = m_next_token.value();
     m_next_token = std::nullopt;
-- 
2.43.0


From 796d914ff3224682121dd3e39338a26f2de2f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 23/38] fix: accept ranges of a single character and reject
 reversed ones

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 7f90542..dab8163 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1056,7 +1056,10 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
         );
     }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
+    if (right->get_character() < left->get_character()) {
+        throw std::runtime_error("RegexASTGroup4: A range in a bracket expression in the schema ends "
+                                 "before it starts.");
+    }
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From 9c4e003a4e53f574a176bc3789b833146b68bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 24/38] fix: accept whitespace in bracket expressions

---
 src/log_surgeon/SchemaParser.cpp             |  4 ++--
 src/log_surgeon/finite_automata/RegexAST.hpp | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 544b59d..4865e6e 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -580,12 +580,12 @@ void SchemaParser::add_productions() {
     add_production(
             "IncompleteGroup",
             {"IncompleteGroup", "WhiteSpace"},
-            regex_add_literal_existing_group_rule
+            regex_add_range_existing_group_rule
     );
     add_production("IncompleteGroup", {"Lbracket", "LiteralRange"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Digit"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Literal"}, regex_add_literal_new_group_rule);
-    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_literal_new_group_rule);
+    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Hat"}, regex_complement_incomplete_group_rule);
     add_production("LiteralRange", {"Literal", "Dash", "Literal"}, regex_range_rule);
     add_production("Literal", {"Backslash", "t"}, regex_tab_rule);
diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index dab8163..4711f21 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1022,8 +1022,7 @@ template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* left, RegexASTGroup const* right)
         : m_negate(left->m_negate),
           m_ranges(left->m_ranges) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
+    m_ranges.insert(m_ranges.end(), right->m_ranges.cbegin(), right->m_ranges.cend());
 }
 
 template <typename NFAStateType>
@@ -1038,10 +1037,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTLiteral<NFAStateType> const*
 }
 
 template <typename NFAStateType>
-RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right) : m_negate(false) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
-}
+RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right)
+        : m_negate(false),
+          m_ranges(right->m_ranges) {}
 
 template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(
-- 
2.43.0


From d4688f6b88dd79cd9fcb485b374e0714092b6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 25/38] fix: report the line of an unexpected newline

---
 src/log_surgeon/LALR1Parser.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 182e969..7ade460 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -585,6 +585,10 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     m_parse_stack_matches.pop();
     uint32_t line_num = get_line_num(top_symbol);
     Token token = std::get<Token>(top_symbol);
+    if ("\n" == token.to_string()) {
+        // The lexer has already counted the newline, but it belongs to the line it ends.
+        line_num--;
+    }
     std::string consumed_input = get_input_after_last_newline(m_parse_stack_matches);
     std::string error_type{};
     std::string error_indicator;
-- 
2.43.0


From 051be6b015f8aa5a10ea715cb0d0acc3bb66212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 26/38] fix: reject groups in a delimiters rule

---
 src/log_surgeon/SchemaParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 4865e6e..711d05c 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -409,18 +409,26 @@ static auto regex_white_space_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST
     );
 }
 
+static auto get_delimiter_character(RegexASTByte* regex) -> uint32_t {
+    auto const* literal = dynamic_cast<RegexASTLiteralByte*>(regex);
+    if (nullptr == literal) {
+        throw std::runtime_error("A delimiters rule may only contain characters.");
+    }
+    return literal->get_character();
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<DelimiterStringAST*>(r1.get());
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r2.get())->get_character();
+    uint32_t character = get_delimiter_character(r2.get());
     r1_ptr->add_delimiter(character);
     return std::move(r1);
 }
 
 static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r1.get())->get_character();
+    uint32_t character = get_delimiter_character(r1.get());
     return make_unique<DelimiterStringAST>(character);
 }
 
-- 
2.43.0


From 1be085523d773839a9883e9ca6f86e7fcd44a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:44 +0000
Subject: [PATCH 27/38] fix: keep the text of a schema's line until its end

The input buffer was overwritten in the middle of a line, so that errors
in schemas larger than half of the buffer were reported with a garbled
line and a wrong column.
---
 src/log_surgeon/LALR1Parser.tpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 7ade460..f84ef6d 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -748,12 +748,19 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse_symbol(
                             m_parse_stack_matches.pop();
                         }
                         if (reduce->m_semantic_rule != nullptr) {
-                            if (0 == m_next_token->m_start_pos) {
-                                m_input_buffer.set_consumed_pos(
-                                        m_input_buffer.storage().size() - 1
-                                );
-                            } else {
-                                m_input_buffer.set_consumed_pos(m_next_token->m_start_pos - 1);
+                            // The tokens of a line are needed until the start symbol matches all of
+                            // it, as an error is reported together with the text of its line.
+                            auto const next_string = m_next_token->to_string();
+                            if (m_productions[m_root_production_id]->m_body.at(0) == reduce->m_head
+                                && ("\n" == next_string || "\r" == next_string))
+                            {
+                                if (0 == m_next_token->m_start_pos) {
+                                    m_input_buffer.set_consumed_pos(
+                                            m_input_buffer.storage().size() - 1
+                                    );
+                                } else {
+                                    m_input_buffer.set_consumed_pos(m_next_token->m_start_pos - 1);
+                                }
                             }
                             matched_non_terminal.m_ast
                                     = reduce->m_semantic_rule(&matched_non_terminal);
-- 
2.43.0


From 72b4a50fcff427f25e80d9e20f65c3acad533ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 28/38] fix: allow looking for ranges in an empty interval tree

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index e5b2413..1a1875a 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -55,7 +55,9 @@ template <typename T>
 auto UnicodeIntervalTree<T>::find(Interval interval
 ) -> std::unique_ptr<std::vector<typename UnicodeIntervalTree<T>::Data>> {
     std::unique_ptr<std::vector<Data>> results(new std::vector<Data>);
-    m_root->find(interval, results.get());
+    if (m_root != nullptr) {
+        m_root->find(interval, results.get());
+    }
     return results;
 }
 
-- 
2.43.0


From ad60a262f85841aeff89134918a368af99af5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 29/38] fix: balance interval trees by height instead of by
 address

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 1a1875a..a6f078b 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -150,11 +150,11 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
         m_lower = m_interval.first;
         m_upper = m_interval.second;
     } else if (m_left == nullptr) {
-        m_height = 2;
+        m_height = m_right->m_height + 1;
         m_lower = m_interval.first;
         m_upper = std::max(m_interval.second, m_right->m_upper);
     } else if (m_right == nullptr) {
-        m_height = 2;
+        m_height = m_left->m_height + 1;
         m_lower = m_left->m_lower;
         m_upper = std::max(m_interval.second, m_left->m_upper);
     } else {
@@ -166,7 +166,8 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
 
 template <class T>
 auto UnicodeIntervalTree<T>::Node::balance_factor() -> int {
-    return (m_right != nullptr ? m_right.get() : 0) - (m_left != nullptr ? m_left.get() : 0);
+    return static_cast<int>(m_right != nullptr ? m_right->m_height : 0)
+           - static_cast<int>(m_left != nullptr ? m_left->m_height : 0);
 }
 
 template <class T>
-- 
2.43.0


From 30e75be8af682be4b33fd56f75f4ff034b4c6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 30/38] fix: remove ranges from the right part of an interval
 tree

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index a6f078b..652754d 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -109,7 +109,11 @@ auto UnicodeIntervalTree<T>::Node::pop(
         node->update();
         return Node::balance(std::move(node));
     }
-    assert(node->overlaps(interval));
+    if (!node->overlaps(interval)) {
+        node->m_right = Node::pop(std::move(node->m_right), interval, ret);
+        node->update();
+        return Node::balance(std::move(node));
+    }
     ret->reset(node.release());
     if (((*ret)->m_left == nullptr) && ((*ret)->m_right == nullptr)) {
         return nullptr;
-- 
2.43.0


From 21ac943085f4b073a93b91e367972065726be451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:13 +0000
Subject: [PATCH 31/38] fix: allow a leaf to replace a removed node of an
 interval tree

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 652754d..04b49f6 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -137,7 +137,6 @@ auto UnicodeIntervalTree<T>::Node::pop_min(std::unique_ptr<Node> node, std::uniq
         -> std::unique_ptr<typename UnicodeIntervalTree<T>::Node> {
     assert(node != nullptr);
     if (node->m_left == nullptr) {
-        assert(node->m_right != nullptr);
         std::unique_ptr<Node> right(std::move(node->m_right));
         ret->reset(node.release());
         return right;
-- 
2.43.0


From e4fccf4ac2ec4fda5c89136a33188358be497e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 32/38] fix: report an error in the middle of a line read by
 FileReader

---
 src/log_surgeon/FileReader.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/FileReader.cpp b/src/log_surgeon/FileReader.cpp
index edaa2b3..90279e1 100644
--- a/src/log_surgeon/FileReader.cpp
+++ b/src/log_surgeon/FileReader.cpp
@@ -65,13 +65,15 @@ auto FileReader::try_read_to_delimiter(char delim, bool keep_delimiter, bool app
         str.clear();
     }
     ssize_t num_bytes_read = getdelim(&m_get_delim_buf, &m_get_delim_buf_len, delim, m_file);
+    // getdelim returns what it read before an error as if it were the rest of the file
+    if (0 != ferror(m_file)) {
+        return ErrorCode::Errno;
+    }
     if (num_bytes_read < 1) {
-        if (0 != ferror(m_file)) {
-            return ErrorCode::Errno;
-        }
         if (0 != feof(m_file)) {
             return ErrorCode::EndOfFile;
         }
+        return ErrorCode::Errno;
     }
     if (false == keep_delimiter && delim == m_get_delim_buf[num_bytes_read - 1]) {
         --num_bytes_read;
-- 
2.43.0


From 36cd8eeeeb4dd8794f22eb12c66b5e77d66f891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 33/38] fix: report errors reading a schema file instead of
 using what was read before them

---
 src/log_surgeon/SchemaParser.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 711d05c..6f8df73 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -72,11 +72,13 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
     }
     SchemaParser sp;
     Reader reader{[&](char* buf, size_t count, size_t& read_to) -> ErrorCode {
-        schema_reader.read(buf, count, read_to);
-        if (read_to == 0) {
-            return ErrorCode::EndOfFile;
+        ErrorCode const read_error = schema_reader.read(buf, count, read_to);
+        if (ErrorCode::Errno == read_error) {
+            throw std::runtime_error(
+                    strfmt("Failed to read '%s', errno=%d", schema_file_path.c_str(), errno)
+            );
         }
-        return ErrorCode::Success;
+        return read_error;
     }};
     unique_ptr<SchemaAST> schema_ast = sp.generate_schema_ast(reader);
     schema_reader.close();
-- 
2.43.0


From 3f0ce04b1b1d30729a3c5ec4c2f56466a91c5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 34/38] fix: do not cut off the message about a mistake at the
 end of a schema

---
 src/log_surgeon/LALR1Parser.tpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index f84ef6d..3418d5c 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -620,7 +620,12 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
             }
         }
         error_type.pop_back();
-        error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenEnd) {
+            // There is no character to show, and a null character would cut the message short.
+            error_type += " before end of file";
+        } else {
+            error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        }
     }
     std::string error_string = "Schema:" + std::to_string(line_num + 1) + ":"
                                + std::to_string(consumed_input.size() + 1)
-- 
2.43.0


From 75e74e1b297ca5de3e2f386ebfebf14ccf7a4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:28 +0000
Subject: [PATCH 35/38] fix: keep the rules of a lexer after generating its
 automaton

---
 src/log_surgeon/Lexer.tpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index cc3052c..18633fe 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -404,7 +404,15 @@ auto Lexer<NFAStateType, DFAStateType>::get_rule(uint32_t const variable_id
 
 template <typename NFAStateType, typename DFAStateType>
 void Lexer<NFAStateType, DFAStateType>::generate() {
-    finite_automata::RegexNFA<NFAStateType> nfa{std::move(m_rules)};
+    // The NFA needs rules of its own, the lexer's are still accessed by `get_rule`.
+    std::vector<LexicalRule<NFAStateType>> rules;
+    for (auto const& rule : m_rules) {
+        rules.emplace_back(
+                rule.get_variable_id(),
+                std::unique_ptr<finite_automata::RegexAST<NFAStateType>>(rule.get_regex()->clone())
+        );
+    }
+    finite_automata::RegexNFA<NFAStateType> nfa{std::move(rules)};
     // TODO: DFA ignores tags. E.g., treats "capture:user=(?<user_id>\d+)" as "capture:user=\d+"
     m_dfa = nfa_to_dfa(nfa);
     DFAStateType const* state = m_dfa->get_root();
-- 
2.43.0


From af82344494acf3a05fa74609d39b614a2bd9a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:23 +0000
Subject: [PATCH 36/38] fix: refuse a grammar where accepting conflicts with a
 reduction

The action of accepting the input was stored over a reduction by the same
lookahead, and a reduction over it, without a conflict being reported: a grammar
whose start symbol derives itself was accepted.
---
 src/log_surgeon/LALR1Parser.tpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 3418d5c..4391eee 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -479,11 +479,24 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
             }
             if (item.has_dot_at_end()) {
                 if (item.m_production == m_productions[m_root_production_id].get()) {
-                    Action action = true;
-                    item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd] = action;
+                    Action& action = item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd];
+                    if (std::holds_alternative<Production*>(action)) {
+                        std::string conflict_msg{};
+                        conflict_msg += "Accepting the input causes accept-reduce conflict with "
+                                        "reduction ";
+                        conflict_msg
+                                += this->m_lexer.m_id_symbol[std::get<Production*>(action)->m_head];
+                        conflict_msg += "-> {";
+                        for (uint32_t symbol : std::get<Production*>(action)->m_body) {
+                            conflict_msg += this->m_lexer.m_id_symbol[symbol] + ",";
+                        }
+                        conflict_msg += "}\n";
+                        throw std::runtime_error(conflict_msg);
+                    }
+                    action = true;
                 } else {
                     Action& action = item_set_ptr->m_actions[item.m_lookahead];
-                    if (!std::holds_alternative<bool>(action)) {
+                    if (!std::holds_alternative<bool>(action) || std::get<bool>(action)) {
                         std::string conflict_msg{};
                         conflict_msg += "For symbol ";
                         conflict_msg += this->m_lexer.m_id_symbol[item.m_lookahead];
@@ -498,6 +511,8 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
                             conflict_msg += "shift-reduce conflict with shift to ";
                             conflict_msg += std::to_string(std::get<ItemSet*>(action)->m_index);
                             conflict_msg += "\n";
+                        } else if (std::holds_alternative<bool>(action)) {
+                            conflict_msg += "accept-reduce conflict\n";
                         } else {
                             conflict_msg += "reduce-reduce conflict with reduction ";
                             conflict_msg
-- 
2.43.0


From dba1c4cd62608d062ec87e02adca203379dd10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 37/38] fix: do not read the character after the end of the
 input

At the end of an event without a timestamp, the first character of the end token was looked at, which
is one past the caller's buffer.
---
 src/log_surgeon/LogParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index bfe7344..6f870c2 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -241,15 +241,16 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
         }
         output_buffer->set_curr_token(next_token);
         auto token_type = next_token.m_type_ids_ptr->at(0);
+        // The end has no characters, so it must be handled before the token's first one is looked at
+        if (token_type == (uint32_t)SymbolId::TokenEnd) {
+            parsing_action = ParsingAction::CompressAndFinish;
+            return ErrorCode::Success;
+        }
         bool found_start_of_next_message
                 = (output_buffer->has_timestamp()
                    && token_type == (uint32_t)SymbolId::TokenNewlineTimestamp)
                   || (!output_buffer->has_timestamp() && next_token.get_char(0) == '\n'
                       && token_type != (uint32_t)SymbolId::TokenNewline);
-        if (token_type == (uint32_t)SymbolId::TokenEnd) {
-            parsing_action = ParsingAction::CompressAndFinish;
-            return ErrorCode::Success;
-        }
         if (false == output_buffer->has_timestamp()
             && token_type == (uint32_t)SymbolId::TokenNewline)
         {
-- 
2.43.0


From 27bd5481b9c5d8019d9abf3a469d16c1e05468ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:11 +0000
Subject: [PATCH 38/38] fix: do not dereference missing transitions when
 scanning with the wildcard ?

---
 src/log_surgeon/Lexer.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 18633fe..ed0c74b 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -263,7 +263,7 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
                 if (wildcard == '?') {
                     for (uint32_t byte = 0; byte < cSizeOfByte; byte++) {
                         DFAStateType* next_state = state->next(byte);
-                        if (next_state->is_accepting() == false) {
+                        if (next_state == nullptr || next_state->is_accepting() == false) {
                             token
                                     = Token{m_last_match_pos,
                                             input_buffer.storage().pos(),
-- 
2.43.0

