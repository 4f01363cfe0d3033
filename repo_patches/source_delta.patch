From 9d0f77b5bc5485714a40b35fb364affada46e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 01/96] fix: srcml_archive_close leaves reader, translator and
 output destination behind

A closed archive could not be opened again: the translator, the reader and the
memory destination of the previous use stayed attached to it.
---
 src/libsrcml/srcml_archive.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1e01848..6b3713c 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1339,14 +1339,19 @@ void srcml_archive_close(struct srcml_archive* archive) {
         srcml_archive_write_create_translator_xml_buffer(archive);
     }
 
+    // the translator owns the output buffer
     if (archive->translator) {
         archive->translator->close();
+        delete archive->translator;
+        archive->translator = nullptr;
+        archive->output_buffer = nullptr;
     }
 
-    if (archive->rawwrites && archive->output_buffer) {
+    if (archive->output_buffer) {
         xmlOutputBufferClose(archive->output_buffer);
         archive->output_buffer = nullptr;
     }
+    archive->rawwrites = false;
 
     // Give the user the completed buffer if opened using srcml_archive_write_open_memory()
     if (archive->buffer && archive->size) {
@@ -1355,6 +1360,19 @@ void srcml_archive_close(struct srcml_archive* archive) {
         *archive->size = (size_t) archive->xbuffer->use;
         (*archive->buffer) = (char *) xmlBufferDetach(archive->xbuffer);
     }
+    archive->buffer = nullptr;
+    archive->size = nullptr;
+
+    if (archive->xbuffer) {
+        xmlBufferFree(archive->xbuffer);
+        archive->xbuffer = nullptr;
+    }
+
+    // stop reading
+    if (archive->reader) {
+        delete archive->reader;
+        archive->reader = nullptr;
+    }
 
     archive->type = SRCML_ARCHIVE_INVALID;
 }
-- 
2.43.0


From 153b622d919374f4304ebe5fbb668feb44e04016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 02/96] fix: srcml_archive_set_options erases internal options

Setting the user options also dropped the namespace declaration, archive form
and hash options, and the next parse crashed.
---
 src/libsrcml/srcml_archive.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 6b3713c..a87180e 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -284,14 +284,16 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
     if (archive == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    OPTION_TYPE modoption = options % (1<<7);
+
     // if the user specified cpp, then mark that it was declared
     if (options & SRCML_OPTION_CPP) {
-        archive->options |= SRCML_OPTION_CPP_DECLARED;
+        modoption |= SRCML_OPTION_CPP_DECLARED;
     }
 
-    int modoption = options % (1<<7);
-
-    archive->options = modoption;
+    // only the user options are replaced: the archive form, hash, etc. stay in force
+    const OPTION_TYPE useroptions = ((1<<7) - 1) | SRCML_OPTION_CPP_DECLARED;
+    archive->options = (archive->options & ~useroptions) | modoption;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From fda69e1934880bc4a7c55658c30c491cb100fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 03/96] fix: position option and prefix of the first parse in a
 thread used for all later ones

---
 src/parser/srcMLOutput.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bb97f32..50a715c 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -501,9 +501,9 @@ void srcMLOutput::addPosition(const antlr::RefToken& token) {
     if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))
             return;
 
-    thread_local const std::string& prefix = namespaces[POS].prefix;
-    thread_local const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
-    thread_local const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
+    const std::string& prefix = namespaces[POS].prefix;
+    const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
+    const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
 
     // highly optimized as this is output for every start tag
 
@@ -535,7 +535,7 @@ void srcMLOutput::processToken(const antlr::RefToken& token, const char* name, c
     if (name[0] == 0)
         return;
 
-    thread_local bool isposition = isoption(options, SRCML_OPTION_POSITION);
+    const bool isposition = isoption(options, SRCML_OPTION_POSITION);
 
     if (isstart(token) || isempty(token)) {
 
-- 
2.43.0


From 474d7d8afce7a14a58e8eccae2b63910041b77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 04/96] fix: tabs attribute written from a destroyed string

---
 src/parser/srcMLOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 50a715c..8d5901d 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -335,6 +335,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
             tabattribute += ":";
         tabattribute += "tabs";
     }
+    const std::string tabvalue = std::to_string(tabsize);
 
     // setup for storing options in output
     std::array<std::pair<int, const char*>, 4> sep = {{
@@ -369,7 +370,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_VERSION, version },
 
         // position tab setting
-        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? std::to_string(tabsize).c_str() : 0 },
+        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? tabvalue.c_str() : 0 },
 
         // timestamp attribute
         { UNIT_ATTRIBUTE_TIMESTAMP, timestamp },
-- 
2.43.0


From 53823e11249376db46bd72f16b5c7c100375385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 05/96] fix: source text after a DEL character is lost

The lexer had no rule for it outside of comments and strings.
---
 src/parser/TextLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 604d049..a4f52c4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -217,6 +217,7 @@ CONTROL_CHAR :
     (
         '\000'..'\010' |
         '\013'..'\014' |
-        '\016'..'\037'
+        '\016'..'\037' |
+        '\177'
     )
 ;
-- 
2.43.0


From b1102f7bd93e95127a11f2613180e9e7c7f2bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 06/96] fix: srcml_unit_unparse_memory reports size up to the
 first null byte

---
 src/libsrcml/srcml_unit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index d4b764d..4793fdf 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -780,10 +780,11 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
     if (status != SRCML_STATUS_OK)
         return status;
 
+    // record the size before the buffer is detached, as the source may contain null bytes
+    *src_size = (size_t) xmlBufferLength(buffer);
     (*src_buffer) = (char *) xmlBufferDetach(buffer);
     if (!(*src_buffer))
         return SRCML_STATUS_ERROR;
-    *src_size = strlen(*src_buffer);
 
     xmlBufferFree(buffer);
 
-- 
2.43.0


From 5b7b4ebe8d066e83f3f2a92fc26d6c7f178c695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 07/96] fix: source in pieces that split multibyte sequences or
 a BOM is decoded wrong

An incomplete multibyte sequence at the end of a read is kept and completed by the next read,
the first read includes all of a BOM, the UTF-8 BOM is skipped in the raw input, and the UTF-32LE
BOM is not taken for a UTF-16LE BOM. The encoding is detected before the translator asks for it
for all kinds of input. Read and decoding errors are exceptions, and not the end of the input.
The close callback may be null.
---
 src/parser/UTF8CharBuffer.cpp | 94 ++++++++++++++++++++++++-----------
 src/parser/UTF8CharBuffer.hpp |  2 +-
 2 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c45cf68..631e566 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -156,6 +156,9 @@ UTF8CharBuffer::UTF8CharBuffer(const char* ifilename, const char* encoding, bool
         delete static_cast<Context<int>*>(context);
         return close(fd);
     };
+
+    // first data determines the encoding
+    insize = readChars();
 }
 
 /**
@@ -212,6 +215,9 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
             return (size_t) result;
     };
     sio.close_callback = [](void*) -> int { return 0; };
+
+    // first data determines the encoding
+    insize = readChars();
 }
 
 /**
@@ -237,6 +243,9 @@ UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, bo
         delete static_cast<Context<int>*>(context);
         return 0;
     };
+
+    // first data determines the encoding
+    insize = readChars();
 }
 
 /**
@@ -258,6 +267,9 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
     sio.context = context;
     sio.read_callback = read_callback;
     sio.close_callback = close_callback;
+
+    // first data determines the encoding
+    insize = readChars();
 }
 
 /**
@@ -276,19 +288,34 @@ ssize_t UTF8CharBuffer::readChars() {
         // use the provided callback
         // the entire input buffer may not be available because of incomplete multi-byte sequences
         // from a previous read
-        ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
-        if (insize == -1) {
-            fprintf(stderr, "Error reading: %s", strerror(errno));
-            return 0;
+        // the first read has to include all of any BOM (Byte Order Mark)
+        size_t total = inbytesleft;
+        ssize_t readsize = 0;
+        do {
+            readsize = sio.read_callback ? sio.read_callback(sio.context, raw.data() + total, raw.size() - total) : 0;
+            if (readsize > 0)
+                total += readsize;
+        } while (firstRead && readsize > 0 && total < 4);
+        if (readsize < 0) {
+            fprintf(stderr, "Error reading: %s\n", strerror(errno));
+            throw UTF8FileError();
         }
 
         // EOF
-        if (insize == 0) {
+        if (total == inbytesleft) {
+
+            // input ends inside of a multibyte sequence
+            if (inbytesleft) {
+                inbytesleft = 0;
+                fprintf(stderr, "%s\n", strerror(EILSEQ));
+                throw UTF8FileError();
+            }
+
             return 0;
         }
 
         // new size is the number of bytes read in, plus any incomplete multibyte sequences from previous
-        raw.resize(insize + inbytesleft);
+        raw.resize(total);
     }
 
     // hash only the read data, not the inbytesleft (from previous call)
@@ -315,7 +342,7 @@ ssize_t UTF8CharBuffer::readChars() {
         // check for UTF-8 BOM
         if ((data.i & 0x00FFFFFF) == 0x00BFBBEF) {
 
-            // a trivial conversion, so BOM (Byte Order Mark) for UTF-8 has to be manually skipped
+            // BOM (Byte Order Mark) for UTF-8 has to be manually skipped
             pos += 3;
 
             // no encoding specified (by user) then UTF-8, otherwise check if it is compatible with UTF-8
@@ -326,23 +353,12 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
-        // auto-detect UTF-16 based on BOM
-        // both UTF-16LE and UTF-16BE are determined automatically from BOM
-        // and processed as UTF-16
-        if ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF) {
-
-            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
-            if (encoding.empty()) {
-                encoding = "UTF-16";
-            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
-                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
-            }
-        }
-
         // auto-detect UTF-32 based on BOM
         // both UTF-32LE and UTF-32BE are determined automatically from BOM
         // and processed as UTF-32
-        if (data.i == 0xFFFE0000 || data.i == 0xFEFF0000) {
+        // the UTF-32LE BOM starts with the UTF-16LE BOM, so has to be checked first
+        const bool isutf32 = data.i == 0xFFFE0000 || (data.i == 0x0000FEFF && raw.size() >= 4);
+        if (isutf32) {
 
             // no encoding specified (by user) then UTF-32, otherwise check if it is compatible with UTF-32
             if (encoding.empty()) {
@@ -352,6 +368,19 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
+        // auto-detect UTF-16 based on BOM
+        // both UTF-16LE and UTF-16BE are determined automatically from BOM
+        // and processed as UTF-16
+        if (!isutf32 && ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF)) {
+
+            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
+            if (encoding.empty()) {
+                encoding = "UTF-16";
+            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
+                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
+            }
+        }
+
         // if no encoding found or specified, assume ISO-8859-1
         if (encoding.empty())
             encoding = "ISO-8859-1";
@@ -377,11 +406,12 @@ ssize_t UTF8CharBuffer::readChars() {
     // for non-trivial conversions, convert from raw to cooked
     if (!trivial) {
 
-        // raw input characters
+        // raw input characters, after any BOM
         // after call to iconv(), linbuf will point to start of any
         // incomplete multibyte sequences that were not cooked
-        char* linbuf = raw.data();
-        inbytesleft = raw.size();
+        char* linbuf = raw.data() + pos;
+        inbytesleft = raw.size() - pos;
+        pos = 0;
 
         // cooked (encoded in UTF-8) input characters
         // full output buffer is available since all previous characters have been processed
@@ -390,10 +420,11 @@ ssize_t UTF8CharBuffer::readChars() {
         size_t outbytesleft = cooked.size();
 
         // convert from raw characters to cooked, encoded in UTF-8 characters
+        // EINVAL is an incomplete multibyte sequence at the end, which is completed by the next read
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
-        if (binsize == (size_t) -1) {
+        if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
-            return 0;
+            throw UTF8FileError();
         }
 
         // number of bytes cooked is the total size minus the bytes that were "left", i.e., not used, by iconv()
@@ -406,7 +437,12 @@ ssize_t UTF8CharBuffer::readChars() {
             std::move(linbuf, linbuf + inbytesleft, raw.begin());
     }
 
-    return trivial ? raw.size() : cooked.size();
+    // no complete character yet, so go on reading
+    insize = trivial ? raw.size() : cooked.size();
+    if (pos >= insize)
+        return readChars();
+
+    return insize;
 }
 
 /**
@@ -483,11 +519,11 @@ const std::string& UTF8CharBuffer::getEncoding() const {
  * place in buffer if requested.
  */
 UTF8CharBuffer::~UTF8CharBuffer() {
-    if(sio.context) {
+    if (sio.context && sio.close_callback) {
         sio.close_callback(sio.context);
     }
 
-    if (ic)
+    if (ic && ic != (iconv_t) -1)
         iconv_close(ic);
 
     if (hashneeded) {
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index 665efa4..e243a5e 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -180,7 +180,7 @@ private:
     int trivial = false;
 
     /** contacts and callbacks for read and close */
-    srcMLIO sio;
+    srcMLIO sio = { nullptr, nullptr, nullptr };
 
     /** first time reading data */
     bool firstRead = true;
-- 
2.43.0


From e39745ca668184003a1aeafef64beb55bb0496e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 08/96] fix: source that could not be completely read or
 decoded is reported as parsed

srcml_unit_parse_*() returned SRCML_STATUS_OK with the text up to the error.
---
 src/libsrcml/srcml_translator.cpp |  9 ++++++++-
 src/libsrcml/srcml_translator.hpp |  2 +-
 src/libsrcml/srcml_unit.cpp       | 11 ++++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2977be6..e9e6516 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -110,8 +110,10 @@ void srcml_translator::close() {
  * translate
  *
  * Translate a single unit and output.  No xml declaration is added.
+ *
+ * @returns if all of the input was translated.
  */
-void srcml_translator::translate(UTF8CharBuffer* parser_input) {
+bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
 
     first = false;
 
@@ -150,13 +152,18 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
 
     } catch (const std::exception& e) {
         fprintf(stderr, "SRCML Exception: %s\n", e.what());
+        return false;
     }
     catch (UTF8FileError) {
         fprintf(stderr, "UTF8 file error\n");
+        return false;
     }
     catch (...) {
         fprintf(stderr, "srcML translator error\n");
+        return false;
     }
+
+    return true;
 }
 
 void srcml_translator::prepareOutput() {
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index df01d55..25e3b2f 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -76,7 +76,7 @@ public:
 
     void close();
 
-    void translate(UTF8CharBuffer* parser_input);
+    bool translate(UTF8CharBuffer* parser_input);
 
     bool add_unit(const srcml_unit* unit);
     bool add_start_unit(const srcml_unit* unit);
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 4793fdf..c02ead1 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -533,7 +533,16 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         return status;
 
     // parse the input
-    unit->unit_translator->translate(input);
+    if (!unit->unit_translator->translate(input)) {
+
+        // not all of the input, so there is no unit
+        delete unit->unit_translator;
+        unit->unit_translator = nullptr;
+        xmlBufferFree(unit->output_buffer);
+        unit->output_buffer = nullptr;
+
+        return SRCML_STATUS_IO_ERROR;
+    }
 
     // namespaces were updated during translation, may now include
     // namespaces that were optional
-- 
2.43.0


From d87568566ca32ce8d4c60200c478c6540d12d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 09/96] fix: srcml_unit_parse_filename() leaves the file open

---
 src/libsrcml/srcml_unit.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index c02ead1..b836e78 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -573,10 +573,15 @@ int srcml_unit_parse_filename(struct srcml_unit* unit, const char* src_filename)
         return SRCML_STATUS_IO_ERROR;
     }
 
-    return srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
+    int status = srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
 
         return new UTF8CharBuffer(src_fd, encoding, output_hash, hash);
     });
+
+    // opened here, and not closed by the fd version
+    CLOSE(src_fd);
+
+    return status;
 }
 
 /**
-- 
2.43.0


From 025d94a4d3c62c14e04aa13b999b1edecafb4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 10/96] fix: reading an archive never ends once another archive
 is opened

The names libxml2 looked up in the dictionary of one parser were used for all of them.
---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 +++++++-------------
 src/libsrcml/sax2_srcsax_handler.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e2ca856..9520744 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -48,12 +48,6 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
-// libxml2 places elements into a dictionary
-// once initialized, can compare pointers instead of strings
-static const xmlChar* UNIT_ENTRY = nullptr;
-static const xmlChar* MACRO_LIST_ENTRY = nullptr;
-static const xmlChar* ESCAPE_ENTRY = nullptr;
-
 /**
  * factory
  *
@@ -191,9 +185,9 @@ void start_document(void* ctx) {
     SRCSAX_DEBUG_START("");
 
     // save for dictionary lookup of common elements
-    UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
-    MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
-    ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
+    state->unit_entry       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
+    state->macro_list_entry = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
+    state->escape_entry     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
 
     // save the encoding from the input
     state->context->encoding = "UTF-8";
@@ -373,7 +367,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
 
     // if macros are found, then must return, process first
     // but stay in first_start_element, since this can be between root unit and nested unit
-    if (localname == MACRO_LIST_ENTRY) {
+    if (localname == state->macro_list_entry) {
 
         state->context->handler->meta_tag(state->context, (const char*) localname, (const char*) prefix, (const char*) URI,
                                           nb_namespaces, namespaces, nb_attributes, attributes);
@@ -381,7 +375,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
     }
 
     // archive when the first element after the root is <unit>
-    state->context->is_archive = (localname == UNIT_ENTRY);
+    state->context->is_archive = (localname == state->unit_entry);
 
     // turn off first_start_element() handling
     ctxt->sax->startElementNs = &start_element;
@@ -639,7 +633,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == ESCAPE_ENTRY) {
+        if (localname == state->escape_entry) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -697,7 +691,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     SRCSAX_DEBUG_END(localname);
 
     // plain end element
-    if (localname != UNIT_ENTRY) {
+    if (localname != state->unit_entry) {
         return;
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c515197..3f4c9f8 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -96,6 +96,12 @@ struct sax2_srcsax_handler {
     boost::optional<std::string> cpp_prefix;
 
     bool rootcalled = false;
+
+    // libxml2 places elements into the dictionary of the parser
+    // once initialized, can compare pointers instead of strings
+    const xmlChar* unit_entry = nullptr;
+    const xmlChar* macro_list_entry = nullptr;
+    const xmlChar* escape_entry = nullptr;
 };
 
 /**
-- 
2.43.0


From ddc687a72fa7367b5c8797b99992296a517421b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 11/96] fix: source that starts an array index with a type
 keyword, or an empty expression in a Java enum, hangs or crashes the parser

---
 src/parser/srcMLParser.g | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index f89e6dc..3efcbd2 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -338,6 +338,17 @@ srcMLParser::srcMLParser(antlr::TokenStream& lexer, int lang, const OPTION_TYPE&
     startNewMode(MODE_TOP | MODE_STATEMENT | MODE_NEST);
 }
 
+// if the current token is not the previous one, which is updated
+bool srcMLParser::isProgress(antlr::RefToken& previous) {
+
+    if (LT(1).get() == previous.get())
+        return false;
+
+    previous = LT(1);
+
+    return true;
+}
+
 // ends all currently open modes
 void srcMLParser::endAllModes() {
 
@@ -776,6 +787,8 @@ public:
 
     void endAllModes();
 
+    bool isProgress(antlr::RefToken& previous);
+
 
     virtual void consume() {
 
@@ -5003,11 +5016,11 @@ variable_identifier_array_grammar_sub[bool& iscomplex] { CompleteElement element
 ;
 
 // contents of array index
-variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; ENTRY_DEBUG } :
+variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; antlr::RefToken previous; ENTRY_DEBUG } :
         { !inLanguage(LANGUAGE_CSHARP) && !inLanguage(LANGUAGE_OBJECTIVE_C) }? complete_expression |
 
         { inLanguage(LANGUAGE_CSHARP) || inLanguage(LANGUAGE_OBJECTIVE_C) }?
-            (options { greedy = true; } : { LA(1) != RBRACKET }?
+            (options { greedy = true; } : { LA(1) != RBRACKET && isProgress(previous) }?
                 ({ /* stop warning */ LA(1) == COMMA }? { if (!found_expr) { empty_element(SEXPRESSION, true); }
 
 
@@ -7170,7 +7183,9 @@ expression_statement[CALL_TYPE type = NOCALL, int call_count = 1] { ENTRY_DEBUG
         expression_statement_process
 
         { 
-            pauseStream();
+            // paused at the start of the expression statement, if there is one
+            if (!currentState().openelements.empty())
+                pauseStream();
         }
 
         expression[type, call_count]
-- 
2.43.0


From d1557729876648dc823fc76804b3ae4724a2e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 12/96] fix: text, CDATA and processing instructions are
 corrupted on read when libxml2 has dropped the start of them from its buffer

The collected srcML was taken from the raw buffer of libxml2, which does not have to keep all of it
when the text has non-ASCII characters. Also, the end of a start tag was not collected before a comment,
and text starting with > was taken for the end of a start tag.
---
 src/libsrcml/sax2_srcsax_handler.cpp | 63 ++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 9520744..5832acc 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -436,7 +436,7 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     for (int i = 0; i < nb_namespaces; ++i) {
 
         if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? "" : (const char*) namespaces[i * 2];
+            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
         }
     }
 
@@ -614,12 +614,6 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
     if (state->collect_unit_body) {
 
-        // end previous start element
-        if (state->base[0] == '>') {
-            state->unitsrcml.append(1, '>');
-            state->base += 1;
-        }
-
         auto srcmllen = ctxt->input->cur - state->base;
         if (srcmllen < 0) {
             return;
@@ -644,6 +638,14 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
     }
     state->base = ctxt->input->cur;
 
+    // end the start element now, as the end of it may not be in the libxml2 buffer later
+    // an empty element ends with the end element
+    if (state->base[0] == '>') {
+        if (state->collect_unit_body)
+            state->unitsrcml.append(1, '>');
+        state->base += 1;
+    }
+
     SRCSAX_DEBUG_END(localname);
 }
 
@@ -776,15 +778,23 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
 
     update_ctx(ctx);
 
-    // end previous start element
-    if (state->base[0] == '>') {
-        state->unitsrcml.append(1, '>');
-        state->base += 1;
-    }
-
     // libxml2 handles things in the background differently for whitespace and escaped characters
     // using a different buffer. For POS (Plain Old Strings), it uses the original buffer
-    if (state->base == ctxt->input->cur) {
+    if (state->base < ctxt->input->base) {
+
+        // libxml2 has already dropped the start of these characters from the original buffer
+        for (int i = 0; i < len; ++i) {
+            switch (ch[i]) {
+            case '<': state->unitsrcml.append("&lt;"); break;
+            case '>': state->unitsrcml.append("&gt;"); break;
+            case '&': state->unitsrcml.append("&amp;"); break;
+            case '\r': state->unitsrcml.append("&#13;"); break;
+            default: state->unitsrcml.append(1, (char) ch[i]);
+            }
+        }
+        state->base = ctxt->input->cur;
+
+    } else if (state->base == ctxt->input->cur) {
 
         // plain old strings
         state->unitsrcml.append((const char*) ch, len);
@@ -865,8 +875,14 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
     // append CDATA
     if (state->collect_unit_body) {
 
-        // xml can get raw
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        // xml can get raw, unless libxml2 has already dropped the start of it from the buffer
+        if (state->base < ctxt->input->base) {
+            state->unitsrcml.append("<![CDATA[");
+            state->unitsrcml.append((const char*) value, len);
+            state->unitsrcml.append("]]>");
+        } else {
+            state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        }
 
         // CDATA is character data
         state->unitsrc.append((const char*) value, len);
@@ -886,7 +902,7 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
  * Called when a processing instruction has been parsed.
  * Immediately calls supplied handlers function.
  */
-void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlChar* /* data */) {
+void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* data) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -901,7 +917,18 @@ void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlCha
 
     if (state->collect_unit_body) {
 
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        // xml can get raw, unless libxml2 has already dropped the start of it from the buffer
+        if (state->base < ctxt->input->base) {
+            state->unitsrcml.append("<?");
+            state->unitsrcml.append((const char*) target);
+            if (data) {
+                state->unitsrcml.append(" ");
+                state->unitsrcml.append((const char*) data);
+            }
+            state->unitsrcml.append("?>");
+        } else {
+            state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        }
 
         state->base = ctxt->input->cur;
     }
-- 
2.43.0


From 05a1726c89afe4a1aa97946c598da5d4a32b602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 13/96] fix: missing archive or processing instruction
 arguments crash instead of being refused

---
 src/libsrcml/srcml_archive.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index a87180e..d4b1c9e 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -107,6 +107,9 @@ const char* srcml_archive_error_string(const struct srcml_archive* archive) {
  */
 void srcml_archive_free(struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return;
+
     if (archive->translator) {
         delete archive->translator;
         archive->translator = nullptr;
@@ -126,9 +129,6 @@ void srcml_archive_free(struct srcml_archive* archive) {
         archive->reader = nullptr;
     }
 
-    if (archive == nullptr)
-        return;
-
     delete archive;
 }
 
@@ -302,7 +302,7 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
  * @param archive a srcml_archive
  */
 int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
-    return (archive->options & SRCML_OPTION_ARCHIVE) == 0;
+    return archive && (archive->options & SRCML_OPTION_ARCHIVE) == 0;
 }
 
 /**
@@ -310,7 +310,7 @@ int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
  */
 int srcml_archive_has_hash(const struct srcml_archive* archive) {
 
-    return (archive->options & SRCML_OPTION_HASH) != 0;
+    return archive && (archive->options & SRCML_OPTION_HASH) != 0;
 }
 
 /**
@@ -506,7 +506,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
  */
 int srcml_archive_set_processing_instruction(struct srcml_archive* archive, const char* target, const char* data) {
 
-    if (archive == nullptr)
+    if (archive == nullptr || target == nullptr || data == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->processing_instruction = std::pair<std::string,std::string>(target, data);
@@ -765,7 +765,7 @@ const char* srcml_archive_get_uri_from_prefix(const struct srcml_archive* archiv
  */
 const char* srcml_archive_get_processing_instruction_target(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
 }
 
 /**
@@ -776,7 +776,7 @@ const char* srcml_archive_get_processing_instruction_target(const struct srcml_a
  */
 const char* srcml_archive_get_processing_instruction_data(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->second.c_str() : 0;
 }
 
 /**
-- 
2.43.0


From 0c9aa2945c589c3c1a0bd72123feba9fc3702695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 14/96] fix: srcml_archive_get_namespace_prefix reads past the
 end of the namespaces

---
 src/libsrcml/srcml_archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index d4b1c9e..0287286 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -694,7 +694,7 @@ const char* srcml_archive_get_namespace_prefix(const struct srcml_archive* archi
     if (archive == nullptr)
         return nullptr;
 
-    if (pos > archive->namespaces.size())
+    if (pos >= archive->namespaces.size())
         return nullptr;
 
     return archive->namespaces[pos].prefix.c_str();
-- 
2.43.0


From 3a2898db78e8fe41d88886b12425fcfd7458da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 15/96] fix: parser stays forever on a token it makes no
 progress on while output is paused

---
 src/parser/StreamMLParser.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index d569eab..4563989 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -671,9 +671,22 @@ private:
         if (tb.empty())
             consume();
 
-        while (paused)
+        // to prevent an infinite loop, consume is called if the parser stays on the current
+        // token with the same modes and without any output
+        while (paused) {
+
+            const auto outputsize = output().size() + skip().size();
+            const auto modes = srcMLParser::size();
+            const auto mode = srcMLParser::getMode();
+            const antlr::RefToken curtoken = LT(1);
+
             fillTokenBuffer();
 
+            if (paused && LT(1) == curtoken && output().size() + skip().size() == outputsize
+                && srcMLParser::size() == modes && srcMLParser::getMode() == mode)
+                consume();
+        }
+
         // to calculate end position, need to buffer until end token in reached
         // to prevent infinite loops, consume is called if no progress is made on the
         // current token, e.g., double max const();
-- 
2.43.0


From f380dd0507908178a4b647742c3deeab6c96a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 16/96] fix: end of another statement taken for the end of the
 paused statement, leaving markup unbalanced

---
 src/parser/StreamMLParser.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 4563989..574120b 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -875,6 +875,26 @@ private:
         if (pausetoken->getType() != output().back()->getType())
             return;
 
+        // the last token must be the end of the start token paused at, not the end
+        // of another element of the same type
+        int depth = 0;
+        for (auto rit = output().rbegin(); rit != output().rend(); ++rit) {
+
+            if ((*rit)->getType() != pausetoken->getType() || isempty(*rit))
+                continue;
+
+            depth += isstart(*rit) ? -1 : 1;
+            if (depth > 0)
+                continue;
+
+            if (depth < 0 || *rit != pausetoken)
+                return;
+
+            break;
+        }
+        if (depth != 0)
+            return;
+
         pausetoken->setType(SNOP);
         output().back()->setType(SNOP);
 
-- 
2.43.0


From 43e141d704c18626991fc7ae5d2e64d24407cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 17/96] fix: parsing into a unit again keeps source, hash,
 encoding, and namespaces of the previous parse

---
 src/libsrcml/srcml_types.hpp |   3 +
 src/libsrcml/srcml_unit.cpp  | 104 ++++++++++++++++++++++++++---------
 2 files changed, 81 insertions(+), 26 deletions(-)

diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 2b4ecd9..e68adcf 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -182,6 +182,9 @@ struct srcml_unit {
 
     /** source encoding */
     boost::optional<std::string> encoding;
+
+    /** the source encoding was found when parsing, and not set */
+    bool derived_encoding = false;
     /** an attribute for a revision */
     boost::optional<std::string> revision = std::string(srcml_version_string());
     /** an attribute for a language */
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index b836e78..182f7c2 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -51,6 +51,7 @@ int srcml_unit_set_src_encoding(struct srcml_unit* unit, const char* encoding) {
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     unit->encoding = encoding ? std::string(encoding) : decltype(unit->encoding)();
+    unit->derived_encoding = false;
 
     return SRCML_STATUS_OK;
 }
@@ -497,9 +498,8 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
     if (lang == SRCML_LANGUAGE_NONE)
         return SRCML_STATUS_UNSET_LANGUAGE;
 
-    unit->derived_language = lang;
-
-    const char* src_encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding));
+    // an encoding from a previous parse is not a setting
+    const char* src_encoding = optional_to_c_str(unit->derived_encoding ? boost::none : unit->encoding, optional_to_c_str(unit->archive->src_encoding));
 
     // verify encoding here instead of later, when more difficult to handle errors
     if (src_encoding) {
@@ -513,15 +513,48 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         iconv_close(ic);
     }
 
-    bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
+    // what is derived from the source, and is kept as it was if there is no source
+    const auto hash = unit->hash;
+    const auto encoding = unit->encoding;
+    const auto derived_encoding = unit->derived_encoding;
+    const auto url = unit->url;
+    const auto namespaces = unit->namespaces;
+    const auto derived_language = unit->derived_language;
+    const int content_begin = unit->content_begin;
+    const int content_end = unit->content_end;
+    const int insert_begin = unit->insert_begin;
+    const int insert_end = unit->insert_end;
+    const auto restore = [&]() {
+        unit->hash = hash;
+        unit->encoding = encoding;
+        unit->derived_encoding = derived_encoding;
+        unit->url = url;
+        unit->namespaces = namespaces;
+        unit->derived_language = derived_language;
+        unit->content_begin = content_begin;
+        unit->content_end = content_end;
+        unit->insert_begin = insert_begin;
+        unit->insert_end = insert_end;
+    };
+
+    // the hash is of this source, not of a previous one
+    unit->hash = boost::none;
+    bool output_hash = (unit->archive->options & SRCML_OPTION_HASH) > 0;
 
     UTF8CharBuffer* input = 0;
     try {
 
         input = createUTF8CharBuffer(src_encoding, output_hash, unit->hash);
 
-    } catch(...) { return SRCML_STATUS_IO_ERROR; }
+    } catch(...) {
+        restore();
+        return SRCML_STATUS_IO_ERROR;
+    }
+
+    unit->derived_language = lang;
 
+    if (unit->derived_encoding || !unit->encoding)
+        unit->derived_encoding = true;
     unit->encoding = input->getEncoding();
 
     // unit url is just that of the archive
@@ -529,8 +562,11 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     // create the unit start tag (start_unit and end_unit must be called together)
     int status = srcml_write_start_unit(unit);
-    if (status != SRCML_STATUS_OK)
+    if (status != SRCML_STATUS_OK) {
+        delete input;
+        restore();
         return status;
+    }
 
     // parse the input
     if (!unit->unit_translator->translate(input)) {
@@ -540,6 +576,7 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         unit->unit_translator = nullptr;
         xmlBufferFree(unit->output_buffer);
         unit->output_buffer = nullptr;
+        restore();
 
         return SRCML_STATUS_IO_ERROR;
     }
@@ -873,22 +910,8 @@ int srcml_unit_unparse_io(struct srcml_unit* unit, void* context, int (*write_ca
     });
 }
 
-/**
- * srcml_write_start_unit
- * @param archive a srcml archive opened for writing
- * @param unit a srcml_unit to start output with
- *
- * Begin by element output and output the start tag unit to the srcml_archive archive
- * using attributes in srcml_unit.
- *
- * Can not usage with add_unit call srcml_write_end_unit, to end element mode.
- *
- * @returns Return SRCML_STATUS_OK on success and a status error code on failure.
- */
-int srcml_write_start_unit(struct srcml_unit* unit) {
-
-    if (unit == nullptr)
-        return SRCML_STATUS_INVALID_ARGUMENT;
+// create the start tag of the unit with the namespaces of the unit
+static int srcml_write_start_tag(struct srcml_unit* unit) {
 
     // setup the output buffer where the srcML will be created
     std::unique_ptr<xmlBuffer> output_buffer(xmlBufferCreate());
@@ -961,6 +984,29 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
     return SRCML_STATUS_OK;
 }
 
+/**
+ * srcml_write_start_unit
+ * @param archive a srcml archive opened for writing
+ * @param unit a srcml_unit to start output with
+ *
+ * Begin by element output and output the start tag unit to the srcml_archive archive
+ * using attributes in srcml_unit.
+ *
+ * Can not usage with add_unit call srcml_write_end_unit, to end element mode.
+ *
+ * @returns Return SRCML_STATUS_OK on success and a status error code on failure.
+ */
+int srcml_write_start_unit(struct srcml_unit* unit) {
+
+    if (unit == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
+    // start with the namespaces of the archive, not of any previous content
+    unit->namespaces = boost::none;
+
+    return srcml_write_start_tag(unit);
+}
+
 /**
  * srcml_write_end_unit
  * @param archive a srcml archive opened for writing
@@ -1001,7 +1047,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     int content_end = unit->content_end;
 
     // redo the start element with the namespaces found in the document
-    srcml_write_start_unit(unit);
+    srcml_write_start_tag(unit);
     char* start_tag = (char*) xmlBufferDetach(unit->output_buffer);
 
     // recreate the unit with the newly generated start tag, which
@@ -1021,10 +1067,15 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     free(start_tag);
     free(srcml);
 
+    // forms of any previous content
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw = boost::none;
+    unit->srcml_raw_revision = boost::none;
+
     // record the loc
-    if (!unit->src) {
-        unit->src = extract_src(unit->srcml);
-    }
+    unit->src = extract_src(unit->srcml);
 
     unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
     if (!unit->src->empty() && unit->src->back() != '\n')
@@ -1211,6 +1262,7 @@ struct srcml_unit* srcml_unit_clone(const struct srcml_unit* unit) {
     new_unit->language = unit->language;
     new_unit->revision = unit->revision;
     new_unit->encoding = unit->encoding;
+    new_unit->derived_encoding = unit->derived_encoding;
     new_unit->attributes = unit->attributes;
     new_unit->eol = unit->eol;
     new_unit->derived_language = unit->derived_language;
-- 
2.43.0


From 51af094a684d64926912cd2fc479452c7c98b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 18/96] fix: opening an archive that is already open leaks what
 it was opened for

---
 src/libsrcml/srcml_archive.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 0287286..29e521c 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -919,6 +919,9 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->type = SRCML_ARCHIVE_WRITE;
     archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
 
@@ -942,6 +945,9 @@ int srcml_archive_write_open_memory(struct srcml_archive* archive, char** buffer
     if (archive == nullptr || buffer == nullptr || size == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->type = SRCML_ARCHIVE_WRITE;
 
     archive->buffer = buffer;
@@ -968,6 +974,9 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->type = SRCML_ARCHIVE_WRITE;
 
     archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
@@ -990,6 +999,9 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->type = SRCML_ARCHIVE_WRITE;
 
     archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
@@ -1015,6 +1027,9 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive == nullptr || context == nullptr || write_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->type = SRCML_ARCHIVE_WRITE;
 
     archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
@@ -1070,6 +1085,9 @@ int srcml_archive_read_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFilename(srcml_filename, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1091,6 +1109,9 @@ int srcml_archive_read_open_memory(struct srcml_archive* archive, const char* bu
     if (archive == nullptr || buffer == nullptr || buffer_size <= 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     xmlCharEncoding encoding = archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE;
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateMem(buffer, (int)buffer_size, encoding));
 
@@ -1134,6 +1155,9 @@ int srcml_archive_read_open_FILE(struct srcml_archive* archive, FILE* srcml_file
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFile(srcml_file, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1154,6 +1178,9 @@ int srcml_archive_read_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFd(srcml_fd, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1176,6 +1203,9 @@ int srcml_archive_read_open_io(struct srcml_archive* archive, void * context, in
     if (archive == nullptr || context == nullptr || read_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateIO(read_callback, close_callback, context, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
-- 
2.43.0


From cd52bad18912eaf334853085993a4d1ace11e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 19/96] fix: archive opened for writing where no output can be
 created is reported as open

---
 src/libsrcml/srcml_archive.cpp | 37 ++++++++++++++++------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 29e521c..636c5e2 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -904,6 +904,18 @@ static int srcml_archive_write_create_translator_xml_buffer(struct srcml_archive
     return SRCML_STATUS_OK;
 }
 
+// the archive is only open when there is somewhere to write to
+static int srcml_archive_write_open_internal(struct srcml_archive* archive, xmlOutputBuffer* output_buffer) {
+
+    if (output_buffer == nullptr)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
+    archive->output_buffer = output_buffer;
+
+    return SRCML_STATUS_OK;
+}
+
 /**
  * srcml_archive_write_open_filename
  * @param archive a srcml_archive
@@ -922,10 +934,7 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-    archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFilename(srcml_filename, 0, 0));
 }
 
 /**
@@ -948,15 +957,12 @@ int srcml_archive_write_open_memory(struct srcml_archive* archive, char** buffer
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
 
     archive->buffer = buffer;
     archive->size = size;
 
     archive->xbuffer = xmlBufferCreate();
-    archive->output_buffer = xmlOutputBufferCreateBuffer(archive->xbuffer, 0);
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateBuffer(archive->xbuffer, 0));
 }
 
 /**
@@ -977,11 +983,8 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
-
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
 
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0)));
 }
 
 /**
@@ -1002,11 +1005,8 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0)));
 }
 
 /**
@@ -1030,11 +1030,8 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
-
-    return SRCML_STATUS_OK;
+    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0)));
 }
 
 /******************************************************************************
-- 
2.43.0


From af3e5373809a5c37605a1c04d9fe75ff3803cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 20/96] fix: second unit written to a solitary unit archive
 makes it ill-formed

---
 src/libsrcml/srcml_archive.cpp    | 3 ++-
 src/libsrcml/srcml_translator.cpp | 6 ++++++
 src/libsrcml/srcml_translator.hpp | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 636c5e2..c09ed71 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1252,7 +1252,8 @@ int srcml_archive_write_unit(struct srcml_archive* archive, struct srcml_unit* u
             return status;
     }
 
-    archive->translator->add_unit(unit);
+    if (!archive->translator->add_unit(unit))
+        return SRCML_STATUS_INVALID_IO_OPERATION;
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index e9e6516..d5835a6 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -203,6 +203,12 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     if (is_outputting_unit)
         return false;
 
+    // a solitary unit is the root, so there is no place for another one
+    if (added_unit && (options & SRCML_OPTION_ARCHIVE) == 0)
+        return false;
+
+    added_unit = true;
+
     prepareOutput();
 
     // space between the previous unit and this one
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index 25e3b2f..2609b7c 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -99,6 +99,9 @@ private:
     /** is this the first unit */
     bool first = true;
 
+    /** has a unit been added */
+    bool added_unit = false;
+
     /** the unit revision attribute */
     const char* revision = nullptr;
 
-- 
2.43.0


From 4bef78468e40ee094a78060ed24f05b4fb31f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 21/96] fix: output that could not be written or encoded is
 reported as success

---
 src/libsrcml/srcml_archive.cpp | 12 ++++++++++--
 src/libsrcml/srcml_unit.cpp    | 22 ++++++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index c09ed71..f8afab0 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1255,6 +1255,10 @@ int srcml_archive_write_unit(struct srcml_archive* archive, struct srcml_unit* u
     if (!archive->translator->add_unit(unit))
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
+    // not written until it reaches the destination
+    if (xmlTextWriterFlush(archive->translator->output_textwriter()) == -1)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
@@ -1276,8 +1280,12 @@ int srcml_archive_write_string(struct srcml_archive* archive, const char* s, int
     if (archive == nullptr || s == nullptr || len < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    if (archive->output_buffer)
-        xmlOutputBufferWrite(archive->output_buffer, len, s);
+    if (archive->type != SRCML_ARCHIVE_WRITE && archive->type != SRCML_ARCHIVE_RW)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
+    if (xmlOutputBufferWrite(archive->output_buffer, len, s) < 0)
+        return SRCML_STATUS_IO_ERROR;
+
 
     archive->rawwrites = true;
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 182f7c2..ff26620 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -728,7 +728,11 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
 
     const char* encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding, "ISO-8859-1"));
 
-    std::unique_ptr<xmlOutputBuffer> output_handler(createbuffer(encoding ? xmlFindCharEncodingHandler(encoding) : 0));
+    xmlCharEncodingHandlerPtr encoder = xmlFindCharEncodingHandler(encoding);
+    if (!encoder)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
+    std::unique_ptr<xmlOutputBuffer> output_handler(createbuffer(encoder));
     if (!output_handler) {
         return SRCML_STATUS_IO_ERROR;
     }
@@ -751,7 +755,8 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
 
     // if EOL is not auto, then need to convert for
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
+        if (xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str()) < 0)
+            return SRCML_STATUS_IO_ERROR;
     } else {
 
         // convert to the given eol
@@ -776,9 +781,15 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
             }
         }
 
-        xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());
+        if (xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str()) < 0)
+            return SRCML_STATUS_IO_ERROR;
     }
 
+    // all of it has to reach the destination
+    bool flushed = xmlOutputBufferFlush(output_handler.get()) >= 0;
+    if (xmlOutputBufferClose(output_handler.release()) < 0 || !flushed)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
@@ -828,8 +839,11 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
         buffer = xmlBufferCreate();
         return xmlOutputBufferCreateBuffer(buffer, handler);
     });
-    if (status != SRCML_STATUS_OK)
+    if (status != SRCML_STATUS_OK) {
+        if (buffer)
+            xmlBufferFree(buffer);
         return status;
+    }
 
     // record the size before the buffer is detached, as the source may contain null bytes
     *src_size = (size_t) xmlBufferLength(buffer);
-- 
2.43.0


From fde7104b2f222e2ac19aa9daba3f2e2a21713404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 22/96] fix: reading can wait forever for a parsing thread that
 has already ended

---
 src/libsrcml/srcSAXController.cpp     |  2 +-
 src/libsrcml/srcml_reader_handler.hpp | 44 ++++++++++++++++-----------
 src/libsrcml/srcml_sax2_reader.cpp    |  7 ++---
 src/libsrcml/srcsax_controller.cpp    |  7 +++--
 4 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/libsrcml/srcSAXController.cpp b/src/libsrcml/srcSAXController.cpp
index 990b85f..a8229da 100644
--- a/src/libsrcml/srcSAXController.cpp
+++ b/src/libsrcml/srcSAXController.cpp
@@ -83,7 +83,7 @@ void srcSAXController::parse(srcSAXHandler * handler) {
     if (status != 0) {
 
         xmlErrorPtr ep = xmlCtxtGetLastError(context->libxml2_context);
-        SAXError error = { std::string(ep->message), ep->code };
+        SAXError error = { ep && ep->message ? std::string(ep->message) : std::string(), ep ? ep->code : status };
 
         throw error;
     }
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 721c8b1..f7eff09 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -106,8 +106,8 @@ private :
     /** terminate */
     bool terminate = false;
 
-    /** indicate if we need to wait on the root */
-    bool wait_root = true;
+    /** the parsing thread is paused, waiting to be resumed */
+    bool paused = false;
 
     /** skip internal unit elements */
     bool skip = false;
@@ -154,11 +154,7 @@ public :
 
         std::unique_lock<std::mutex> lock(mutex);
 
-        if (is_done)
-            return;
-
-        if (wait_root)
-            cond.wait(lock);
+        cond.wait(lock, [this] { return paused || is_done; });
     }
 
     /**
@@ -170,6 +166,7 @@ public :
 
         std::unique_lock<std::mutex> lock(mutex);
 
+        paused = false;
         cond.notify_one();
     }
 
@@ -181,11 +178,26 @@ public :
     void resume_and_wait() {
 
         std::unique_lock<std::mutex> lock(mutex);
+
+        paused = false;
+        cond.notify_one();
+
+        cond.wait(lock, [this] { return paused || is_done; });
+    }
+
+    /**
+     * pause
+     * @param lock held lock on the mutex
+     *
+     * Allows parsing thread to wait until resumed
+     * or terminated.
+     */
+    void pause(std::unique_lock<std::mutex>& lock) {
+
+        paused = true;
         cond.notify_one();
-        if (is_done)
-            return;
 
-        cond.wait(lock);
+        cond.wait(lock, [this] { return !paused || terminate; });
     }
 
     /**
@@ -195,6 +207,8 @@ public :
      */
     void done() {
 
+        std::unique_lock<std::mutex> lock(mutex);
+
         is_done = true;
 
         cond.notify_one();
@@ -353,9 +367,7 @@ public :
 
                 if (terminate)
                     stop_parser();
-                wait_root = false;
-                cond.notify_one();
-                cond.wait(lock);
+                pause(lock);
                 read_root = true;
             }
 
@@ -381,8 +393,7 @@ public :
             if (terminate)
                 stop_parser();
 
-            cond.notify_one();
-            cond.wait(lock);
+            pause(lock);
         }
 
         state->loc = 0;
@@ -479,8 +490,7 @@ public :
             // pause
             std::unique_lock<std::mutex> lock(mutex);
             if (terminate) stop_parser();
-            cond.notify_one();
-            cond.wait(lock);
+            pause(lock);
         }
 
         if (terminate)
diff --git a/src/libsrcml/srcml_sax2_reader.cpp b/src/libsrcml/srcml_sax2_reader.cpp
index 567126d..4743abc 100644
--- a/src/libsrcml/srcml_sax2_reader.cpp
+++ b/src/libsrcml/srcml_sax2_reader.cpp
@@ -45,13 +45,12 @@ static void* start_routine(thread_args* args) {
         if (!(error.error_code == XML_ERR_EXTRA_CONTENT || error.error_code == XML_ERR_DOCUMENT_END)) {
 
             fprintf(stderr, "Error Parsing: %s\n", error.message.c_str());
-
-            args->handler->done();
         }
-
-        // might have to release a lock here or set is_done
     }
 
+    // nothing more to read, whatever the reason
+    args->handler->done();
+
     return 0;
 }
 
diff --git a/src/libsrcml/srcsax_controller.cpp b/src/libsrcml/srcsax_controller.cpp
index 332c5b0..54fba6a 100644
--- a/src/libsrcml/srcsax_controller.cpp
+++ b/src/libsrcml/srcsax_controller.cpp
@@ -131,10 +131,11 @@ int srcsax_parse(srcsax_context* context) {
 
         xmlErrorPtr ep = xmlCtxtGetLastError(context->libxml2_context);
 
-        auto str_length = strlen(ep->message);
-        ep->message[str_length - 1] = '\0';
+        std::string message(ep && ep->message ? ep->message : "");
+        if (!message.empty())
+            message.pop_back();
 
-        context->srcsax_error((const char *)ep->message, ep->code);
+        context->srcsax_error(message.c_str(), ep ? ep->code : status);
     }
 
     return status;
-- 
2.43.0


From 40d8f70ed3ddfd84222f6fc2e74fc0d60cc2989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 23/96] fix: srcml() reports success for input without units
 and ignores srcml_set_eol()

---
 src/libsrcml/libsrcml.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 945d745..f4b3350 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -217,7 +217,7 @@ int srcml(const char* input_filename, const char* output_filename) {
         size_t len = strlen(input_filename);
         if (!((len > 4 && tolower(input_filename[len - 1]) == 'l' && tolower(input_filename[len - 2]) == 'm'
             && ((tolower(input_filename[len - 3]) == 'x' && input_filename[len - 4] == '.')
-             || (tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
+             || (len > 6 && tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
            || (global_archive.language && strcmp(global_archive.language->c_str(), "xml") == 0))) {
 
             if (global_archive.language) {
@@ -241,7 +241,14 @@ int srcml(const char* input_filename, const char* output_filename) {
             return status;
 
         std::unique_ptr<srcml_unit> unit(srcml_archive_read_unit(archive.get()));
-        if (!unit)
+        if (!unit) {
+            global_archive.error_string = "No unit in srcML input";
+            return SRCML_STATUS_INVALID_INPUT;
+        }
+
+        // get value possibly set by convenience functions
+        status = srcml_unit_set_eol(unit.get(), srcml_unit_get_eol(&global_unit));
+        if (status != SRCML_STATUS_OK)
             return status;
 
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
-- 
2.43.0


From 185b9f136b5d4598d47c3aafa543878785f80ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 24/96] fix: OpenMP namespace with a registered prefix is used
 but not declared

---
 src/libsrcml/srcmlns.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcmlns.cpp b/src/libsrcml/srcmlns.cpp
index dd21545..741b0d0 100644
--- a/src/libsrcml/srcmlns.cpp
+++ b/src/libsrcml/srcmlns.cpp
@@ -40,9 +40,12 @@ Namespaces& operator+=(Namespaces& namespaces, const Namespaces& otherns) {
             auto default_it = default_view.find(ns.uri);
             if (default_it == default_view.end() || it->prefix == default_it->prefix) {
 
-                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; thisns.flags |= ns.flags; });
+                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; });
             }
 
+            // flags are part of it independent of the prefix
+            it->flags |= ns.flags;
+
         } else {
 
             // create a new entry for this URI
-- 
2.43.0


From 3809556dd2d2841a971a44e7ed38d4eb90a779b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 25/96] fix: & in attribute values and namespaces is read as
 &#38;

---
 src/libsrcml/sax2_srcsax_handler.cpp | 30 ++++++++++------------------
 src/libsrcml/srcml_transform.cpp     |  1 +
 src/libsrcml/srcsax_controller.cpp   |  3 ++-
 3 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 5832acc..8330194 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -145,6 +145,7 @@ static int reparse_root(void* ctx) {
     };
 
     xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(state->rootstarttag.c_str(), (int) state->rootstarttag.size());
+    xmlCtxtUseOptions(context, XML_PARSE_HUGE | XML_PARSE_NOENT);
     auto save_private = context->_private;
     context->_private = state;
     auto save_sax = context->sax;
@@ -270,26 +271,7 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     // record namespace string in an extensible list so we can add the per unit
     if (state->collect_unit_body) {
 
-        // precalculate length
         int ns_length = nb_namespaces * 2;
-        int size = 0;
-        for (int i = 0; i < ns_length; i += 2) {
-
-            // state->rootnsstr += "xmlns";
-            size += 5;
-            if (namespaces[i]) {
-                // state->rootnsstr += ":";
-                // state->rootnsstr += (const char*) namespaces[i];
-                size += 1 + (int) strlen((const char*) namespaces[i]);
-            }
-            // state->rootnsstr += "=\"";
-            // state->rootnsstr += (const char*) namespaces[i + 1];
-            // state->rootnsstr += "\" ";
-            size += 2 + (int) strlen((const char*) namespaces[i + 1]) + 2;
-        }
-
-        state->rootnsstr.reserve(size);
-
         for (int i = 0; i < ns_length; i += 2) {
 
             state->rootnsstr += "xmlns";
@@ -298,7 +280,15 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 state->rootnsstr += (const char*) namespaces[i];
             }
             state->rootnsstr += "=\"";
-            state->rootnsstr += (const char*) namespaces[i + 1];
+            for (const char* p = (const char*) namespaces[i + 1]; *p; ++p) {
+                switch (*p) {
+                case '<': state->rootnsstr += "&lt;"; break;
+                case '>': state->rootnsstr += "&gt;"; break;
+                case '&': state->rootnsstr += "&amp;"; break;
+                case '"': state->rootnsstr += "&quot;"; break;
+                default: state->rootnsstr += *p;
+                }
+            }
             state->rootnsstr += "\" ";
         }
     }
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index c416342..ca8ed5e 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -736,6 +736,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
             // parse the start tag updating the unit
             xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(starttag.c_str(), (int) starttag.size());
+            xmlCtxtUseOptions(context, XML_PARSE_HUGE | XML_PARSE_NOENT);
             auto save_private = context->_private;
             context->_private = nunit;
             auto save_sax = context->sax;
diff --git a/src/libsrcml/srcsax_controller.cpp b/src/libsrcml/srcsax_controller.cpp
index 54fba6a..af00a97 100644
--- a/src/libsrcml/srcsax_controller.cpp
+++ b/src/libsrcml/srcsax_controller.cpp
@@ -159,7 +159,8 @@ xmlParserCtxtPtr srcsax_create_parser_context(xmlParserInputBufferPtr buffer_inp
     if (ctxt == 0)
         return 0;
 
-    xmlCtxtUseOptions(ctxt, XML_PARSE_COMPACT | XML_PARSE_HUGE | XML_PARSE_NODICT);
+    // without NOENT, & in an attribute value is reported as &#38;
+    xmlCtxtUseOptions(ctxt, XML_PARSE_COMPACT | XML_PARSE_HUGE | XML_PARSE_NODICT | XML_PARSE_NOENT);
 
     xmlParserInputPtr input = xmlNewIOInputStream(ctxt, buffer_input, enc);
     if (input == 0) {
-- 
2.43.0


From 8d43d820ff30652dd0419255f2a2c02956879525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 26/96] fix: end position of elements includes a preprocessor
 directive or macro that follows

---
 src/parser/StreamMLParser.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 574120b..207feee 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -321,12 +321,18 @@ private:
         srcMLParser::consume();
 
         // record for end position of start elements
-        lastline = LT(1)->getLine();
-        lastcolumn = LT(1)->getColumn() - 1;
+        const int line = LT(1)->getLine();
+        const int column = LT(1)->getColumn() - 1;
+        lastline = line;
+        lastcolumn = column;
 
         // consume any skipped tokens
         while (consumeSkippedToken())
             ;
+
+        // skipped preprocessor directives and macros are not part of the current elements
+        lastline = line;
+        lastcolumn = column;
     }
 
     /**
-- 
2.43.0


From 10c2401de57d0aca732fd233f56a298d1cafa921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:55 +0000
Subject: [PATCH 27/96] fix: an unterminated comment at the end of the input
 swaps its end position with that of an enclosing element

---
 src/parser/StreamMLParser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 207feee..557eca0 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -504,6 +504,10 @@ private:
                 break;
             }
 
+            // a comment that is still open at the end of the input ends here, before any element it is in
+            if (srcMLParser::LA(1) == antlr::Token::EOF_TYPE)
+                completeSkip();
+
             return true;
         }
 
-- 
2.43.0


From dc8c411a97529176df9e57a62f83e7ce74e95c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 28/96] fix: end position of an element includes tokens that
 were only looked ahead at

---
 src/parser/StreamMLParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 557eca0..b5afe36 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -321,8 +321,9 @@ private:
         srcMLParser::consume();
 
         // record for end position of start elements
-        const int line = LT(1)->getLine();
-        const int column = LT(1)->getColumn() - 1;
+        // tokens consumed while guessing are consumed again later
+        const int line = srcMLParser::inputState->guessing ? lastline : LT(1)->getLine();
+        const int column = srcMLParser::inputState->guessing ? lastcolumn : LT(1)->getColumn() - 1;
         lastline = line;
         lastcolumn = column;
 
-- 
2.43.0


From 9d570eec1c3119cfe692278f8dfeead45e086d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 29/96] fix: position in comments and strings ignores the tab
 stop

---
 src/libsrcml/srcml_translator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index d5835a6..55e637d 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -135,6 +135,7 @@ bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
+        textlexer.setTabsize((int)tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0


From bbf93d31471a03d28d6b9a48fa3249ae489a4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 30/96] fix: parse of input that cannot be decoded to its end
 can be reported as successful

---
 src/libsrcml/srcml_translator.cpp | 4 ++++
 src/parser/UTF8CharBuffer.cpp     | 3 +++
 src/parser/UTF8CharBuffer.hpp     | 6 ++++++
 3 files changed, 13 insertions(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 55e637d..25cd1c1 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -151,6 +151,10 @@ bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // parse and form srcML output with unit attributes
         out.consume(getLanguageString(), revision, url, filename, version, timestamp, hash, encoding);
 
+        // the parser may have passed over an error in the input
+        if (parser_input->hasError())
+            return false;
+
     } catch (const std::exception& e) {
         fprintf(stderr, "SRCML Exception: %s\n", e.what());
         return false;
diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 631e566..c14c94f 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -298,6 +298,7 @@ ssize_t UTF8CharBuffer::readChars() {
         } while (firstRead && readsize > 0 && total < 4);
         if (readsize < 0) {
             fprintf(stderr, "Error reading: %s\n", strerror(errno));
+            error = true;
             throw UTF8FileError();
         }
 
@@ -308,6 +309,7 @@ ssize_t UTF8CharBuffer::readChars() {
             if (inbytesleft) {
                 inbytesleft = 0;
                 fprintf(stderr, "%s\n", strerror(EILSEQ));
+                error = true;
                 throw UTF8FileError();
             }
 
@@ -424,6 +426,7 @@ ssize_t UTF8CharBuffer::readChars() {
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
         if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
+            error = true;
             throw UTF8FileError();
         }
 
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index e243a5e..cc20841 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -122,6 +122,9 @@ public:
     // Get the used encoding
     const std::string& getEncoding() const;
 
+    // If any of the input could not be read or decoded
+    bool hasError() const { return error; }
+
     int getLOC() { if (lastchar == '\n') return loc; else return loc + 1; }
 
     ~UTF8CharBuffer();
@@ -148,6 +151,9 @@ private:
 
     int lastchar = 0;
 
+    /** if any of the input could not be read or decoded */
+    bool error = false;
+
 #ifdef _MSC_BUILD
     /** msvc hash provider object */
     HCRYPTPROV   crypt_provider;
-- 
2.43.0


From 44058648ff96366bc8dda989b8cf1f4128e6824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 31/96] fix: write or view of a unit while it is rebuilt uses
 positions of the new start tag in the previous content

srcml_write_start_unit() on a unit that has content changed the content
positions, but the previous srcML stayed readable and writable, cut at
the wrong place. The unit now has no content until srcml_write_end_unit().
---
 src/libsrcml/srcml_unit.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index ff26620..4cd3270 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -524,6 +524,8 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
     const int content_end = unit->content_end;
     const int insert_begin = unit->insert_begin;
     const int insert_end = unit->insert_end;
+    const bool read_header = unit->read_header;
+    const bool read_body = unit->read_body;
     const auto restore = [&]() {
         unit->hash = hash;
         unit->encoding = encoding;
@@ -535,6 +537,8 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         unit->content_end = content_end;
         unit->insert_begin = insert_begin;
         unit->insert_end = insert_end;
+        unit->read_header = read_header;
+        unit->read_body = read_body;
     };
 
     // the hash is of this source, not of a previous one
@@ -1018,7 +1022,15 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
     // start with the namespaces of the archive, not of any previous content
     unit->namespaces = boost::none;
 
-    return srcml_write_start_tag(unit);
+    int status = srcml_write_start_tag(unit);
+    if (status != SRCML_STATUS_OK)
+        return status;
+
+    // any previous content is gone, and there is no new content until the unit is ended
+    unit->read_header = false;
+    unit->read_body = false;
+
+    return SRCML_STATUS_OK;
 }
 
 /**
-- 
2.43.0


From ef61cc70dae3c80a5124e50f6110cc4113058d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 32/96] fix: functions of a transformation result crash for a
 missing result or a negative index

---
 src/libsrcml/srcml_transform.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index ca8ed5e..84446dd 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -770,6 +770,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
  */
 int srcml_transform_free(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     for (auto unit : result->units) {
         srcml_unit_free(unit);
     }
@@ -785,7 +788,7 @@ int srcml_transform_free(struct srcml_transform_result* result) {
  */
 LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result) {
 
-    return result->type;
+    return result ? result->type : SRCML_RESULT_NONE;
 }
 
 /**
@@ -795,7 +798,7 @@ LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result
 int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
        return 0;
 
     return (int) result->units.size();
@@ -809,10 +812,10 @@ int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* result, int index) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
         return 0;
 
-    if (index >= (int) result->units.size())
+    if (index < 0 || index >= (int) result->units.size())
         return 0;
 
     return result->units[index];
@@ -825,7 +828,7 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
 const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_STRING)
+    if (result == nullptr || result->type != SRCML_RESULT_STRING)
         return 0;
 
     if (!result->stringValue)
@@ -841,7 +844,7 @@ const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 double srcml_transform_get_number(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_NUMBER)
+    if (result == nullptr || result->type != SRCML_RESULT_NUMBER)
         return 0;
 
     if (!result->numberValue)
@@ -857,7 +860,7 @@ double srcml_transform_get_number(struct srcml_transform_result* result) {
 int srcml_transform_get_bool(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_BOOLEAN)
+    if (result == nullptr || result->type != SRCML_RESULT_BOOLEAN)
         return -1;
 
     if (!result->boolValue)
-- 
2.43.0


From 26f187501f186f29d66709b44fa1b815a23da32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 33/96] fix: element-by-element calls out of place or refused
 damage the unit

---
 src/libsrcml/srcml_translator.cpp | 192 ++++++++++++++++++++++++++----
 src/libsrcml/srcml_translator.hpp |  22 ++++
 2 files changed, 190 insertions(+), 24 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 25cd1c1..7ef1b0c 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -33,6 +33,9 @@
 #include <srcml_types.hpp>
 #include <unit_utilities.hpp>
 
+#include <cstdio>
+#include <libxml/tree.h>
+
 /**
  * srcml_translator
  * @param output_buffer general libxml2 output buffer
@@ -343,17 +346,30 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
     if (!is_outputting_unit || name == 0)
         return false;
 
-    if (strcmp(name, "unit") == 0)
+    if (strcmp(name, "unit") == 0 || !is_valid_name(prefix, name))
         return false;
 
-    ++output_unit_depth;
-
-    const char* used_uri = nullptr;
-    if (uri == nullptr || strcmp(SRCML_SRC_NS_URI, uri) != 0) {
-        used_uri = uri;
+    // the srcML namespace is normally declared by the unit
+    std::string element_prefix = prefix ? prefix : "";
+    const char* used_uri = uri;
+    if (uri && strcmp(SRCML_SRC_NS_URI, uri) == 0) {
+        const auto in_scope = find_namespace(element_prefix);
+        if (in_scope && *in_scope == SRCML_SRC_NS_URI)
+            used_uri = nullptr;
     }
 
-    return xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) != -1;
+    if (xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) == -1)
+        return false;
+
+    if (!open_elements.empty())
+        open_elements.back().in_tag = false;
+    open_elements.emplace_back();
+    if (uri)
+        open_elements.back().declared[element_prefix] = uri;
+
+    ++output_unit_depth;
+
+    return true;
 }
 
 /**
@@ -362,25 +378,83 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
  * Add the end element to a started unit.
  * add_start_unit most be called first.
  *
+ * The unit itself is ended by add_end_unit.
+ *
  * @returns if succesfully added.
  */
 bool srcml_translator::add_end_element() {
 
-    if (!is_outputting_unit)
+    if (!is_outputting_unit || output_unit_depth == 0)
         return false;
 
     --output_unit_depth;
+    open_elements.pop_back();
+    if (!open_elements.empty())
+        open_elements.back().in_tag = false;
 
     return xmlTextWriterEndElement(out.getWriter()) != -1;
 }
 
+/**
+ * is_valid_name
+ * @param prefix the namespace prefix
+ * @param name the name of an element or attribute
+ *
+ * @returns if the name can be used in a tag
+ */
+bool srcml_translator::is_valid_name(const char* prefix, const char* name) const {
+
+    if (!prefix || !*prefix)
+        return xmlValidateQName(BAD_CAST name, 0) == 0;
+
+    return xmlValidateNCName(BAD_CAST prefix, 0) == 0 && xmlValidateNCName(BAD_CAST name, 0) == 0;
+}
+
+/**
+ * find_namespace
+ * @param prefix the namespace prefix
+ *
+ * Find what is declared for a prefix in the open elements and the unit.
+ *
+ * @returns the uri, or nullptr if not declared
+ */
+const std::string* srcml_translator::find_namespace(const std::string& prefix) const {
+
+    for (auto element = open_elements.rbegin(); element != open_elements.rend(); ++element) {
+        const auto it = element->declared.find(prefix);
+        if (it != element->declared.end())
+            return &(it->second);
+    }
+
+    // the unit always declares the srcML namespace
+    const auto& view = out.getNamespaces().get<nstags::uri>();
+    const auto it = view.find(SRCML_SRC_NS_URI);
+    if (it != view.end() && it->prefix == prefix)
+        return &(it->uri);
+
+    return nullptr;
+}
+
+// text which can be stored in an XML attribute
+static bool is_attribute_text(const char* content) {
+
+    if (!xmlCheckUTF8(BAD_CAST content))
+        return false;
+
+    for (const char* pos = content; *pos; ++pos)
+        if ((unsigned char) *pos < 0x20 && *pos != '\t' && *pos != '\n' && *pos != '\r')
+            return false;
+
+    return true;
+}
+
 /**
  * add_namespace
  * @param prefix the prefix for the namespace
  * @param uri the namespace uri
  *
  * Add the namespace to a started element.
- * add_start_unit most be called first.
+ * add_start_element must be called first, and nothing may be in the element yet.
  *
  * @returns if succesfully added.
  */
@@ -389,32 +463,80 @@ bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
     if (!is_outputting_unit || uri == 0)
         return false;
 
+    // the start tag of the unit is not part of the by element writing
+    if (open_elements.empty() || !open_elements.back().in_tag)
+        return false;
+
+    if (prefix && *prefix && xmlValidateNCName(BAD_CAST prefix, 0) != 0)
+        return false;
+
+    if (!is_attribute_text(uri))
+        return false;
+
+    // already declared in this tag
+    auto& element = open_elements.back();
+    std::string name_prefix = prefix ? prefix : "";
+    const auto it = element.declared.find(name_prefix);
+    if (it != element.declared.end())
+        return it->second == uri;
+
     std::string name = "xmlns";
-    if (prefix) {
+    if (!name_prefix.empty()) {
         name += ":";
-        name += prefix;
+        name += name_prefix;
     }
 
+    if (!element.names.insert(name).second)
+        return false;
+
+    element.declared[name_prefix] = uri;
+
     return xmlTextWriterWriteAttribute(out.getWriter(), BAD_CAST name.c_str(), BAD_CAST uri) != -1;
 }
 
 /**
- * add_start_element
+ * add_attribute
  * @param prefix the namespace prefix for attribute
  * @param name the name of the attribute
  * @param uri the namespace uri for attriubute
  * @param content the contents/value of the attribute
  *
  * Add the attribute to a start element.
- * add_start_unit most be called first.
+ * add_start_element must be called first, and nothing may be in the element yet.
  *
  * @returns if succesfully added.
  */
 bool srcml_translator::add_attribute(const char* prefix, const char* name, const char* uri, const char* content) {
 
-    if (!is_outputting_unit || name == 0)
+    if (!is_outputting_unit || name == 0 || content == 0)
+        return false;
+
+    // the start tag of the unit is not part of the by element writing
+    if (open_elements.empty() || !open_elements.back().in_tag)
         return false;
 
+    if (!is_valid_name(prefix, name) || !is_attribute_text(content))
+        return false;
+
+    // a namespace can be declared only once in a tag
+    auto& element = open_elements.back();
+    std::string name_prefix = prefix ? prefix : "";
+    if (uri) {
+        const auto it = element.declared.find(name_prefix);
+        if (it != element.declared.end()) {
+            if (it->second != uri)
+                return false;
+            uri = nullptr;
+        }
+    }
+
+    std::string qname = name_prefix.empty() ? name : name_prefix + ":" + name;
+    if (!element.names.insert(qname).second)
+        return false;
+
+    if (uri)
+        element.declared[name_prefix] = uri;
+
     return xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST uri, BAD_CAST content) != -1;
 }
 
@@ -426,6 +548,8 @@ bool srcml_translator::add_attribute(const char* prefix, const char* name, const
  * i.e being added to start tag.
  * add_start_unit must be called first.
  *
+ * Characters which are not allowed in XML are written as escape elements.
+ *
  * @returns if succesfully added.
  */
 bool srcml_translator::add_string(const char *content) {
@@ -433,24 +557,44 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
-    char* text = (char *)content;
-    for (char * pos = text; *pos; ++pos) {
+    if (!xmlCheckUTF8(BAD_CAST content))
+        return false;
 
-        if (*pos != '"')
+    if (!open_elements.empty())
+        open_elements.back().in_tag = false;
+
+    std::string text;
+    for (const char* pos = content; *pos; ++pos) {
+
+        bool is_control = (unsigned char) *pos < 0x20 && *pos != '\t' && *pos != '\n' && *pos != '\r';
+        if (*pos != '"' && !is_control) {
+            text += *pos;
             continue;
+        }
 
-        *pos = 0;
-        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) == -1)
+        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text.c_str()) == -1)
             return false;
+        text.clear();
 
-        *pos = '\"';
-        if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
-            return false;
+        if (*pos == '"') {
+            if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
+                return false;
+            continue;
+        }
 
-        text = pos + 1;
+        const auto& view = out.getNamespaces().get<nstags::uri>();
+        const auto it = view.find(SRCML_SRC_NS_URI);
+        const char* src_prefix = it != view.end() && !it->prefix.empty() ? it->prefix.c_str() : nullptr;
+
+        char value[8];
+        snprintf(value, sizeof(value), "0x%02x", (unsigned char) *pos);
+        if (!add_start_element(src_prefix, "escape", SRCML_SRC_NS_URI) ||
+            !add_attribute(nullptr, "char", nullptr, value) ||
+            !add_end_element())
+            return false;
     }
 
-    return xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) != -1;
+    return xmlTextWriterWriteString(out.getWriter(), BAD_CAST text.c_str()) != -1;
 }
 
 /**
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index 2609b7c..0bc9eb5 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -33,7 +33,10 @@
 #include <srcml_macros.hpp>
 #include <srcml.h>
 
+#include <map>
+#include <set>
 #include <string>
+#include <vector>
 
 /**
  * FileError
@@ -148,6 +151,25 @@ private:
     /** mark if have outputted starting unit tag for by element writing */
     bool is_outputting_unit = false;
 
+    /** an element that is open in by element writing */
+    struct open_element {
+
+        /** names of the attributes, including namespace declarations */
+        std::set<std::string> names;
+
+        /** namespace declarations, prefix and uri */
+        std::map<std::string, std::string> declared;
+
+        /** is the start tag still open */
+        bool in_tag = true;
+    };
+
+    /** open elements for by element writing, innermost last */
+    std::vector<open_element> open_elements;
+
+    bool is_valid_name(const char* prefix, const char* name) const;
+    const std::string* find_namespace(const std::string& prefix) const;
+
 public:
     /** track depth for by element writing */
     int output_unit_depth = 0;
-- 
2.43.0


From 6d10462acf9f0f044626efa9461ba45cbaa046fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 34/96] fix: reading or extracting an escape element without
 attribute or namespace crashes

---
 src/libsrcml/sax2_srcsax_handler.cpp | 18 ++++++++++++------
 src/libsrcml/unit_utilities.cpp      | 21 ++++++++++++++++-----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 8330194..786f587 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -587,9 +587,9 @@ void end_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
  * SAX handler function for start of an element.
  * Immediately calls supplied handlers function.
  */
-void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* /* URI */,
+void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* URI,
                     int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                    int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                    int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -617,13 +617,19 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == state->escape_entry) {
+        if (localname == state->escape_entry && URI && is_srcml_namespace((const char*) URI, SRCML_SRC_NS_URI)) {
 
-            std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
+            for (int i = 0; i < nb_attributes; ++i) {
 
-            char value = (int)strtol(svalue.c_str(), NULL, 0);
+                if (strcmp((const char*) attributes[i * 5], "char") != 0)
+                    continue;
 
-            state->unitsrc.append(1, value);
+                std::string svalue((const char *)attributes[i * 5 + 3], attributes[i * 5 + 4] - attributes[i * 5 + 3]);
+
+                char value = (int)strtol(svalue.c_str(), NULL, 0);
+
+                state->unitsrc.append(1, value);
+            }
         }
     }
     state->base = ctxt->input->cur;
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a3ca02e..e011970 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -152,7 +152,7 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
 
     charactersax.startElementNs = [](void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* URI,
                      int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                     int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                     int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
         auto ctxt = (xmlParserCtxtPtr) ctx;
         if (ctxt == nullptr)
@@ -161,12 +161,23 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
         if (scontext == nullptr)
             return;
 
-        if (strcmp((const char*) localname, "escape") == 0 && strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0) {
-            std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
+        // element in no namespace
+        if (URI == nullptr)
+            return;
+
+        if (strcmp((const char*) localname, "escape") == 0 && is_srcml_namespace((const char*) URI, SRCML_SRC_NS_URI)) {
+
+            for (int i = 0; i < nb_attributes; ++i) {
 
-            char value = (int)strtol(svalue.c_str(), NULL, 0);
+                if (strcmp((const char*) attributes[i * 5], "char") != 0)
+                    continue;
 
-            scontext->s.append(1, value);
+                std::string svalue((const char *)attributes[i * 5 + 3], attributes[i * 5 + 4] - attributes[i * 5 + 3]);
+
+                char value = (int)strtol(svalue.c_str(), NULL, 0);
+
+                scontext->s.append(1, value);
+            }
 
         } else if (scontext->revision && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
 
-- 
2.43.0


From 61d74640ca7f59f9f36e9eaf50dbb1ab94d1c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 35/96] fix: appending an invalid XPath, XSLT or RelaxNG is
 accepted or ends the process

---
 src/libsrcml/relaxngTransformation.cpp |  8 ++++---
 src/libsrcml/srcml_transform.cpp       | 31 ++++++++++++++++++++++----
 src/libsrcml/xsltTransformation.cpp    | 30 ++++++++++++++++---------
 src/libsrcml/xsltTransformation.hpp    |  2 +-
 4 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index fc9f286..034665f 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -22,6 +22,8 @@
 
 #include <relaxngTransformation.hpp>
 
+#include <stdexcept>
+
 /**
  * relaxngTransformation
  * @param options list of srcML options
@@ -34,15 +36,15 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
 
     relaxng_parser_ctxt = decltype(relaxng_parser_ctxt)(xmlRelaxNGNewDocParserCtxt(relaxng));
     if (relaxng_parser_ctxt == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG schema");
 
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG schema");
 
     rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
     if (rngctx == nullptr)
-        throw;
+        throw std::invalid_argument("RelaxNG schema");
 }
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 84446dd..42460a9 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -40,6 +40,7 @@
 #include <unit_utilities.hpp>
 
 #include <algorithm>
+#include <stdexcept>
 #include <vector>
 #include <boost/optional.hpp>
 
@@ -83,8 +84,14 @@ static int srcml_append_transform_xpath_internal (struct srcml_archive* archive,
     if (archive == NULL || xpath_string == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new xpathTransformation(archive, xpath_string, prefix, namespace_uri, element,
-            attr_prefix, attr_namespace_uri, attr_name, attr_value)));
+    std::unique_ptr<xpathTransformation> trans(new xpathTransformation(archive, xpath_string, prefix, namespace_uri, element,
+            attr_prefix, attr_namespace_uri, attr_name, attr_value));
+
+    // not a valid XPath expression
+    if (trans->compiled_xpath == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
+    archive->transformations.push_back(std::move(trans));
 
     return SRCML_STATUS_OK;
 }
@@ -191,7 +198,15 @@ static int srcml_append_transform_xslt_internal(srcml_archive* archive, std::uni
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.release(), std::vector<std::string>())));
+    // not a valid XSLT program
+    std::unique_ptr<Transformation> trans;
+    try {
+        trans.reset(new xsltTransformation(std::move(doc), std::vector<std::string>()));
+    } catch (const std::invalid_argument&) {
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
+
+    archive->transformations.push_back(std::move(trans));
 
     return SRCML_STATUS_OK;
 }
@@ -302,7 +317,15 @@ static int srcml_append_transform_relaxng_internal(srcml_archive* archive, xmlDo
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    // not a valid RelaxNG schema
+    std::unique_ptr<Transformation> trans;
+    try {
+        trans.reset(new relaxngTransformation(doc));
+    } catch (const std::invalid_argument&) {
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
+
+    archive->transformations.push_back(std::move(trans));
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 02a248d..34baec0 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -27,6 +27,8 @@
 
 #include <srcml_sax2_utilities.hpp>
 
+#include <stdexcept>
+
 #ifdef DLLOAD
 #include <dlfcn.h>
 #else
@@ -49,7 +51,7 @@
  *
  * Constructor.  Dynamically loads XSLT functions.
  */
-xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xslt, const std::vector<std::string>& params)
+xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ std::unique_ptr<xmlDoc> xslt, const std::vector<std::string>& params)
         : params(params) {
 
 #ifdef DLLOAD
@@ -57,7 +59,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     libxslt_handle = dlopen_libxslt();
     if (!libxslt_handle) {
         fprintf(stderr, "Unable to open libxslt library\n");
-        throw;
+        throw std::invalid_argument("XSLT library");
     }
 
     char* error;
@@ -67,7 +69,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT library");
     }
 
     dlerror();
@@ -75,7 +77,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT library");
     }
 
     dlerror();
@@ -83,7 +85,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT library");
     }
 
     dlerror();
@@ -91,7 +93,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::invalid_argument("XSLT library");
     }
 
     libexslt_handle = dlopen_libexslt();
@@ -103,7 +105,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     *(void **) (&exsltRegisterAll) = dlsym(libexslt_handle, "exsltRegisterAll");
     if ((error = dlerror()) != NULL) {
         dlclose(libexslt_handle);
-        throw;
+        throw std::invalid_argument("XSLT library");
     }
 #endif
 
@@ -111,9 +113,17 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     exsltRegisterAll();
 
     // parse the stylesheet
-    stylesheet = xsltParseStylesheetDoc(xslt);
-    if (!stylesheet)
-        throw;
+    stylesheet = xsltParseStylesheetDoc(xslt.get());
+    if (!stylesheet) {
+#ifdef DLLOAD
+        dlclose(libxslt_handle);
+        dlclose(libexslt_handle);
+#endif
+        throw std::invalid_argument("XSLT program");
+    }
+
+    // document is now part of the stylesheet
+    xslt.release();
 }
 
 /**
diff --git a/src/libsrcml/xsltTransformation.hpp b/src/libsrcml/xsltTransformation.hpp
index 16e6aba..3455965 100644
--- a/src/libsrcml/xsltTransformation.hpp
+++ b/src/libsrcml/xsltTransformation.hpp
@@ -72,7 +72,7 @@ public :
      *
      * Constructor.  Dynamically loads XSLT functions.
      */
-    xsltTransformation(/*OPTION_TYPE& options,*/ xmlDocPtr xslt, const std::vector<std::string>& params);
+    xsltTransformation(/*OPTION_TYPE& options,*/ std::unique_ptr<xmlDoc> xslt, const std::vector<std::string>& params);
 
     /**
      * ~xsltTransformation
-- 
2.43.0


From c38b8bb5a459f47cb704afd9a20284d10b384395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 36/96] fix: removing an XSLT transformation takes the EXSLT
 functions from the others

---
 src/libsrcml/xsltTransformation.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 34baec0..f87dba6 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -27,6 +27,7 @@
 
 #include <srcml_sax2_utilities.hpp>
 
+#include <atomic>
 #include <stdexcept>
 
 #ifdef DLLOAD
@@ -43,6 +44,9 @@
 #include <io.h>
 #endif
 
+// number of XSLT transformations that use the extension functions
+static std::atomic<int> instances(0);
+
 /**
  * xsltTransformation
  * @param options list of srcML options
@@ -124,6 +128,8 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ std::unique_p
 
     // document is now part of the stylesheet
     xslt.release();
+
+    ++instances;
 }
 
 /**
@@ -135,7 +141,9 @@ xsltTransformation::~xsltTransformation() {
 
     xsltFreeStylesheet(stylesheet);
 
-    xsltCleanupGlobals();
+    // extension functions are shared by all the XSLT transformations
+    if (--instances == 0)
+        xsltCleanupGlobals();
 
 #ifdef DLLOAD
     dlclose(libxslt_handle);
-- 
2.43.0


From c767eb5038948fd9c4a50899736b9119c359fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 37/96] fix: transformation pipeline drops, alters and leaks
 results, and ignores that the result replaces the unit

---
 src/libsrcml/srcml_transform.cpp     | 269 ++++++++++++++++++---------
 src/libsrcml/xpathTransformation.cpp |   2 +-
 2 files changed, 177 insertions(+), 94 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 42460a9..6d0b8b0 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -516,6 +516,73 @@ static bool usesURI(xmlNode* cur_node, const std::string& URI) {
     return usesURIChildren(cur_node->children, URI);
 }
 
+// marks namespaces that are not declared on the node itself
+static char inherited[] = "inherited";
+
+/**
+ * element_document
+ * @param node an element
+ *
+ * @returns A new document with a copy of the element as the root
+ */
+static std::shared_ptr<xmlDoc> element_document(xmlNodePtr node) {
+
+    std::shared_ptr<xmlDoc> doc(xmlNewDoc(BAD_CAST "1.0"), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    if (doc == nullptr)
+        return doc;
+
+    xmlNodePtr root = xmlDocCopyNode(node, doc.get(), 1);
+    if (root == nullptr)
+        return std::shared_ptr<xmlDoc>();
+    xmlDocSetRootElement(doc.get(), root);
+
+    // the namespaces of the node come first, then those in use that are declared outside of it
+    xmlNs* source = node->nsDef;
+    for (xmlNs* ns = root->nsDef; ns; ns = ns->next) {
+        if (source && source->_private != inherited)
+            source = source->next;
+        else
+            ns->_private = inherited;
+    }
+
+    return doc;
+}
+
+/**
+ * replace_unit
+ * @param unit the unit
+ * @param nunit a unit that the transformation resulted in
+ *
+ * Replace the contents and the attributes of the unit
+ */
+static void replace_unit(srcml_unit* unit, srcml_unit* nunit) {
+
+    unit->srcml.swap(nunit->srcml);
+    unit->content_begin = nunit->content_begin;
+    unit->content_end = nunit->content_end;
+    unit->insert_begin = nunit->insert_begin;
+    unit->insert_end = nunit->insert_end;
+    unit->read_header = unit->read_body = true;
+
+    unit->language = nunit->language;
+    unit->revision = nunit->revision;
+    unit->filename = nunit->filename;
+    unit->url = nunit->url;
+    unit->version = nunit->version;
+    unit->timestamp = nunit->timestamp;
+    unit->hash = nunit->hash;
+    unit->attributes.swap(nunit->attributes);
+    unit->namespaces = nunit->namespaces;
+
+    // anything derived from the previous contents
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw = boost::none;
+    unit->srcml_raw_revision = boost::none;
+    unit->src = boost::none;
+}
+
 /**
  * srcml_unit_apply_transforms
  * @param iarchive an input srcml archive
@@ -536,114 +603,124 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     if (archive->transformations.empty())
         return SRCML_STATUS_OK;
 
-    srcml_transform_result* result = nullptr;
-    if (presult) {
-        *presult = new srcml_transform_result;
-        result = *presult;
-        result->type = SRCML_RESULT_NONE;
-        result->boolValue = false;
-    }
+    // result belongs to the caller, unless it replaces the unit
+    std::unique_ptr<srcml_transform_result, int(*)(srcml_transform_result*)> local(nullptr, srcml_transform_free);
+    srcml_transform_result* result = new srcml_transform_result;
+    result->type = SRCML_RESULT_NONE;
+    result->boolValue = false;
+    if (presult)
+        *presult = result;
+    else
+        local.reset(result);
+
+    // make sure that the body of the unit is read
+    const char* srcml = srcml_unit_get_srcml(unit);
+    if (srcml == nullptr)
+        return SRCML_STATUS_ERROR;
 
     // create a DOM of the unit
-    std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
-    if (doc == nullptr)
+    std::shared_ptr<xmlDoc> unitdoc(xmlReadMemory(srcml, (int) strlen(srcml), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    if (unitdoc == nullptr)
         return SRCML_STATUS_ERROR;
 
-    // apply transformations sequentially on the results from the previous transformation
-    std::unique_ptr<xmlNodeSet> fullresults(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc.get())));
-    if (fullresults == nullptr)
-        return SRCML_STATUS_ERROR;
+    // nodes, and the documents they are in
+    struct Item {
+        std::shared_ptr<xmlDoc> doc;
+        xmlNodePtr node;
+    };
+    std::vector<Item> items;
+    items.push_back({ unitdoc, xmlDocGetRootElement(unitdoc.get()) });
+
+    // freeing a node set accesses its nodes, so all documents are kept
+    std::vector<std::shared_ptr<xmlDoc>> docs;
+    std::vector<std::unique_ptr<xmlNodeSet>> nodesets;
 
-    // final result of all applied transformations
-    TransformationResult lastresult;
-    std::shared_ptr<xmlDoc> curdoc(doc);
+    // apply transformations sequentially on the results from the previous transformation
+    int type = SRCML_RESULT_NONE;
     for (const auto& trans : archive->transformations) {
 
-        // preserve the fullresults to iterate through
         // collect results from this transformation applied to the potentially multiple
         // results of the previous transformation step
-        std::unique_ptr<xmlNodeSet> pr(xmlXPathNodeSetCreate(0));
-        if (pr == nullptr)
-            return SRCML_STATUS_ERROR;
-        fullresults.swap(pr);
-
-        for (int i = 0; i < pr->nodeNr; ++i) {
+        std::vector<Item> results;
+        type = SRCML_RESULT_NONE;
+        for (const auto& item : items) {
+
+            // only elements can be transformed
+            if (item.node->type != XML_ELEMENT_NODE)
+                continue;
+
+            // each result is a document of its own
+            std::shared_ptr<xmlDoc> doc(item.doc);
+            if (item.node != xmlDocGetRootElement(doc.get()) || items.size() > 1)
+                doc = element_document(item.node);
+            if (doc == nullptr)
+                return SRCML_STATUS_ERROR;
+
+            docs.push_back(doc);
+
+            TransformationResult lastresult = trans->apply(doc.get(), 0);
+            if (lastresult.nodeType != SRCML_RESULT_NONE)
+                type = lastresult.nodeType;
+
+            // result of the transformation may be a new doc
+            if (lastresult.doc) {
+                doc = lastresult.doc;
+                docs.push_back(doc);
+            }
 
-            xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
+            if (lastresult.nodeType == SRCML_RESULT_UNITS && lastresult.nodeset) {
+                for (int i = 0; i < lastresult.nodeset->nodeNr; ++i) {
+                    xmlNodePtr node = lastresult.nodeset->nodeTab[i];
+                    if (node->type == XML_DOCUMENT_NODE)
+                        node = xmlDocGetRootElement(doc.get());
+                    results.push_back({ doc, node });
+                }
+            }
 
-            lastresult = trans->apply(curdoc.get(), 0);
-            std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
-            if (results == nullptr)
+            // update scalar values
+            switch (lastresult.nodeType) {
+            case SRCML_RESULT_STRING:
+                result->stringValue = lastresult.stringValue;
+                break;
+            case SRCML_RESULT_BOOLEAN:
+                result->boolValue = lastresult.boolValue;
                 break;
+            case SRCML_RESULT_NUMBER:
+                result->numberValue = lastresult.numberValue;
+                break;
+            }
 
-            xmlXPathNodeSetMerge(fullresults.get(), results.get());
+            nodesets.push_back(std::move(lastresult.nodeset));
         }
 
-        // necessary to avoid access to free'd memory later on
-        // does NOT cause a memory leak
-        pr->nodeNr = 0;
-
-        // result of the transformation may be a new doc
-        if (lastresult.doc && lastresult.doc.get() != doc.get()) {
-            curdoc = lastresult.doc;
-        }
+        items.swap(results);
+        if (!items.empty())
+            type = SRCML_RESULT_UNITS;
 
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
-        if (fullresults->nodeNr == 0) {
-            result->units.clear();
+        if (items.empty())
             break;
-        }
     }
 
-    if (result) {
-        result->type = lastresult.nodeType;
-    }
-
-    if (lastresult.nodeType != SRCML_RESULT_UNITS) {
-        // remove all nodes in the fullresults nodeset
-        // valgrind shows free accessing these nodes after they have been freed
-        // by the xmlDoc
-        fullresults->nodeNr = 0;
-    }
-
-    // handle non-nodeset results
-    switch (lastresult.nodeType) {
-    case SRCML_RESULT_STRING:
-        if (result != nullptr) {
-            result->stringValue = lastresult.stringValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
-
-    case SRCML_RESULT_BOOLEAN:
-        if (result != nullptr) {
-            result->boolValue = lastresult.boolValue;
-            return SRCML_STATUS_OK;
-        }
+    // result replaces the unit, so has to be a single unit
+    if (presult == nullptr && items.size() != 1)
         return SRCML_STATUS_ERROR;
 
-    case SRCML_RESULT_NUMBER:
-        if (result != nullptr) {
-            result->numberValue = lastresult.numberValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
-    };
-
-    if (result == nullptr) {
-        return SRCML_STATUS_OK;
-    }
+    result->type = type;
 
     // create units out of the transformation results
-    result->type = lastresult.nodeType;
+    for (size_t i = 0; i < items.size(); ++i) {
+
+        const xmlNodePtr node = items[i].node;
 
-    for (int i = 0; i < fullresults->nodeNr; ++i) {
+        // may be an entire unit, or a part of one
+        const bool unitWrapped = node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0;
 
         // create a new unit to store the results in
         auto nunit = srcml_unit_clone(unit);
         nunit->read_body = nunit->read_header = true;
-        if (!lastresult.unitWrapped) {
+        if (!unitWrapped) {
             nunit->attributes.push_back("item");
             nunit->attributes.push_back(std::to_string(i + 1));
             nunit->hash = boost::none;
@@ -665,24 +742,24 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         // special cases where the nodes are not written to the tree
-        switch (fullresults->nodeTab[i]->type) {
+        switch (node->type) {
         case XML_COMMENT_NODE:
 
             nunit->srcml.assign("<!--");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
+            nunit->srcml.append((const char*) node->content);
             nunit->srcml.append("-->");
             break;
 
         case XML_TEXT_NODE:
 
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
+            nunit->srcml.append((const char*) node->content);
             break;
 
         case XML_ATTRIBUTE_NODE:
 
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->name);
+            nunit->srcml.append((const char*) node->name);
             nunit->srcml.append("=\"");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->children->content);
+            nunit->srcml.append((const char*) node->children->content);
             nunit->srcml.append("\"");
             break;
 
@@ -696,14 +773,20 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
                 return len;
 
             }, 0, &(nunit->srcml), 0);
-            xmlNodeDumpOutput(output, curdoc.get(), fullresults->nodeTab[i], 0, 0, 0);
+            xmlNs** pinherited = &node->nsDef;
+            while (*pinherited && (*pinherited)->_private != inherited)
+                pinherited = &((*pinherited)->next);
+            xmlNs* inheritedns = *pinherited;
+            *pinherited = nullptr;
+            xmlNodeDumpOutput(output, items[i].doc.get(), node, 0, 0, 0);
+            *pinherited = inheritedns;
 
             // very important to flush to make sure the unit contents are all present
             // also performs a free of resources
             xmlOutputBufferClose(output);
 
             // update the cpp namespace if actually used
-            if (usesURI(fullresults->nodeTab[i], SRCML_CPP_NS_URI)) {
+            if (usesURI(node, SRCML_CPP_NS_URI)) {
 
                 if (itcpp != view.end()) {
                     view.modify(itcpp, [](Namespace& thisns){ thisns.flags |= NS_USED; });
@@ -713,7 +796,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             }
 
             // update the openmp namespace if actually used
-            if (usesURI(fullresults->nodeTab[i], SRCML_OPENMP_NS_URI)) {
+            if (usesURI(node, SRCML_OPENMP_NS_URI)) {
 
                 if (itomp != view.end()) {
                     view.modify(itomp, [](Namespace& thisns){ thisns.flags |= NS_USED; });
@@ -726,13 +809,13 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         // mark inside the units
-        nunit->content_begin = lastresult.unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
-        nunit->content_end =   lastresult.unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
+        nunit->content_begin = unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
+        nunit->content_end =   unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
         nunit->insert_begin = 0;
         nunit->insert_end = 0;
 
         // update the unit attributes with the transformed result based on the root tag
-        if (lastresult.unitWrapped) {
+        if (unitWrapped) {
             xmlSAXHandler roottagsax;
             memset(&roottagsax, 0, sizeof(roottagsax));
             roottagsax.initialized    = XML_SAX2_MAGIC;
@@ -778,10 +861,10 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         result->units.push_back(nunit);
     }
 
-    // remove all nodes in the fullresults nodeset
-    // valgrind shows free accessing these nodes after they have been freed
-    // by the xmlDoc
-    fullresults->nodeNr = 0;
+    // result replaces the unit
+    if (presult == nullptr) {
+        replace_unit(unit, result->units[0]);
+    }
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index cbaf66b..afcfa66 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -276,7 +276,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     }
 
     // register prefixes from the doc
-    for (auto p = doc->children->nsDef; p; p = p->next) {
+    for (auto p = xmlDocGetRootElement(doc)->nsDef; p; p = p->next) {
 
         xmlXPathRegisterNs(context.get(), p->prefix, p->href);
     }
-- 
2.43.0


From e199233df496faf2cffea229b125fd4c3d87836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 38/96] fix: text, attribute and namespace results of a
 transformation are not escaped, or crash

---
 src/libsrcml/srcml_transform.cpp | 53 ++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 6d0b8b0..52d9669 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -548,6 +548,36 @@ static std::shared_ptr<xmlDoc> element_document(xmlNodePtr node) {
     return doc;
 }
 
+/**
+ * append_escaped
+ * @param srcml the srcml of a unit
+ * @param text text of a node, not escaped
+ * @param attribute text is the value of an attribute
+ *
+ * Append the text as the content of a unit
+ */
+static void append_escaped(std::string& srcml, const xmlChar* text, bool attribute) {
+
+    for (; text && *text; ++text) {
+        switch (*text) {
+        case '&':
+            srcml += "&amp;";
+            break;
+        case '<':
+            srcml += "&lt;";
+            break;
+        case '>':
+            srcml += "&gt;";
+            break;
+        case '"':
+            srcml += attribute ? "&quot;" : "\"";
+            break;
+        default:
+            srcml += (char) *text;
+        }
+    }
+}
+
 /**
  * replace_unit
  * @param unit the unit
@@ -752,16 +782,35 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
         case XML_TEXT_NODE:
 
-            nunit->srcml.append((const char*) node->content);
+            append_escaped(nunit->srcml, node->content, false);
             break;
 
         case XML_ATTRIBUTE_NODE:
 
+            if (node->ns && node->ns->prefix) {
+                nunit->srcml.append((const char*) node->ns->prefix);
+                nunit->srcml.append(":");
+            }
             nunit->srcml.append((const char*) node->name);
             nunit->srcml.append("=\"");
-            nunit->srcml.append((const char*) node->children->content);
+            if (node->children)
+                append_escaped(nunit->srcml, node->children->content, true);
+            nunit->srcml.append("\"");
+            break;
+
+        case XML_NAMESPACE_DECL:
+        {
+            auto ns = (const xmlNs*) node;
+            nunit->srcml.append("xmlns");
+            if (ns->prefix) {
+                nunit->srcml.append(":");
+                nunit->srcml.append((const char*) ns->prefix);
+            }
+            nunit->srcml.append("=\"");
+            append_escaped(nunit->srcml, ns->href, true);
             nunit->srcml.append("\"");
             break;
+        }
 
         default:
 
-- 
2.43.0


From 8fdabcb5f36dc6e25f0a205941ed24a07e87b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 39/96] fix: attribute of an XPath transformation loses its
 namespace, is duplicated, and damages what is not an element

---
 src/libsrcml/srcml_transform.cpp     | 12 +++++---
 src/libsrcml/xpathTransformation.cpp | 44 ++++++++++++++++------------
 src/libsrcml/xpathTransformation.hpp |  8 ++---
 3 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 52d9669..0bbed7c 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -144,10 +144,14 @@ int srcml_append_transform_xpath_attribute(struct srcml_archive* archive, const
         auto p = dynamic_cast<xpathTransformation*>(archive->transformations.back().get());
         if (p && p->xpath == xpath_string && p->attr_prefix.empty() && p->attr_uri.empty() && p->attr_name.empty() && p->attr_value.empty()) {
 
-            p->attr_prefix = prefix;
-            p->attr_uri = namespace_uri;
-            p->attr_name = attr_name;
-            p->attr_value = attr_value;
+            // previous one may be shared with a clone of the archive, so it is replaced
+            const std::string element_prefix = p->prefix;
+            const std::string element_uri = p->uri;
+            const std::string element = p->element;
+            const bool has_element = !element.empty();
+            archive->transformations.back().reset(new xpathTransformation(archive, xpath_string,
+                has_element ? element_prefix.c_str() : 0, has_element ? element_uri.c_str() : 0, has_element ? element.c_str() : 0,
+                prefix, namespace_uri, attr_name, attr_value));
 
             return SRCML_STATUS_OK;
         }
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index afcfa66..7607d6e 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -160,29 +160,29 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
 /**
  * append_attribute_to_node
  * @param node an xmlNode to append the attribute
- * @param attr_name the attribute name
- * @param attr_value the attribute value
  *
- * Append an attribute to the given node.  Only the prefix and uri can vary.  The
- * rest are the same throughout all calls and are part of the class.
+ * Append an attribute to the given node.  The attribute is the same throughout
+ * all calls and is part of the class.
  */
-void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const {
+void xpathTransformation::append_attribute_to_node(xmlNodePtr node) const {
 
-    // grab current value
-    const char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
-    const char* newvalue = attr_value.c_str();
+    // only elements have attributes
+    if (node == nullptr || node->type != XML_ELEMENT_NODE)
+        return;
 
     // previous property
-    std::string curvalue;
-    if (value && strcmp(value, newvalue)) {
+    std::string newvalue = attr_value;
+    xmlChar* value = xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri.c_str());
+    if (value && attr_value != (const char*) value) {
 
-        curvalue = value;
-        curvalue += ' ';
-        curvalue += attr_value;
-        newvalue = curvalue.c_str();
+        newvalue = (const char*) value;
+        newvalue += ' ';
+        newvalue += attr_value;
     }
+    xmlFree(value);
 
-    xmlNewNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+    // replaces any previous property
+    xmlSetNsProp(node, attr_ns, BAD_CAST attr_name.c_str(), BAD_CAST newvalue.c_str());
 }
 
 xmlXPathContextPtr xpathTransformation::createContext(xmlDocPtr doc) const {
@@ -327,7 +327,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
 
                 xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-                append_attribute_to_node(onode, attr_prefix.c_str(), attr_value.c_str());
+                append_attribute_to_node(onode);
             }
         }
         tresult.unitWrapped = true;
@@ -366,12 +366,17 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
         xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
+        // only what is in the content can be put into an element
+        if (onode->type == XML_DOCUMENT_NODE)
+            onode = a_node;
+        if (onode->type == XML_ATTRIBUTE_NODE || onode->type == XML_NAMESPACE_DECL)
+            continue;
+
         // set up node to insert
         xmlNodePtr element_node = xmlNewNode(element_ns, (const xmlChar*) element.c_str());
 
         if (!attr_name.empty())
-            append_attribute_to_node(element_node, !attr_uri.empty() ? attr_prefix.c_str() : prefix.c_str(),
-                !attr_uri.empty() ? attr_uri.c_str() : uri.c_str());
+            append_attribute_to_node(element_node);
 
         // result node is not a unit
         if (a_node != onode) {
@@ -384,6 +389,9 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
             element_node->children = onode->children;
             element_node->last = onode->last;
+            for (xmlNodePtr child = onode->children; child; child = child->next)
+                child->parent = element_node;
+            xmlSetTreeDoc(element_node, doc);
             element_node->parent = onode;
             element_node->next = 0;
             element_node->prev = 0;
diff --git a/src/libsrcml/xpathTransformation.hpp b/src/libsrcml/xpathTransformation.hpp
index b9fa954..b9ee1b1 100644
--- a/src/libsrcml/xpathTransformation.hpp
+++ b/src/libsrcml/xpathTransformation.hpp
@@ -118,13 +118,11 @@ public :
     /**
      * append_attribute_to_node
      * @param node an xmlNode to append the attribute
-     * @param attr_name the attribute name
-     * @param attr_value the attribute value
      *
-     * Append an attribute to the given node.  Only the prefix and uri can vary.  The
-     * rest are the same throughout all calls and are part of the class.
+     * Append an attribute to the given node.  The attribute is the same throughout
+     * all calls and is part of the class.
      */
-    void append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const;
+    void append_attribute_to_node(xmlNodePtr node) const;
 
 #pragma GCC diagnostic push
 
-- 
2.43.0


From aff032268db5f09da3d631f56525594536c78338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 40/96] fix: parameter of a transformation is also changed for
 clones of the archive

---
 src/libsrcml/Transformation.hpp     |  7 +++++++
 src/libsrcml/srcml_transform.cpp    | 20 ++++++++++++++++++++
 src/libsrcml/xsltTransformation.cpp | 28 +++++++++++++++++++++++++---
 src/libsrcml/xsltTransformation.hpp | 14 +++++++++++++-
 4 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 5c1385b..b883f25 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -61,6 +61,13 @@ public :
      */
     virtual TransformationResult apply(xmlDocPtr doc, int position) const = 0;
 
+    /**
+     * clone
+     *
+     * @returns copy for which the parameters can be changed, NULL when there are none to change
+     */
+    virtual Transformation* clone() const { return nullptr; }
+
     virtual ~Transformation() {}
 
       /** XSLT parameters */
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 0bbed7c..711e041 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -424,6 +424,22 @@ int srcml_append_transform_relaxng_fd(srcml_archive* archive, int relaxng_fd) {
     return srcml_append_transform_relaxng_internal(archive, doc.get());
 }
 
+/**
+ * unshare_last_transform
+ * @param archive a srcml archive
+ *
+ * The last transformation may be shared with a clone of the archive, whose parameters stay as they are
+ */
+static void unshare_last_transform(srcml_archive* archive) {
+
+    auto& last = archive->transformations.back();
+    if (last.use_count() > 1) {
+        auto copy = last->clone();
+        if (copy)
+            last.reset(copy);
+    }
+}
+
 /**
  * srcml_append_transform_param
  * @param archive a srcml archive
@@ -441,6 +457,8 @@ int srcml_append_transform_param(srcml_archive* archive, const char* xpath_param
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
+    unshare_last_transform(archive);
+
     archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
     archive->transformations.back()->xsl_parameters.push_back(xpath_param_value);
 
@@ -464,6 +482,8 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
+    unshare_last_transform(archive);
+
     archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
 
     std::string parenvalue = "\"";
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index f87dba6..58550d6 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -117,8 +117,9 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ std::unique_p
     exsltRegisterAll();
 
     // parse the stylesheet
-    stylesheet = xsltParseStylesheetDoc(xslt.get());
+    stylesheet = std::shared_ptr<xsltStylesheet>(xsltParseStylesheetDoc(xslt.get()), xsltFreeStylesheet);
     if (!stylesheet) {
+        stylesheet.reset();
 #ifdef DLLOAD
         dlclose(libxslt_handle);
         dlclose(libexslt_handle);
@@ -132,6 +133,27 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ std::unique_p
     ++instances;
 }
 
+/**
+ * xsltTransformation
+ * @param other another XSLT transformation
+ *
+ * Copy constructor. Stylesheet is shared.
+ */
+xsltTransformation::xsltTransformation(const xsltTransformation& other)
+        : Transformation(other), stylesheet(other.stylesheet), params(other.params) {
+
+#ifdef DLLOAD
+    libxslt_handle = dlopen_libxslt();
+    libexslt_handle = dlopen_libexslt();
+    xsltApplyStylesheetUser = other.xsltApplyStylesheetUser;
+    xsltParseStylesheetDoc = other.xsltParseStylesheetDoc;
+    xsltCleanupGlobals = other.xsltCleanupGlobals;
+    xsltFreeStylesheet = other.xsltFreeStylesheet;
+#endif
+
+    ++instances;
+}
+
 /**
  * ~xsltTransformation
  *
@@ -139,7 +161,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ std::unique_p
  */
 xsltTransformation::~xsltTransformation() {
 
-    xsltFreeStylesheet(stylesheet);
+    stylesheet.reset();
 
     // extension functions are shared by all the XSLT transformations
     if (--instances == 0)
@@ -168,7 +190,7 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
     cparams.back() = 0;
 
     // apply the style sheet to the document, which is the individual unit
-    std::shared_ptr<xmlDoc> res(xsltApplyStylesheetUser(stylesheet, doc, cparams.data(), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    std::shared_ptr<xmlDoc> res(xsltApplyStylesheetUser(stylesheet.get(), doc, cparams.data(), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
     if (!res) {
         fprintf(stderr, "libsrcml:  Error in applying stylesheet\n");
 
diff --git a/src/libsrcml/xsltTransformation.hpp b/src/libsrcml/xsltTransformation.hpp
index 3455965..a9854a0 100644
--- a/src/libsrcml/xsltTransformation.hpp
+++ b/src/libsrcml/xsltTransformation.hpp
@@ -74,6 +74,18 @@ public :
      */
     xsltTransformation(/*OPTION_TYPE& options,*/ std::unique_ptr<xmlDoc> xslt, const std::vector<std::string>& params);
 
+    /**
+     * xsltTransformation
+     * @param other another XSLT transformation
+     *
+     * Copy constructor. Stylesheet is shared.
+     */
+    xsltTransformation(const xsltTransformation& other);
+
+    xsltTransformation& operator=(const xsltTransformation&) = delete;
+
+    virtual Transformation* clone() const { return new xsltTransformation(*this); }
+
     /**
      * ~xsltTransformation
      *
@@ -91,7 +103,7 @@ public :
     virtual TransformationResult apply(xmlDocPtr doc, int position) const;
 
 private :
-    xsltStylesheetPtr stylesheet = nullptr;
+    std::shared_ptr<xsltStylesheet> stylesheet;
     const std::vector<std::string> params;
 #ifdef DLLOAD
     void* libxslt_handle = nullptr;
-- 
2.43.0


From e09f5114ec32300598a3a79d9da655a81b6c13c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 41/96] fix: units validated at the same time share the state
 of the validation

---
 src/libsrcml/relaxngTransformation.cpp | 9 +++++----
 src/libsrcml/relaxngTransformation.hpp | 1 -
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index 034665f..a664cb5 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -41,10 +41,6 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
         throw std::invalid_argument("RelaxNG schema");
-
-    rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
-    if (rngctx == nullptr)
-        throw std::invalid_argument("RelaxNG schema");
 }
 
 /**
@@ -56,6 +52,11 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
  */
 TransformationResult relaxngTransformation::relaxngTransformation::apply(xmlDocPtr doc, int /* position */) const {
 
+    // units may be validated at the same time, so each has its own context
+    std::unique_ptr<xmlRelaxNGValidCtxt> rngctx(xmlRelaxNGNewValidCtxt(rng.get()));
+    if (rngctx == nullptr)
+        return TransformationResult();
+
     // 0 means it validated
     int n = xmlRelaxNGValidateDoc(rngctx.get(), doc);
     if (n != 0)
diff --git a/src/libsrcml/relaxngTransformation.hpp b/src/libsrcml/relaxngTransformation.hpp
index 2a0d665..a95b36b 100644
--- a/src/libsrcml/relaxngTransformation.hpp
+++ b/src/libsrcml/relaxngTransformation.hpp
@@ -63,7 +63,6 @@ public :
     virtual TransformationResult apply(xmlDocPtr doc, int position) const;
 
 private :
-    std::unique_ptr<xmlRelaxNGValidCtxt> rngctx;
     std::unique_ptr<xmlRelaxNGParserCtxt> relaxng_parser_ctxt;
     std::unique_ptr<xmlRelaxNG> rng;
 };
-- 
2.43.0


From 937bd83aa8333b08eb5c3b5ac29922f6d6a31efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 42/96] fix: prefix of a unit attribute is lost when reading

---
 src/libsrcml/srcml_reader_handler.hpp | 2 ++
 src/libsrcml/unit_utilities.cpp       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index f7eff09..c95256c 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -271,6 +271,8 @@ public :
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
             std::string attribute = (const char*) attributes[pos * 5];
+            if (attributes[pos * 5 + 1])
+                attribute.insert(0, std::string((const char*) attributes[pos * 5 + 1]) + ":");
             std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
 
             // Note: these are ignore instead of placing in attributes.
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index e011970..1157cc4 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -31,6 +31,8 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     for (int pos = 0; pos < num_attributes; ++pos) {
 
         std::string attribute = (const char*) attributes[pos * 5];
+        if (attributes[pos * 5 + 1])
+            attribute.insert(0, std::string((const char*) attributes[pos * 5 + 1]) + ":");
         std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
 
         if (attribute == "timestamp")
-- 
2.43.0


From bf5970f1292ff93cb6361604934a73099acaf7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 43/96] fix: text produced by an XSLT program is escaped

---
 src/libsrcml/xsltTransformation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 58550d6..ab75c2d 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -226,8 +226,9 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
 
     // text result
     if (result.nodeType == SRCML_RESULT_STRING) {
-        auto str = (char*) xmlNodeListGetRawString(res.get(), res->children, 0);
-        result.stringValue = str;
+        auto str = (char*) xmlNodeListGetString(res.get(), res->children, 1);
+        if (str)
+            result.stringValue = str;
         xmlFree(str);
     }
     return result;
-- 
2.43.0


From 07c60e7998975db277f9064b10f83c2dab82a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 44/96] fix: parameter set twice for a transformation loses all
 its results

---
 src/libsrcml/srcml_transform.cpp | 35 ++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 711e041..1288ba0 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -440,6 +440,30 @@ static void unshare_last_transform(srcml_archive* archive) {
     }
 }
 
+/**
+ * set_last_transform_param
+ * @param archive a srcml archive
+ * @param name name of a parameter
+ * @param value XPath expression for the value
+ *
+ * Set the parameter of the last transformation. A second value for the same parameter replaces the first one
+ */
+static void set_last_transform_param(srcml_archive* archive, const char* name, const std::string& value) {
+
+    unshare_last_transform(archive);
+
+    auto& params = archive->transformations.back()->xsl_parameters;
+    for (size_t i = 0; i + 1 < params.size(); i += 2) {
+        if (params[i] == name) {
+            params[i + 1] = value;
+            return;
+        }
+    }
+
+    params.push_back(name);
+    params.push_back(value);
+}
+
 /**
  * srcml_append_transform_param
  * @param archive a srcml archive
@@ -457,10 +481,7 @@ int srcml_append_transform_param(srcml_archive* archive, const char* xpath_param
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
-    unshare_last_transform(archive);
-
-    archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
-    archive->transformations.back()->xsl_parameters.push_back(xpath_param_value);
+    set_last_transform_param(archive, xpath_param_name, xpath_param_value);
 
     return SRCML_STATUS_OK;
 }
@@ -482,15 +503,11 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
-    unshare_last_transform(archive);
-
-    archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
-
     std::string parenvalue = "\"";
     parenvalue += xpath_param_value;
     parenvalue += "\"";
 
-    archive->transformations.back()->xsl_parameters.push_back(parenvalue);
+    set_last_transform_param(archive, xpath_param_name, parenvalue);
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From c95a0397a9a0ea0fad4e76dd84acbcf16faf53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 45/96] fix: string parameter with a quote is not the string

---
 src/libsrcml/srcml_transform.cpp | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 1288ba0..e435b00 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -464,6 +464,33 @@ static void set_last_transform_param(srcml_archive* archive, const char* name, c
     params.push_back(value);
 }
 
+/**
+ * xpath_string_literal
+ * @param value a string
+ *
+ * @returns XPath expression for the string. XPath has no escape for a quote, so a string with quotes
+ * may need the other one, or more than one literal
+ */
+static std::string xpath_string_literal(const std::string& value) {
+
+    if (value.find('"') == std::string::npos)
+        return "\"" + value + "\"";
+    if (value.find('\'') == std::string::npos)
+        return "'" + value + "'";
+
+    std::string expression = "concat(\"\"";
+    size_t start = 0;
+    while (start <= value.size()) {
+        size_t end = std::min(value.find('"', start), value.size());
+        expression += ", \"" + value.substr(start, end - start) + "\"";
+        if (end != value.size())
+            expression += ", '\"'";
+        start = end + 1;
+    }
+
+    return expression + ")";
+}
+
 /**
  * srcml_append_transform_param
  * @param archive a srcml archive
@@ -503,11 +530,7 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
     if (archive->transformations.size() == 0)
         return SRCML_STATUS_NO_TRANSFORMATION;
 
-    std::string parenvalue = "\"";
-    parenvalue += xpath_param_value;
-    parenvalue += "\"";
-
-    set_last_transform_param(archive, xpath_param_name, parenvalue);
+    set_last_transform_param(archive, xpath_param_name, xpath_string_literal(xpath_param_value));
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From e524f6bb120f82adbcb1c7619c806fbd1874ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 46/96] fix: tab stop of a document with positions is read as
 an attribute

---
 src/libsrcml/srcml_reader_handler.hpp | 4 +++-
 src/libsrcml/unit_utilities.cpp       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index c95256c..3203f5e 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -271,7 +271,9 @@ public :
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
             std::string attribute = (const char*) attributes[pos * 5];
-            if (attributes[pos * 5 + 1])
+            // the prefix of the tab stop depends on the document
+            bool is_tabs = attribute == "tabs" && attributes[pos * 5 + 2] && strcmp((const char*) attributes[pos * 5 + 2], SRCML_POSITION_NS_URI) == 0;
+            if (attributes[pos * 5 + 1] && !is_tabs)
                 attribute.insert(0, std::string((const char*) attributes[pos * 5 + 1]) + ":");
             std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
 
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 1157cc4..93552e7 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -31,7 +31,9 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     for (int pos = 0; pos < num_attributes; ++pos) {
 
         std::string attribute = (const char*) attributes[pos * 5];
-        if (attributes[pos * 5 + 1])
+        // the prefix of the tab stop depends on the document
+        bool is_tabs = attribute == "tabs" && attributes[pos * 5 + 2] && strcmp((const char*) attributes[pos * 5 + 2], SRCML_POSITION_NS_URI) == 0;
+        if (attributes[pos * 5 + 1] && !is_tabs)
             attribute.insert(0, std::string((const char*) attributes[pos * 5 + 1]) + ":");
         std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
 
-- 
2.43.0


From 04f94b326009b3b42ccdbf75523a7408e00b31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 47/96] fix: unit written to another archive uses namespaces
 that are not declared

---
 src/parser/srcMLOutput.cpp | 36 ++++++++++++++++++++++++------------
 src/parser/srcMLOutput.hpp |  4 ++++
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 8d5901d..57b2654 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -260,31 +260,43 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
 
     for (const auto& ns : namespaces) {
 
+        bool output = false;
+
         // output standard namespaces for outer unit or non-archive unit
         if (depth == 0 || !isoption(options, SRCML_OPTION_ARCHIVE)) {
 
             // must be required, or on the root and used
-            if ((ns.flags & NS_STANDARD) && ((ns.flags & NS_REQUIRED) || ((ns.flags & NS_ROOT) && (ns.flags & NS_USED)))) {
-                srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
+            if ((ns.flags & NS_STANDARD) && ((ns.flags & NS_REQUIRED) || ((ns.flags & NS_ROOT) && (ns.flags & NS_USED))))
+                output = true;
 
             // must be user registered
-            if (ns.flags & NS_REGISTERED && !(ns.flags & NS_STANDARD)) {
-                srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
+            if (ns.flags & NS_REGISTERED && !(ns.flags & NS_STANDARD))
+                output = true;
         }
 
         // output standard namespaces for inner unit or non-archive unit
         if (depth == 1 || !isoption(options, SRCML_OPTION_ARCHIVE)) {
 
             // must be required, must not be on the root, and must be used
-            if ((ns.flags & NS_STANDARD) && !(ns.flags & NS_ROOT) && !(ns.flags & NS_REQUIRED) && (ns.flags & NS_USED)) {
-                srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
+            if ((ns.flags & NS_STANDARD) && !(ns.flags & NS_ROOT) && !(ns.flags & NS_REQUIRED) && (ns.flags & NS_USED))
+                output = true;
         }
+
+        // the unit may be from an archive with other namespaces than the root of this one
+        if (depth == 1 && isoption(options, SRCML_OPTION_ARCHIVE) && (ns.flags & (NS_REQUIRED | NS_USED | NS_REGISTERED))) {
+
+            auto declared = root_namespaces.find(ns.prefix);
+            if (!root_namespaces.empty() && (declared == root_namespaces.end() || declared->second != ns.uri))
+                output = true;
+        }
+
+        if (!output)
+            continue;
+
+        srcMLTextWriterWriteNamespace(xout, ns);
+
+        if (depth == 0 && isoption(options, SRCML_OPTION_ARCHIVE))
+            root_namespaces[ns.prefix] = ns.uri;
     }
 }
 
diff --git a/src/parser/srcMLOutput.hpp b/src/parser/srcMLOutput.hpp
index 2e12837..417f202 100644
--- a/src/parser/srcMLOutput.hpp
+++ b/src/parser/srcMLOutput.hpp
@@ -33,6 +33,7 @@
 #include "StreamMLParser.hpp"
 #include "TokenStream.hpp"
 #include "srcMLException.hpp"
+#include <map>
 #include <string>
 #include <unordered_map>
 #include "srcmlns.hpp"
@@ -170,6 +171,9 @@ public:
     /* namespaces declared and used */
     Namespaces namespaces;
 
+    /* namespaces declared by the root of an archive */
+    std::map<std::string, std::string> root_namespaces;
+
     /** an array of name-value attribute pairs */
     const std::vector<std::string> unit_attributes;
 
-- 
2.43.0


From 95dff1e01743d7baf76e4a6d9ae8e867bb50b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 48/96] fix: srcML views damaged by text in attributes,
 repeated or differently placed namespace declarations

---
 src/libsrcml/sax2_srcsax_handler.cpp | 73 ++++++++++++++++------------
 src/libsrcml/sax2_srcsax_handler.hpp |  2 +-
 src/libsrcml/srcml_unit.cpp          | 48 ++++++------------
 src/libsrcml/unit_utilities.cpp      | 39 +++++++++++++++
 src/libsrcml/unit_utilities.hpp      | 11 +++++
 5 files changed, 108 insertions(+), 65 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 786f587..0006f23 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -22,6 +22,7 @@
 
 #include <sax2_srcsax_handler.hpp>
 #include <srcmlns.hpp>
+#include <unit_utilities.hpp>
 #include <string>
 #include <algorithm>
 #include <cstring>
@@ -271,25 +272,26 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     // record namespace string in an extensible list so we can add the per unit
     if (state->collect_unit_body) {
 
-        int ns_length = nb_namespaces * 2;
-        for (int i = 0; i < ns_length; i += 2) {
+        for (int i = 0; i < nb_namespaces; ++i) {
 
-            state->rootnsstr += "xmlns";
-            if (namespaces[i]) {
-                state->rootnsstr += ":";
-                state->rootnsstr += (const char*) namespaces[i];
+            std::string declaration = "xmlns";
+            if (namespaces[i * 2]) {
+                declaration += ":";
+                declaration += (const char*) namespaces[i * 2];
             }
-            state->rootnsstr += "=\"";
-            for (const char* p = (const char*) namespaces[i + 1]; *p; ++p) {
+            declaration += "=\"";
+            for (const char* p = (const char*) namespaces[i * 2 + 1]; *p; ++p) {
                 switch (*p) {
-                case '<': state->rootnsstr += "&lt;"; break;
-                case '>': state->rootnsstr += "&gt;"; break;
-                case '&': state->rootnsstr += "&amp;"; break;
-                case '"': state->rootnsstr += "&quot;"; break;
-                default: state->rootnsstr += *p;
+                case '<': declaration += "&lt;"; break;
+                case '>': declaration += "&gt;"; break;
+                case '&': declaration += "&amp;"; break;
+                case '"': declaration += "&quot;"; break;
+                default: declaration += *p;
                 }
             }
-            state->rootnsstr += "\" ";
+            declaration += "\"";
+
+            state->rootns.emplace_back(namespaces[i * 2] ? (const char*) namespaces[i * 2] : "", std::move(declaration));
         }
     }
 
@@ -441,26 +443,35 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (true || state->collect_unit_body) {
 
         // find end of unit tag name, e.g., end of "<unit" or "<src:unit"
-        int pos = (int) (1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0) + 1);
-
-        if (pos >= 0) {
-            // merge the namespaces from the root into this one
-            state->unitsrcml.reserve(ctxt->input->cur - state->base + 1 + (state->context->is_archive ? state->rootnsstr.size() : 0));
-            state->unitsrcml.assign((const char*) state->base, pos);
-            state->insert_begin = (int) state->unitsrcml.size();
-            if (state->context->is_archive) {
-                state->unitsrcml.append(state->rootnsstr);
-                state->insert_end = (int) state->unitsrcml.size();
+        int pos = (int) (1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0));
+
+        state->unitsrcml.assign((const char*) state->base, pos);
+        state->insert_begin = state->insert_end = (int) state->unitsrcml.size();
+
+        // merge the namespaces from the root into this one, except for those declared again
+        if (state->context->is_archive) {
+            for (const auto& ns : state->rootns) {
+
+                bool declared = false;
+                for (int i = 0; i < nb_namespaces; ++i)
+                    declared = declared || ns.first == (namespaces[i * 2] ? (const char*) namespaces[i * 2] : "");
+                if (declared)
+                    continue;
+
+                state->unitsrcml += ' ';
+                state->unitsrcml += ns.second;
             }
+            state->insert_end = (int) state->unitsrcml.size();
+        }
 
-            state->unitsrcml.append((const char*) state->base + pos, ctxt->input->cur - state->base + 1 - pos);
+        state->unitsrcml.append((const char*) state->base + pos, ctxt->input->cur - state->base + 1 - pos);
 
-            if (!state->context->is_archive) {
-                std::string& s = state->unitsrcml;
-                auto pos = s.find("xmlns");
-                auto firstquote = s.find("\"", pos + 1);
-                auto secondquote = s.find("\"", firstquote + 1);
-                state->insert_end = (int) secondquote + 2;
+        if (!state->context->is_archive) {
+            size_t begin = 0;
+            size_t end = 0;
+            if (find_srcml_namespace(state->unitsrcml, begin, end)) {
+                state->insert_begin = (int) begin;
+                state->insert_end = (int) end;
             }
         }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 3f4c9f8..94e180d 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -83,7 +83,7 @@ struct sax2_srcsax_handler {
 
     bool callupper = true;
 
-    std::string rootnsstr;
+    std::vector<std::pair<std::string, std::string>> rootns;
     std::string rootstarttag;
 
     int content_begin = 0;
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 4cd3270..07d0bef 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -382,35 +382,17 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     // construct the fragment from the full srcML, excluding the inserted root tag stuff (including namespaces)
     if (!unit->srcml_fragment) {
 
-        // find end of unit tag, e.g., end of "<unit ...>" or "<src:unit ...>"
-        std::string prefix = "";
-        auto pos = unit->srcml.find(">");
-
-        int insert_attr_begin = 0;
-        int insert_attr_end = 0;
-
-        if (pos != std::string::npos) {
-            // find url attribute
-            std::string s(unit->srcml, 0, pos);
-            auto pos2 = s.find(" url=");
-            if (pos2 != std::string::npos) {
-                insert_attr_begin = (int) pos2;
-                pos2 += 6;
-                auto pos3 = s.find("\"", pos2);
-                pos3 += 1;
-                insert_attr_end = (int) pos3;
-            }
-        }
-
         unit->srcml_fragment = "";
         unit->srcml_fragment->reserve(rawsize);
         unit->srcml_fragment->assign(unit->srcml, 0, unit->insert_begin);
-        if (insert_attr_begin == 0) {
-            unit->srcml_fragment->append(unit->srcml, unit->insert_end, unit->srcml.size() - unit->insert_end);
-        } else {
-            unit->srcml_fragment->append(unit->srcml, unit->insert_end, insert_attr_begin - unit->insert_end);
-            unit->srcml_fragment->append(unit->srcml, insert_attr_end, unit->srcml.size() - insert_attr_end);
-        }
+        unit->srcml_fragment->append(unit->srcml, unit->insert_end, unit->srcml.size() - unit->insert_end);
+
+        // the url is only on a unit which is the root
+        size_t begin = 0;
+        size_t end = 0;
+        if (unit->content_begin > 0 && find_start_tag_attribute(*unit->srcml_fragment,
+                [](const std::string& name, const std::string&) { return name == "url"; }, begin, end))
+            unit->srcml_fragment->erase(begin, end - begin);
     }
 
     // if srcdiff versioned, then use that
@@ -991,13 +973,13 @@ static int srcml_write_start_tag(struct srcml_unit* unit) {
     xmlTextWriterFlush(unit->unit_translator->output_textwriter());
     unit->content_begin = unit->unit_translator->output_buffer()->written + 1;
 
-    // record end of content (after xmlns for srcML)
-    const char* s = (const char*) xmlBufferContent(unit->output_buffer);
-    auto pos = strstr(s, "xmlns") - s;
-    unit->insert_begin = (int) pos;
-    auto firstquote = strchr(s + pos + 1, '\"') - s;
-    auto secondquote = strchr(s + firstquote + 1, '\"') - s;
-    unit->insert_end = (int) secondquote + 2;
+    // record the declaration of the srcML namespace
+    size_t begin = 0;
+    size_t end = 0;
+    if (!find_srcml_namespace((const char*) xmlBufferContent(unit->output_buffer), begin, end))
+        begin = end = 0;
+    unit->insert_begin = (int) begin;
+    unit->insert_end = (int) end;
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 93552e7..32b4d1c 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -72,6 +72,45 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     }
 }
 
+bool find_start_tag_attribute(const std::string& xml, std::function<bool(const std::string& name, const std::string& value)> match,
+                              size_t& begin, size_t& end) {
+
+    const char* const WHITESPACE = " \t\r\n";
+
+    // past the name of the element
+    size_t pos = xml.find_first_of(" \t\r\n/>");
+    while (pos != std::string::npos) {
+
+        begin = pos;
+        pos = xml.find_first_not_of(WHITESPACE, pos);
+        if (pos == std::string::npos || xml[pos] == '/' || xml[pos] == '>')
+            return false;
+
+        const size_t name_end = xml.find_first_of(" \t\r\n=", pos);
+        const size_t quote = xml.find_first_of("\"'", name_end);
+        if (quote == std::string::npos)
+            return false;
+        const size_t endquote = xml.find(xml[quote], quote + 1);
+        if (endquote == std::string::npos)
+            return false;
+
+        end = endquote + 1;
+        if (match(xml.substr(pos, name_end - pos), xml.substr(quote + 1, endquote - quote - 1)))
+            return true;
+
+        pos = end;
+    }
+
+    return false;
+}
+
+bool find_srcml_namespace(const std::string& xml, size_t& begin, size_t& end) {
+
+    return find_start_tag_attribute(xml, [](const std::string& name, const std::string& value) {
+        return (name == "xmlns" || name.compare(0, 6, "xmlns:") == 0) && is_srcml_namespace(value.c_str(), SRCML_SRC_NS_URI);
+    }, begin, end);
+}
+
 enum { INSERT, DELETE, COMMON};
 
 std::string extract_revision(const char* srcml, int size, int revision, bool text_only) {
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 31a6b6b..603b8b1 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -27,6 +27,17 @@
 #include <srcml.h>
 #include <libxml/parser.h>
 
+#include <functional>
+#include <string>
+
+// Find an attribute (or namespace declaration) in the start tag that the XML starts with
+// The range includes the whitespace before the attribute
+bool find_start_tag_attribute(const std::string& xml, std::function<bool(const std::string& name, const std::string& value)> match,
+                              size_t& begin, size_t& end);
+
+// Find the declaration of the srcML namespace in the start tag that the XML starts with
+bool find_srcml_namespace(const std::string& xml, size_t& begin, size_t& end);
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
-- 
2.43.0


From 0875543ef8cc93e5fa73c2cac8ba284cb8f61c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 49/96] fix: archive without units is read as one with an empty
 unit

---
 src/libsrcml/sax2_srcsax_handler.cpp | 14 ++++++++++++--
 src/libsrcml/sax2_srcsax_handler.hpp |  2 ++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 0006f23..0918591 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -299,11 +299,16 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     SRCSAX_DEBUG_END(localname);
 
+    // every unit has a language, so a root without is that of an archive
+    for (int i = 0; i < nb_attributes; ++i)
+        if (strcmp((const char*) attributes[i * 5], "language") == 0 || strcmp((const char*) attributes[i * 5], "filename") == 0)
+            state->root_is_unit = true;
+
     // for empty units we need to call the upper-level handling
     // and not delay it
     bool isempty = ctxt->input->cur[0] == '/';
     if (isempty)
-        state->context->is_archive = false;
+        state->context->is_archive = !state->root_is_unit;
 
     // call the upper-level start_root when an empty element
     if (isempty) {
@@ -570,12 +575,17 @@ void end_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
 
     if (!state->rootcalled) {
 
+        // archive without any units
+        if (!state->root_is_unit && state->unitsrc.find_first_not_of(" \t\r\n") == std::string::npos)
+            state->context->is_archive = true;
+
         // call the delayed upper-level callbacks for starting a root and a unit
         // waited because we did not know yet if this was an archive
         // Basically, reparse the root start tag, collected when first parsed
         reparse_root(ctx);
 
-        state->context->handler->end_unit(state->context, (const char *)localname, (const char *)prefix, (const char *)URI);
+        if (!state->context->is_archive)
+            state->context->handler->end_unit(state->context, (const char *)localname, (const char *)prefix, (const char *)URI);
     }
 
     state->context->handler->end_root(state->context, (const char *)localname, (const char *)prefix, (const char *)URI);
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 94e180d..2055b74 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -97,6 +97,8 @@ struct sax2_srcsax_handler {
 
     bool rootcalled = false;
 
+    bool root_is_unit = false;
+
     // libxml2 places elements into the dictionary of the parser
     // once initialized, can compare pointers instead of strings
     const xmlChar* unit_entry = nullptr;
-- 
2.43.0


From 109e08d43c61d7b7ed5b5370808b1b65e36aca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 50/96] fix: namespaces declared by a unit of an archive are
 lost when reading

---
 src/libsrcml/sax2_srcsax_handler.cpp  |  8 ------
 src/libsrcml/sax2_srcsax_handler.hpp  |  2 --
 src/libsrcml/srcml_reader_handler.hpp | 36 +++++++++++++--------------
 3 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 0918591..4a335f5 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -429,14 +429,6 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (state == nullptr)
         return;
 
-    // collect cpp prefix
-    for (int i = 0; i < nb_namespaces; ++i) {
-
-        if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
-        }
-    }
-
     update_ctx(ctx);
 
     SRCSAX_DEBUG_START(localname);
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 2055b74..68ccefd 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -93,8 +93,6 @@ struct sax2_srcsax_handler {
 
     int loc = 0;
 
-    boost::optional<std::string> cpp_prefix;
-
     bool rootcalled = false;
 
     bool root_is_unit = false;
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 3203f5e..7f79017 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -385,6 +385,24 @@ public :
         // collect attributes
         unit_update_attributes(unit, num_attributes, attributes);
 
+        // collect the namespaces of the unit
+        if (num_namespaces > 0 && !unit->namespaces)
+            unit->namespaces = default_namespaces;
+        for (int pos = 0; pos < num_namespaces; ++pos) {
+
+            std::string nsprefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
+            std::string uri = (const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "";
+
+            srcml_uri_normalize(uri);
+
+            auto&& view = unit->namespaces->get<nstags::uri>();
+            auto it = view.find(uri);
+            if (it != view.end())
+                view.modify(it, [&nsprefix](Namespace& thisns){ thisns.prefix = nsprefix; thisns.flags |= NS_USED; });
+            else
+                unit->namespaces->push_back({ nsprefix, uri, NS_REGISTERED | NS_USED });
+        }
+
         auto ctxt = (xmlParserCtxtPtr) get_controller().getContext()->libxml2_context;
         auto state = (sax2_srcsax_handler*) ctxt->_private;
 
@@ -473,24 +491,6 @@ public :
             unit->src = std::move(state->unitsrc);
             unit->loc = state->loc;
 
-            // update provisional cpp prefix
-            if (state->cpp_prefix) {
-
-                // namespaces probably aren't create yet
-                if (!unit->namespaces) {
-                    unit->namespaces = default_namespaces;
-                }
-
-                // set the found prefix, plus mark it as used
-                auto&& view = unit->namespaces->get<nstags::uri>();
-                auto it = view.find(SRCML_CPP_NS_URI);
-                if (it != view.end()) {
-                    view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
-                } else {
-                    unit->namespaces->push_back({ state->cpp_prefix->c_str(), SRCML_CPP_NS_URI, NS_USED | NS_STANDARD });
-                }
-            }
-
             // pause
             std::unique_lock<std::mutex> lock(mutex);
             if (terminate) stop_parser();
-- 
2.43.0


From 3330a99080f32378ee81bab57d05d3799a93bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 51/96] fix: unit with a source encoding is written with two of
 them

---
 src/parser/srcMLOutput.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 57b2654..25ca431 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -402,6 +402,13 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         if (!attrs[i][1])
             continue;
 
+        // a unit that was read may already have it, e.g., the source encoding
+        bool duplicate = false;
+        for (std::vector<std::string>::size_type pos = 0; pos < attributes.size(); pos += 2)
+            duplicate = duplicate || attributes[pos] == attrs[i][0];
+        if (duplicate)
+            continue;
+
         xmlTextWriterWriteAttribute(xout, BAD_CAST attrs[i][0], BAD_CAST attrs[i][1]);
     }
 
-- 
2.43.0


From e8abbda0fd35359fe808daceb8a2a9b2038c340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 52/96] fix: processing instruction of an archive is lost when
 reading

---
 src/libsrcml/cppCallbackAdapter.hpp  |  1 +
 src/libsrcml/sax2_srcsax_handler.cpp |  4 ++++
 src/libsrcml/srcsax_handler.hpp      | 10 ++++++++++
 3 files changed, 15 insertions(+)

diff --git a/src/libsrcml/cppCallbackAdapter.hpp b/src/libsrcml/cppCallbackAdapter.hpp
index 59ca6d1..3de0894 100644
--- a/src/libsrcml/cppCallbackAdapter.hpp
+++ b/src/libsrcml/cppCallbackAdapter.hpp
@@ -60,6 +60,7 @@ public:
         handler.end_root = end_root;
         handler.end_unit = end_unit;
         handler.meta_tag = meta_tag;
+        handler.processing_instruction = processing_instruction;
 
         return handler;
     }
diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 4a335f5..fe7f6d0 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -924,6 +924,10 @@ void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* dat
 
     SRCSAX_DEBUG_START("");
 
+    // before the root it is the one of the archive
+    if (state->mode == START)
+        state->context->handler->processing_instruction(state->context, (const char*) target, data ? (const char*) data : "");
+
     if (state->collect_unit_body) {
 
         // xml can get raw, unless libxml2 has already dropped the start of it from the buffer
diff --git a/src/libsrcml/srcsax_handler.hpp b/src/libsrcml/srcsax_handler.hpp
index a7de24a..86062b6 100644
--- a/src/libsrcml/srcsax_handler.hpp
+++ b/src/libsrcml/srcsax_handler.hpp
@@ -120,6 +120,16 @@ struct srcsax_handler {
     void (*meta_tag)(srcsax_context* context, const char* localname, const char* prefix, const char* URI,
                            int num_namespaces, const xmlChar** namespaces, int num_attributes,
                            const xmlChar** attributes);
+
+    /**
+     * processing_instruction
+     * @param context a srcSAX context
+     * @param target the processing instruction target
+     * @param data the processing instruction data
+     *
+     * Signature for a processing instruction before the root element.
+     */
+    void (*processing_instruction)(srcsax_context* context, const char* target, const char* data);
 };
 
 #endif
-- 
2.43.0


From a2e34e91e07d569b1d09f5ac4db22d0d2d0fd23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:28 +0000
Subject: [PATCH 53/96] fix: markup of a unit starts with what is before its
 start tag

---
 src/libsrcml/sax2_srcsax_handler.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index fe7f6d0..a261d40 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -76,6 +76,17 @@ xmlSAXHandler srcsax_sax2_factory() {
     return sax;
 }
 
+// skip anything collected before the start tag that was just parsed, e.g., whitespace, comments, and processing instructions
+// note: a start tag has no '<' besides its first character
+static void skip_to_start_tag(xmlParserCtxtPtr ctxt, sax2_srcsax_handler* state) {
+
+    const xmlChar* start = ctxt->input->cur;
+    while (start > state->base && *start != '<')
+        --start;
+
+    state->base = start;
+}
+
 // updates the state being used to extract XML directly from the context
 // necessary because as libxml buffers are full, data is moved
 static void update_ctx(void* ctx) {
@@ -261,6 +272,8 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     SRCSAX_DEBUG_START(localname);
 
+    skip_to_start_tag(ctxt, state);
+
     state->mode = ROOT;
 
     // save the root start tag because we are going to parse it again to generate proper start_root() and start_unit()
@@ -433,6 +446,8 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     SRCSAX_DEBUG_START(localname);
 
+    skip_to_start_tag(ctxt, state);
+
     state->mode = UNIT;
 
     state->unit_count += 1;
-- 
2.43.0


From 9e5b4ccf6bb625241c9614b7db640f09832e48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:22 +0000
Subject: [PATCH 54/96] fix: archive read in small pieces has no units

---
 src/libsrcml/srcml_archive.cpp | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index f8afab0..3450622 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1040,6 +1040,37 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
  *                                                                            *
  ******************************************************************************/
 
+// input whose reads are complete, except at the end of the input
+struct complete_input {
+    xmlInputReadCallback read;
+    xmlInputCloseCallback close;
+    void* context;
+    int status;
+};
+
+// libxml2 assumes that a read gives it enough to recognize the start of the markup, while a read, e.g., from
+// a pipe, may give less
+static int complete_read(void* context, char* buffer, int len) {
+
+    auto input = (complete_input*) context;
+
+    int total = 0;
+    while (total < len && input->status > 0) {
+        input->status = input->read(input->context, buffer + total, len - total);
+        if (input->status > 0)
+            total += input->status;
+    }
+
+    return total > 0 ? total : input->status;
+}
+
+static int complete_close(void* context) {
+
+    std::unique_ptr<complete_input> input((complete_input*) context);
+
+    return input->close ? input->close(input->context) : 0;
+}
+
 /**
  * srcml_read_internal
  * @param archive a srcml_archive
@@ -1053,6 +1084,12 @@ static int srcml_archive_read_open_internal(struct srcml_archive* archive, std::
     if (!input)
         return SRCML_STATUS_IO_ERROR;
 
+    if (input->readcallback) {
+        input->context = new complete_input{ input->readcallback, input->closecallback, input->context, 1 };
+        input->readcallback = complete_read;
+        input->closecallback = complete_close;
+    }
+
     try {
 
         archive->reader = new srcml_sax2_reader(archive, std::move(input));
-- 
2.43.0


From c3aa8267d8ba71dc24782bbdb860c476d2e60eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 55/96] fix: unit of an archive written as a solitary unit uses
 namespaces that are not declared

---
 src/libsrcml/srcml_reader_handler.hpp | 6 ++++++
 src/parser/srcMLOutput.cpp            | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 7f79017..600a39a 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -335,6 +335,12 @@ public :
             srcml_uri_normalize(uri);
 
             srcml_archive_register_namespace(archive, prefix.c_str(), uri.c_str());
+
+            // may be used by any of the units
+            auto& view = archive->namespaces.get<nstags::uri>();
+            auto it = view.find(uri);
+            if (it != view.end())
+                view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
         }
 
 #ifdef SRCSAX_DEBUG
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 25ca431..0713c61 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -283,7 +283,8 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
         }
 
         // the unit may be from an archive with other namespaces than the root of this one
-        if (depth == 1 && isoption(options, SRCML_OPTION_ARCHIVE) && (ns.flags & (NS_REQUIRED | NS_USED | NS_REGISTERED))) {
+        if (depth == 1 && isoption(options, SRCML_OPTION_ARCHIVE) &&
+            ((ns.flags & (NS_REQUIRED | NS_USED)) || ((ns.flags & NS_REGISTERED) && !(ns.flags & NS_STANDARD)))) {
 
             auto declared = root_namespaces.find(ns.prefix);
             if (!root_namespaces.empty() && (declared == root_namespaces.end() || declared->second != ns.uri))
-- 
2.43.0


From 80ce6b5ae07df957b16aad98a8b004638c0d005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 56/96] fix: srcml() reports success when the end of the srcML
 could not be written

---
 src/libsrcml/libsrcml.cpp         |  5 +++++
 src/libsrcml/srcml_archive.cpp    | 16 +++++++++++++---
 src/libsrcml/srcml_translator.cpp |  6 ++++--
 src/libsrcml/srcml_translator.hpp |  2 +-
 src/libsrcml/srcml_types.hpp      |  3 +++
 src/parser/srcMLOutput.cpp        | 20 ++++++++++++++++----
 src/parser/srcMLOutput.hpp        |  2 +-
 7 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index f4b3350..d51e885 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -211,6 +211,11 @@ int srcml(const char* input_filename, const char* output_filename) {
         if (status != SRCML_STATUS_OK)
             return status;
 
+        // all of it has to reach the output file
+        status = srcml_archive_close_output(archive.get());
+        if (status != SRCML_STATUS_OK)
+            return status;
+
     } else {
 
         // check the extension for .xml or .srcml, non case-sensitive
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 3450622..503d5ac 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1406,8 +1406,16 @@ int srcml_archive_skip_unit(struct srcml_archive* archive) {
  */
 void srcml_archive_close(struct srcml_archive* archive) {
 
+    srcml_archive_close_output(archive);
+}
+
+// close an archive, with a status on whether all of the output was written
+int srcml_archive_close_output(struct srcml_archive* archive) {
+
     if (archive == nullptr)
-        return;
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
+    bool written = true;
 
     // if we haven't opened the translator yet, do so now. This will create an empty unit/archive
     if (archive->type == SRCML_ARCHIVE_WRITE && !archive->rawwrites && archive->translator == nullptr) {
@@ -1416,14 +1424,14 @@ void srcml_archive_close(struct srcml_archive* archive) {
 
     // the translator owns the output buffer
     if (archive->translator) {
-        archive->translator->close();
+        written = archive->translator->close();
         delete archive->translator;
         archive->translator = nullptr;
         archive->output_buffer = nullptr;
     }
 
     if (archive->output_buffer) {
-        xmlOutputBufferClose(archive->output_buffer);
+        written = xmlOutputBufferClose(archive->output_buffer) >= 0 && written;
         archive->output_buffer = nullptr;
     }
     archive->rawwrites = false;
@@ -1450,4 +1458,6 @@ void srcml_archive_close(struct srcml_archive* archive) {
     }
 
     archive->type = SRCML_ARCHIVE_INVALID;
+
+    return written ? SRCML_STATUS_OK : SRCML_STATUS_IO_ERROR;
 }
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 7ef1b0c..65156ae 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -95,8 +95,10 @@ void srcml_translator::set_macro_list(std::vector<std::string>& list) {
  * close
  *
  * Close the srcml_translator and the srcML.
+ *
+ * @returns if all of the srcML was written
  */
-void srcml_translator::close() {
+bool srcml_translator::close() {
 
     if (!first && (options & SRCML_OPTION_ARCHIVE) > 0)
         out.outputUnitSeparator();
@@ -106,7 +108,7 @@ void srcml_translator::close() {
     if (is_outputting_unit)
         add_end_unit();
 
-    out.close();
+    return out.close();
 }
 
 /**
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index 0bc9eb5..61ccc36 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -77,7 +77,7 @@ public:
 
     void set_macro_list(std::vector<std::string> & list);
 
-    void close();
+    bool close();
 
     bool translate(UTF8CharBuffer* parser_input);
 
diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index e68adcf..75de903 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -256,6 +256,9 @@ struct srcml_unit {
  */
 int srcml_unit_set_hash (struct srcml_unit* unit, const char* hash);
 
+// close an archive, with a status on whether all of the output was written
+int srcml_archive_close_output(struct srcml_archive* archive);
+
 // helper conversions for boost::optional<std::string>
 inline const char* optional_to_c_str(const boost::optional<std::string>& s) {
     return s ? s->c_str() : 0;
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 0713c61..766eea2 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -120,22 +120,34 @@ srcMLOutput::~srcMLOutput() {
  * close
  *
  * Close/finish the output.
+ *
+ * @returns if all of the output was written
  */
-void srcMLOutput::close() {
+bool srcMLOutput::close() {
+
+    bool written = true;
 
     if (xout) {
 
-        if (didwrite)
-            xmlTextWriterEndDocument(xout);
+        written = (didwrite ? xmlTextWriterEndDocument(xout) : xmlTextWriterFlush(xout)) >= 0;
+
+        // freeing the writer does not report if the output could be closed, so close it here
+        if (output_buffer && output_buffer->closecallback) {
+            written = output_buffer->closecallback(output_buffer->context) >= 0 && written;
+            output_buffer->writecallback = 0;
+            output_buffer->closecallback = 0;
+        }
         xmlFreeTextWriter(xout);
         xout = 0;
         output_buffer = 0;
 
     } else if (output_buffer) {
 
-        xmlOutputBufferClose(output_buffer);
+        written = xmlOutputBufferClose(output_buffer) >= 0;
         output_buffer = 0;
     }
+
+    return written;
 }
 
 void srcMLOutput::outputUnitSeparator() {
diff --git a/src/parser/srcMLOutput.hpp b/src/parser/srcMLOutput.hpp
index 417f202..fe7a4f0 100644
--- a/src/parser/srcMLOutput.hpp
+++ b/src/parser/srcMLOutput.hpp
@@ -114,7 +114,7 @@ public:
                  const char* unit_version, const char* unit_timestamp, const char* unit_hash, const char* encoding);
 
     // close the output
-    void close();
+    bool close();
 
     // destructor
     ~srcMLOutput();
-- 
2.43.0


From c81a310c12829c185d7d5d72b8561ffa2238d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:21 +0000
Subject: [PATCH 57/96] fix: a reference to an entity declared in the document
 no longer aborts the process

The content of units is collected straight from the input, and the text of a
declared entity is not in it: the computed length was garbage. Reading stops
there, after the units before it.
---
 src/libsrcml/sax2_srcsax_handler.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index a261d40..3323125 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -49,6 +49,8 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
+static xmlEntityPtr get_entity(void* ctx, const xmlChar* name);
+
 /**
  * factory
  *
@@ -73,9 +75,24 @@ xmlSAXHandler srcsax_sax2_factory() {
     sax.cdataBlock = &cdata_block;
     sax.processingInstruction = &processing_instruction;
 
+    sax.getEntity = &get_entity;
+
     return sax;
 }
 
+// content is collected straight from the input, which does not have that of entities declared in the document
+static xmlEntityPtr get_entity(void* ctx, const xmlChar* name) {
+
+    auto entity = xmlGetPredefinedEntity(name);
+    auto ctxt = (xmlParserCtxtPtr) ctx;
+    if (!entity && ctxt && ctxt->instate == XML_PARSER_CONTENT) {
+        ctxt->wellFormed = 0;
+        xmlStopParser(ctxt);
+    }
+
+    return entity;
+}
+
 // skip anything collected before the start tag that was just parsed, e.g., whitespace, comments, and processing instructions
 // note: a start tag has no '<' besides its first character
 static void skip_to_start_tag(xmlParserCtxtPtr ctxt, sax2_srcsax_handler* state) {
-- 
2.43.0


From 7ccc7f4b0aa28da29be12440a2995f19b6f3cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 58/96] fix: one more file is open at once than the limit
 allows

---
 src/client/OpenFileLimiter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/OpenFileLimiter.hpp b/src/client/OpenFileLimiter.hpp
index 0d23ded..b550019 100644
--- a/src/client/OpenFileLimiter.hpp
+++ b/src/client/OpenFileLimiter.hpp
@@ -34,7 +34,7 @@ public:
     static void open() {
         std::unique_lock<std::mutex> l(e);
 
-        while (open_files > MAX_OPEN_FILES) {
+        while (open_files >= MAX_OPEN_FILES) {
             cv.wait(l);
         }
 
-- 
2.43.0


From e42bc981ae15f6e0b67612446b2ddb5e78881e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 59/96] fix: srcML inputs and units without a name crash the
 output of units to a directory

---
 src/client/srcml_input_srcml.cpp | 7 +++++++
 src/client/srcml_write.cpp       | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/client/srcml_input_srcml.cpp b/src/client/srcml_input_srcml.cpp
index 357e5d9..cac7212 100644
--- a/src/client/srcml_input_srcml.cpp
+++ b/src/client/srcml_input_srcml.cpp
@@ -114,6 +114,13 @@ int srcml_input_srcml(ParseQueue& queue,
         prequest->input_archive = srcml_input_archive;
         prequest->parsertest_filename = srcml_input.resource;
 
+        // per-unit output is placed by directory and name of the unit
+        if (option(SRCML_COMMAND_NOARCHIVE)) {
+            prequest->disk_dir = srcml_request.output_filename;
+            if (srcml_unit_get_filename(prequest->unit.get()))
+                prequest->filename = srcml_unit_get_filename(prequest->unit.get());
+        }
+
         if (srcml_archive_get_url(prequest->input_archive.get()))
             prequest->url = srcml_archive_get_url(prequest->input_archive.get());
 
diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index e699e90..77e3a9f 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -72,6 +72,14 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
     // created for per-unit archive, close() and free() automatic
     std::unique_ptr<srcml_archive> cloned;
 
+    // per-unit archives are named after the unit
+    if (request->unit && option(SRCML_COMMAND_NOARCHIVE) && !request->filename) {
+        SRCMLstatus(ERROR_MSG, "srcml: Unit without a filename cannot be written to a directory");
+        if (request->results)
+            srcml_transform_free(request->results);
+        return;
+    }
+
     // open the archive (if per-unit)
     if (request->unit && option(SRCML_COMMAND_NOARCHIVE)) {
 
-- 
2.43.0


From 1d9c3ea5bc1703fca441bd6ea949feb6904db95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:44 +0000
Subject: [PATCH 60/96] fix: writing units to a directory waits for ever when
 the waiting requests hold all open files

---
 src/client/srcml_write.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index 77e3a9f..02717e7 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -32,7 +32,6 @@
 #include <stdio.h>
 #include <cstring>
 #include <ParserTest.hpp>
-#include <OpenFileLimiter.hpp>
 #include <srcml_utilities.hpp>
 #include <mkDir.hpp>
 #include <cmath>
@@ -70,7 +69,13 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
     srcml_archive* output_archive = request->srcml_arch;
 
     // created for per-unit archive, close() and free() automatic
-    std::unique_ptr<srcml_archive> cloned;
+    // Note: not counted by the OpenFileLimiter. Requests waiting to be written can hold all that are allowed,
+    // and are only given back after they are written
+    auto cloned_deleter = [](srcml_archive* arch) {
+        srcml_archive_close(arch);
+        srcml_archive_free(arch);
+    };
+    std::unique_ptr<srcml_archive, decltype(cloned_deleter)> cloned(nullptr, cloned_deleter);
 
     // per-unit archives are named after the unit
     if (request->unit && option(SRCML_COMMAND_NOARCHIVE) && !request->filename) {
@@ -98,8 +103,6 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
             dir.mkdir(path);
         }
 
-        // call file limiter now that we are actually putting a value into cloned
-        OpenFileLimiter::open();
         cloned.reset(srcml_archive_clone(output_archive));
         output_archive = cloned.get();
 
-- 
2.43.0


From 791e9e5f145539cad012a578bd38174062b66789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 61/96] fix: last line of a file list is dropped when it is one
 character without a newline

---
 src/client/src_input_filelist.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client/src_input_filelist.cpp b/src/client/src_input_filelist.cpp
index fb56b82..93a8853 100644
--- a/src/client/src_input_filelist.cpp
+++ b/src/client/src_input_filelist.cpp
@@ -80,14 +80,16 @@ int src_input_filelist(ParseQueue& queue,
            vbuffer.insert(vbuffer.end(), buffer, buffer + size);
     }
 
-    char* line = &vbuffer[0];
-    while (line < &vbuffer[vbuffer.size() - 1]) {
+    const char* line = vbuffer.data();
+    const char* const end_of_list = line + vbuffer.size();
+    while (line < end_of_list) {
 
         // find the line
-        char* startline = line;
-        while (*line != '\n' && line != &vbuffer[vbuffer.size() - 1])
+        const char* startline = line;
+        while (line < end_of_list && *line != '\n')
+            ++line;
+        if (line < end_of_list)
             ++line;
-        ++line;
 
         std::string sline(startline, line - startline);
 
-- 
2.43.0


From 26a6ad4e6b8b46809a828f5393eb6bceb5bf2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 62/96] fix: units named with .. are extracted outside of the
 output directory

---
 src/client/src_output_filesystem.cpp | 30 ++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 4e4e393..9f61deb 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -22,9 +22,34 @@
 
 #include <src_output_filesystem.hpp>
 #include <srcml.h>
+#include <algorithm>
 #include <iostream>
 #include <srcml_utilities.hpp>
 #include <mkDir.hpp>
+#include <SRCMLStatus.hpp>
+
+namespace {
+
+    // the unit would be written outside of the output directory
+    bool leaves_directory(const std::string& filename) {
+
+        int depth = 0;
+        for (size_t pos = 0; pos < filename.size();) {
+
+            const size_t end = std::min(filename.find('/', pos), filename.size());
+            const std::string part = filename.substr(pos, end - pos);
+            if (part == "..") {
+                if (--depth < 0)
+                    return true;
+            } else if (!part.empty() && part != ".") {
+                ++depth;
+            }
+            pos = end + 1;
+        }
+
+        return false;
+    }
+}
 
 void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
 
@@ -46,6 +71,11 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
 
         std::string filename = cfilename;
 
+        if (leaves_directory(filename)) {
+            SRCMLstatus(ERROR_MSG, "srcml: Unit %s is outside of the output directory", filename);
+            continue;
+        }
+
         // separate pathname from filename
         std::string path = prefix;
         path += '/';
-- 
2.43.0


From e49816724be594e5982d9d3d9fcec8e485336f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:39 +0000
Subject: [PATCH 63/96] fix: source that cannot be extracted to a directory is
 not reported

---
 src/client/src_output_filesystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 9f61deb..32fa9de 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -92,6 +92,7 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
         // unparse directory to filename
         log << ++count << fullfilename;
 
-        srcml_unit_unparse_filename(unit.get(), fullfilename.c_str());
+        if (srcml_unit_unparse_filename(unit.get(), fullfilename.c_str()) != SRCML_STATUS_OK)
+            SRCMLstatus(ERROR_MSG, "srcml: unable to write output file %s", fullfilename);
     }
 }
-- 
2.43.0


From 7f995b197035ee0cc842d6d1550c32b7efbf0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:29 +0000
Subject: [PATCH 64/96] fix: extracting to the current directory writes to the
 root of the file system

---
 src/client/src_output_filesystem.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 32fa9de..35ae57c 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -53,10 +53,8 @@ namespace {
 
 void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
 
-    // construct the relative directory
-    std::string prefix;
-    if (output_dir != "." && output_dir != "./")
-        prefix = output_dir;
+    // all output is below the output directory, including that of the current directory
+    const std::string& prefix = output_dir;
 
     // create output directory structure as needed
     mkDir dir;
-- 
2.43.0


From 9685f7f4dc2fc01428691e48b01a22d1b205b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 65/96] fix: compressed source output never ends

---
 src/client/create_src.cpp | 6 +++++-
 src/client/srcml.cpp      | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 4160409..1066822 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -138,7 +138,7 @@ void create_src(const srcml_request_t& srcml_request,
 
             // null separator before every unit (except the first)
             if (count) {
-                if (write(1, "", 1) == -1) {
+                if (write(*destination.fd, "", 1) == -1) {
                     SRCMLstatus(ERROR_MSG, "Unable to write to stdout");
                     break;
                 }
@@ -225,4 +225,8 @@ void create_src(const srcml_request_t& srcml_request,
             src_output_libarchive(arch.get(), ar.get());
         }
     }
+
+    // end of input for a following step
+    if (destination.fd && *destination.fd != STDOUT_FILENO)
+        close(*destination.fd);
 }
diff --git a/src/client/srcml.cpp b/src/client/srcml.cpp
index 7267ca5..ce0ff62 100644
--- a/src/client/srcml.cpp
+++ b/src/client/srcml.cpp
@@ -217,6 +217,10 @@ namespace {
     */
     bool request_output_compression(const srcml_request_t& request) {
 
+        // source archives are compressed as they are created
+        if (!request.output_filename.archives.empty() && request_create_src(request))
+            return false;
+
         return request.output_filename.compressions.size() >= 1;
     }
 
-- 
2.43.0


From cfa64909953067485810435c62fe23adaf578b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:18 +0000
Subject: [PATCH 66/96] fix: sources in a directory with a registered extension
 are skipped

---
 src/client/src_input_libarchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index d7feb00..61f8428 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -103,7 +103,7 @@ int src_input_libarchive(ParseQueue& queue,
     // this is to prevent trying to open, with srcml_archive_open_filename(), a non-srcml file,
     // which then hangs
     // Note: may need to fix in libsrcml
-    if ((!contains<int>(input_file) && !contains<FILE*>(input_file) && input_file.compressions.empty() && input_file.archives.empty() && !srcml_check_extension(input_file.plainfile.c_str())) | input_file.skip) {
+    if ((!contains<int>(input_file) && !contains<FILE*>(input_file) && input_file.compressions.empty() && input_file.archives.empty() && !srcml_archive_check_extension(srcml_arch, input_file.plainfile.c_str())) | input_file.skip) {
         // if we are not verbose, then just end this attemp
         if (!(option(SRCML_COMMAND_VERBOSE))) {
             return 0;
-- 
2.43.0


From a294c4475d6ea341a3cb3534c56a31dbb6bf4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 67/96] fix: directory whose own name begins with a period has
 no sources

---
 src/client/src_input_filesystem.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client/src_input_filesystem.cpp b/src/client/src_input_filesystem.cpp
index af4c44a..9a47156 100644
--- a/src/client/src_input_filesystem.cpp
+++ b/src/client/src_input_filesystem.cpp
@@ -76,16 +76,19 @@ int src_input_filesystem(ParseQueue& queue,
 
         std::string filename = archive_entry_pathname(entry);
 
+        // always descend into the given directory, whatever the name
+        if (first) {
+            first = false;
+            archive_read_disk_descend(darchive);
+            continue;
+        }
+
         // do not descend into . directories
         if (filename[filename.find_last_of("/") + 1] == '.') {
             continue;
         }
 
         archive_read_disk_descend(darchive);
-        if (first) {
-            first = false;
-            continue;
-        }
 
         if (archive_entry_filetype(entry) != AE_IFREG)
             continue;
-- 
2.43.0


From f26d6e59735c773002144b49cd371cdbfe0cfd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:52 +0000
Subject: [PATCH 68/96] fix: listing a directory changes the current directory
 under the other threads

---
 src/client/src_input_filesystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/src_input_filesystem.cpp b/src/client/src_input_filesystem.cpp
index 9a47156..fbf2ac4 100644
--- a/src/client/src_input_filesystem.cpp
+++ b/src/client/src_input_filesystem.cpp
@@ -59,8 +59,12 @@ int src_input_filesystem(ParseQueue& queue,
     std::vector<std::string> files;
 
     // start at the root of the tree
+    // no sparse file information, as collecting it changes the current directory while other
+    // threads open files
     auto darchive = archive_read_disk_new();
-#if ARCHIVE_VERSION_NUMBER >= 3002003
+#ifdef ARCHIVE_READDISK_NO_SPARSE
+    archive_read_disk_set_behavior(darchive, ARCHIVE_READDISK_NO_ACL | ARCHIVE_READDISK_NO_XATTR | ARCHIVE_READDISK_NO_FFLAGS | ARCHIVE_READDISK_NO_SPARSE);
+#elif ARCHIVE_VERSION_NUMBER >= 3002003
     archive_read_disk_set_behavior(darchive, ARCHIVE_READDISK_NO_ACL | ARCHIVE_READDISK_NO_XATTR | ARCHIVE_READDISK_NO_FFLAGS);
 #elif ARCHIVE_VERSION_NUMBER >= 3002000
     archive_read_disk_set_behavior(darchive, ARCHIVE_READDISK_NO_XATTR);
-- 
2.43.0


From bc6f89d3a8eb48eac3c5e5eb85860758fcdc73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 69/96] fix: file names with percent escapes are decoded on
 output

---
 src/libsrcml/libxml2_utilities.hpp | 19 +++++++++++++++++++
 src/libsrcml/srcml_archive.cpp     |  2 +-
 src/libsrcml/srcml_unit.cpp        |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libxml2_utilities.hpp b/src/libsrcml/libxml2_utilities.hpp
index 7bdf835..b0c2d34 100644
--- a/src/libsrcml/libxml2_utilities.hpp
+++ b/src/libsrcml/libxml2_utilities.hpp
@@ -26,8 +26,10 @@
 #include <libxml/tree.h>
 #include <libxml/xmlIO.h>
 #include <libxml/relaxng.h>
+#include <libxml/uri.h>
 #include <algorithm>
 #include <memory>
+#include <string>
 
 // std::unique_ptr deleter functions for libxml2
 // usage: std::unique<xmlDoc> p(xmlReadMemory);
@@ -85,4 +87,21 @@ namespace std {
     };
 }
 
+// libxml2 treats an output filename as a URI, and decodes any percent-encoding in it
+// keep the name of the file as it is given
+inline xmlOutputBufferPtr outputBufferCreateFilename(const char* filename, xmlCharEncodingHandlerPtr encoder) {
+
+    std::string name(filename);
+    if (name.find('%') != std::string::npos) {
+        xmlURIPtr uri = xmlParseURI(filename);
+        if (uri && !uri->scheme) {
+            for (std::string::size_type pos = 0; (pos = name.find('%', pos)) != std::string::npos; pos += 3)
+                name.replace(pos, 1, "%25");
+        }
+        xmlFreeURI(uri);
+    }
+
+    return xmlOutputBufferCreateFilename(name.c_str(), encoder, 0);
+}
+
 #endif
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 503d5ac..9683579 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -934,7 +934,7 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    return srcml_archive_write_open_internal(archive, xmlOutputBufferCreateFilename(srcml_filename, 0, 0));
+    return srcml_archive_write_open_internal(archive, outputBufferCreateFilename(srcml_filename, 0));
 }
 
 /**
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 07d0bef..86609d5 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -797,7 +797,7 @@ int srcml_unit_unparse_filename(struct srcml_unit* unit, const char* src_filenam
 
     return srcml_unit_unparse_internal(unit, [src_filename](xmlCharEncodingHandlerPtr handler) {
 
-        return xmlOutputBufferCreateFilename(src_filename, handler, 0);
+        return outputBufferCreateFilename(src_filename, handler);
     });
 }
 
-- 
2.43.0


From f808c0bda032f88d104e63af4e5e32956a5b4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:02 +0000
Subject: [PATCH 70/96] fix: sources after a non-ASCII filename are missing
 from a source archive

---
 src/client/src_output_libarchive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 2fa7248..766f5dc 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -72,8 +72,11 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         archive_entry_set_ctime(entry.get(), now, 0);
         archive_entry_set_mtime(entry.get(), now, 0);
 
-        if ((arch_status = archive_write_header(src_archive, entry.get())) != ARCHIVE_OK)
+        // note: only a warning when the filename cannot be converted, e.g., non-ASCII filename
+        if ((arch_status = archive_write_header(src_archive, entry.get())) < ARCHIVE_WARN) {
+            SRCMLstatus(WARNING_MSG, "Unable to save " + newfilename + " to source archive");
             break;
+        }
 
         // write the data into the archive
         arch_status = archive_write_data(src_archive, pbuffer.get(), (size_t) buffer_size);
-- 
2.43.0


From 47dfef7e9324cb4411abf337d117092fd1c53228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:58 +0000
Subject: [PATCH 71/96] fix: sources of an archive after a non-ASCII filename
 are ignored

---
 src/client/src_input_libarchive.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 61f8428..354a8de 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -141,9 +141,15 @@ int src_input_libarchive(ParseQueue& queue,
     int count = 0;
     archive_entry *entry;
 
+    // a warning, e.g., a filename that cannot be converted, is for an entry that can still be read
+    auto next_header = [&arch, &entry]() {
+        int header_status = archive_read_next_header(arch.get(), &entry);
+        return header_status == ARCHIVE_WARN ? ARCHIVE_OK : header_status;
+    };
+
     int status = ARCHIVE_OK;
     while (status == ARCHIVE_OK &&
-           (((status = archive_read_next_header(arch.get(), &entry)) == ARCHIVE_OK) ||
+           (((status = next_header()) == ARCHIVE_OK) ||
             (status == ARCHIVE_EOF && !count))) {
 
         if (status == ARCHIVE_EOF && getCurlErrors())
@@ -161,7 +167,16 @@ int src_input_libarchive(ParseQueue& queue,
             continue;
 
         // default is filename from archive entry (if not empty)
-        std::string filename = status == ARCHIVE_OK ? archive_entry_pathname(entry) : "";
+        std::string filename;
+        if (status == ARCHIVE_OK) {
+            // no pathname when it cannot be converted to the current locale
+            if (!archive_entry_pathname(entry)) {
+                SRCMLstatus(WARNING_MSG, "srcml: Unable to convert a filename in " + src_prefix_resource(input_file.filename));
+                ++count;
+                continue;
+            }
+            filename = archive_entry_pathname(entry);
+        }
 
         // starting in libarchive 3.4 gz compression, although ARCHIVE_FORMAT_RAW, has an
         // entry. For consisten behavior, ignore this for now
-- 
2.43.0


From 853338eeb91d7c0ece80f8e9ee370dffda3c2d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 72/96] fix: archive is incomplete on standard output after an
 error with an input

---
 src/client/create_srcml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index cc800e2..fdb5b71 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -360,6 +360,9 @@ void create_srcml(const srcml_request_t& srcml_request,
         srcml_archive_close(srcml_arch.get());
     }
 
+    // archive must be complete before the output is closed, even with errors
+    srcml_arch.reset();
+
     if (destination.fd)
         close(*destination.fd);
 }
-- 
2.43.0


From e48ca7bccac10a45b985bfdb25ca254ffe931163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 73/96] fix: truncated sources and archives are accepted as
 they are

---
 src/client/src_input_libarchive.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 354a8de..930df0b 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -279,9 +279,17 @@ int src_input_libarchive(ParseQueue& queue,
 #else
             int64_t offset;
 #endif
-            while (status == ARCHIVE_OK && archive_read_data_block(arch.get(), (const void**) &buffer, &size, &offset) == ARCHIVE_OK) {
+            int data_status = ARCHIVE_OK;
+            while ((data_status = archive_read_data_block(arch.get(), (const void**) &buffer, &size, &offset)) == ARCHIVE_OK) {
                 prequest->buffer.insert(prequest->buffer.end(), buffer, buffer + size);
             }
+
+            // incomplete source code, e.g., truncated file
+            if (data_status != ARCHIVE_EOF) {
+                SRCMLstatus(WARNING_MSG, "srcml: Unable to read file " + filename);
+                ++count;
+                continue;
+            }
         }
 
         // schedule for parsing
@@ -290,5 +298,10 @@ int src_input_libarchive(ParseQueue& queue,
         ++count;
     }
 
+    // damaged archive
+    if (status != ARCHIVE_OK && status != ARCHIVE_EOF) {
+        SRCMLstatus(WARNING_MSG, "srcml: Unable to read file " + src_prefix_resource(input_file.filename));
+    }
+
     return count;
 }
-- 
2.43.0


From a8d9d3a1c03941fd3e3aceb83e543f6106a93435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 74/96] fix: files with a question mark in their name are
 skipped

---
 src/client/srcml_input_src.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/srcml_input_src.cpp b/src/client/srcml_input_src.cpp
index 5f6ff3e..06147f7 100644
--- a/src/client/srcml_input_src.cpp
+++ b/src/client/srcml_input_src.cpp
@@ -59,7 +59,8 @@ srcml_input_src::srcml_input_src(const std::string& other) : arch(0), state(INDE
     std::tie(protocol, resource) = src_prefix_split_uri(filename);
 
     // remove any query string
-    if (protocol != "text" && protocol != "filelist" && protocol != "stdin") {
+    // note: in the name of a local file, '?' is as any other character
+    if (protocol != "file" && protocol != "text" && protocol != "filelist" && protocol != "stdin") {
         size_t query_pos = resource.find('?');
         if (query_pos != std::string::npos) {
             resource = resource.substr(0, query_pos);
-- 
2.43.0


From fe39ebaa7cc2c6fb1d0eca43cccc42040096b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:30 +0000
Subject: [PATCH 75/96] fix: empty language with an explicit filename of an
 unknown extension

---
 src/client/src_input_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/src_input_file.cpp b/src/client/src_input_file.cpp
index 2134ea8..ac2fa8c 100644
--- a/src/client/src_input_file.cpp
+++ b/src/client/src_input_file.cpp
@@ -55,6 +55,11 @@ int src_input_file(ParseQueue& queue,
         if (const char* l = srcml_archive_check_extension(srcml_arch, prequest->filename->c_str()))
             prequest->language = l;
 
+    // when the extension of an explicit filename has no language, use the extension of the file
+    if (prequest->language.empty())
+        if (const char* l = srcml_archive_check_extension(srcml_arch, input.resource.c_str()))
+            prequest->language = l;
+
     prequest->disk_filename = input.resource;
 
     // Hand request off to the processing queue
-- 
2.43.0


From bc1f8b902a29e7611e5572215d30ed8c66ad8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:58 +0000
Subject: [PATCH 76/96] fix: a selected srcDiff revision mixes the two versions

---
 src/libsrcml/srcml_translator.cpp |  30 ++--
 src/libsrcml/srcml_types.hpp      |   8 +-
 src/libsrcml/srcml_unit.cpp       |  98 ++++++++----
 src/libsrcml/unit_utilities.cpp   | 239 ++++++++++++++++++++++++------
 src/libsrcml/unit_utilities.hpp   |  18 ++-
 5 files changed, 307 insertions(+), 86 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 65156ae..0b22671 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -234,7 +234,8 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     }
 
     // if a srcdiff revision, remove the srcdiff namespace
-    if (unit->archive->revision_number) {
+    const bool revised = is_revision(unit);
+    if (revised) {
         auto&& view = mergedns.get<nstags::uri>();
         auto it = view.find(SRCML_DIFF_NS_URI);
         if (it != view.end()) {
@@ -246,24 +247,29 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
 
     // create a new unit start tag with all new info (hash value, namespaces actually used, etc.)
     out.initNamespaces(mergedns);
-    auto nrevision = unit->archive->revision_number;
-    out.startUnit(language.c_str(),
+    auto version = [&](const std::string& value) {
+        return revised ? attribute_revision(value, (int) *unit->archive->revision_number) : value;
+    };
+    std::vector<std::string> attributes = unit->attributes;
+    for (size_t i = 1; i < attributes.size(); i += 2)
+        attributes[i] = version(attributes[i]);
+    out.startUnit(version(language).c_str(),
             (options & SRCML_OPTION_ARCHIVE) && unit->revision ? unit->revision->c_str() : revision,
-            (options & SRCML_OPTION_ARCHIVE) || !unit->url       ? 0 : (nrevision ? attribute_revision(*unit->url, (int) *nrevision).c_str() : unit->url->c_str()),
-            !unit->filename  ? 0 : (nrevision ? attribute_revision(*unit->filename, (int) *nrevision).c_str() : unit->filename->c_str()),
-            !unit->version   ? 0 : (nrevision ? attribute_revision(*unit->version, (int) *nrevision).c_str() : unit->version->c_str()),
-            !unit->timestamp ? 0 : (nrevision ? attribute_revision(*unit->timestamp, (int) *nrevision).c_str() : unit->timestamp->c_str()),
-            !unit->hash      ? 0 : (nrevision ? attribute_revision(*unit->hash, (int) *nrevision).c_str() : unit->hash->c_str()),
-            !unit->encoding  ? 0 : (nrevision ? attribute_revision(*unit->encoding, (int) *nrevision).c_str() : unit->encoding->c_str()),
-            unit->attributes,
+            (options & SRCML_OPTION_ARCHIVE) || !unit->url       ? 0 : version(*unit->url).c_str(),
+            !unit->filename  ? 0 : version(*unit->filename).c_str(),
+            !unit->version   ? 0 : version(*unit->version).c_str(),
+            !unit->timestamp ? 0 : version(*unit->timestamp).c_str(),
+            !unit->hash      ? 0 : version(*unit->hash).c_str(),
+            !unit->encoding  ? 0 : version(*unit->encoding).c_str(),
+            attributes,
             false);
 
     // write out the contents, excluding the start and end unit tags
     int size = unit->content_end - unit->content_begin - 1;
 
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
+    if (revised) {
 
-        std::string s = extract_revision(unit->srcml.c_str() + unit->content_begin, size, (int) *unit->archive->revision_number);
+        std::string s = unit_content_revision(unit);
 
         xmlTextWriterWriteRawLen(out.getWriter(), BAD_CAST s.c_str(), (int) s.size());
 
diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 75de903..fbe3389 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -224,12 +224,18 @@ struct srcml_unit {
     /** srcml from read and after parsing */
     std::string srcml;
     boost::optional<std::string> srcml_revision;
-    int currevision = -1;
     boost::optional<std::string> srcml_fragment;
     boost::optional<std::string> srcml_fragment_revision;
     boost::optional<std::string> srcml_raw;
     boost::optional<std::string> srcml_raw_revision;
 
+    /** attributes of the selected revision */
+    mutable boost::optional<std::string> language_revision;
+    mutable boost::optional<std::string> filename_revision;
+    mutable boost::optional<std::string> version_revision;
+    mutable boost::optional<std::string> timestamp_revision;
+    mutable boost::optional<std::string> hash_revision;
+
     /** src from read */
     boost::optional<std::string> src;
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 86609d5..a74082b 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -198,6 +198,54 @@ const char* srcml_unit_get_src_encoding(const struct srcml_unit* unit) {
     return optional_to_c_str(unit->encoding);
 }
 
+/**
+ * update
+ * @param value storage for a value
+ * @param current the current value
+ *
+ * Update the storage only if needed, so that what was returned before stays valid.
+ *
+ * @returns the current value
+ */
+static const char* update(boost::optional<std::string>& value, std::string current) {
+
+    if (!value || *value != current)
+        value = std::move(current);
+
+    return value->c_str();
+}
+
+/**
+ * revision_c_str
+ * @param unit a srcml unit
+ * @param value an attribute of the unit
+ * @param revision storage for the value of the selected revision
+ *
+ * @returns the attribute, for a selected srcDiff revision the value in that revision
+ */
+static const char* revision_c_str(const struct srcml_unit* unit, const boost::optional<std::string>& value, boost::optional<std::string>& revision) {
+
+    if (!value || value->find('|') == std::string::npos || !is_revision(unit))
+        return optional_to_c_str(value);
+
+    return update(revision, attribute_revision(*value, (int) *unit->archive->revision_number));
+}
+
+/**
+ * count_lines
+ * @param src source code
+ *
+ * @returns the number of lines, including a last one that is not ended
+ */
+static int count_lines(const std::string& src) {
+
+    int loc = (int) std::count(src.begin(), src.end(), '\n');
+    if (!src.empty() && src.back() != '\n')
+        ++loc;
+
+    return loc;
+}
+
 /**
  * srcml_unit_get_revision
  * @param unit a srcml unit
@@ -227,7 +275,7 @@ const char* srcml_unit_get_language(const struct srcml_unit* unit) {
     if (unit == nullptr)
         return 0;
 
-    return optional_to_c_str(unit->language);
+    return revision_c_str(unit, unit->language, unit->language_revision);
 }
 
 /**
@@ -243,7 +291,7 @@ const char* srcml_unit_get_filename(const struct srcml_unit* unit) {
     if (unit == nullptr)
         return 0;
 
-    return optional_to_c_str(unit->filename);
+    return revision_c_str(unit, unit->filename, unit->filename_revision);
 }
 
 /**
@@ -259,7 +307,7 @@ const char* srcml_unit_get_version(const struct srcml_unit* unit) {
     if (unit == nullptr)
         return 0;
 
-    return optional_to_c_str(unit->version);
+    return revision_c_str(unit, unit->version, unit->version_revision);
 }
 
 /**
@@ -275,7 +323,7 @@ const char* srcml_unit_get_timestamp(const struct srcml_unit* unit) {
     if (unit == nullptr)
         return 0;
 
-    return optional_to_c_str(unit->timestamp);
+    return revision_c_str(unit, unit->timestamp, unit->timestamp_revision);
 }
 
 /**
@@ -291,7 +339,7 @@ const char* srcml_unit_get_hash(const struct srcml_unit* unit) {
     if (unit == nullptr)
         return 0;
 
-    return optional_to_c_str(unit->hash);
+    return revision_c_str(unit, unit->hash, unit->hash_revision);
 }
 
 /**
@@ -307,6 +355,10 @@ int srcml_unit_get_loc(const struct srcml_unit* unit) {
     if (unit == nullptr)
         return -1;
 
+    // lines of the selected version only
+    if (unit->read_body && is_revision(unit))
+        return count_lines(extract_src(unit_revision(unit)));
+
     return unit->loc;
 }
 
@@ -347,10 +399,8 @@ const char* srcml_unit_get_srcml(struct srcml_unit* unit) {
     if (!unit->read_body && (unit->archive->type == SRCML_ARCHIVE_READ || unit->archive->type == SRCML_ARCHIVE_RW))
         unit->archive->reader->read_body(unit);
 
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_revision = extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number);
-        return unit->srcml_revision->c_str();
+    if (is_revision(unit)) {
+        return update(unit->srcml_revision, unit_revision(unit));
     }
 
     return unit->srcml.c_str();
@@ -396,10 +446,9 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     }
 
     // if srcdiff versioned, then use that
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_fragment_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_fragment_revision = extract_revision(unit->srcml_fragment->c_str(), (int) unit->srcml_fragment->size(), (int) *unit->archive->revision_number);
-        return unit->srcml_fragment_revision->c_str();
+    if (is_revision(unit)) {
+        const size_t removed = unit->srcml.size() - unit->srcml_fragment->size();
+        return update(unit->srcml_fragment_revision, unit_revision(unit, unit->srcml_fragment->substr(0, unit->content_begin - removed)));
     }
 
     return unit->srcml_fragment->c_str();
@@ -433,10 +482,8 @@ const char* srcml_unit_get_srcml_inner(struct srcml_unit* unit) {
         return "";
 
     // if srcdiff versioned, then use that
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_raw_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_raw_revision = extract_revision(unit->srcml.c_str() + start, rawsize, (int) *unit->archive->revision_number);
-        return unit->srcml_raw_revision->c_str();
+    if (is_revision(unit)) {
+        return update(unit->srcml_raw_revision, unit_content_revision(unit));
     }
 
     // raw version is cached
@@ -735,21 +782,24 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
 
     // if this unit was parsed from source, then the src does not exist
     // generate this source from the srcml
-    if (!unit->src) {
+    std::string revision_src;
+    const bool revised = is_revision(unit);
+    if (revised)
+        revision_src = extract_src(unit_revision(unit));
+    else if (!unit->src)
         unit->src = extract_src(unit->srcml);
-    }
+    const std::string& src = revised ? revision_src : *unit->src;
 
     // if EOL is not auto, then need to convert for
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        if (xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str()) < 0)
+        if (xmlOutputBufferWrite(output_handler.get(), (int) src.size(), src.c_str()) < 0)
             return SRCML_STATUS_IO_ERROR;
     } else {
 
         // convert to the given eol
         std::string neol(0, ' ');
-        neol.reserve(unit->src->size());
+        neol.reserve(src.size());
 
-        const std::string& src = *unit->src;
         for (size_t i = 0; i < src.size(); ++i) {
             if (src[i] != '\n') {
                 neol += src[i];
@@ -1085,9 +1135,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     // record the loc
     unit->src = extract_src(unit->srcml);
 
-    unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
-    if (!unit->src->empty() && unit->src->back() != '\n')
-        ++unit->loc;
+    unit->loc = count_lines(*unit->src);
 
     // finished with any parsing
     delete unit->unit_translator;
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 32b4d1c..66d2860 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -22,7 +22,8 @@
 
 #include <unit_utilities.hpp>
 #include <libxml/parserInternals.h>
-#include <stack>
+#include <algorithm>
+#include <vector>
 
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes) {
@@ -111,70 +112,224 @@ bool find_srcml_namespace(const std::string& xml, size_t& begin, size_t& end) {
     }, begin, end);
 }
 
-enum { INSERT, DELETE, COMMON};
+bool is_revision(const srcml_unit* unit) {
 
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only) {
+    return unit->archive && unit->archive->revision_number &&
+        (issrcdiff(unit->archive->namespaces) || (unit->namespaces && issrcdiff(*unit->namespaces)));
+}
+
+// Version of the start tag, where the attributes may have the values of both versions
+std::string start_tag_revision(const std::string& start_tag, int revision) {
 
-    const char* DIFF_PREFIX = "diff:";
+    struct Value {
+        size_t begin;
+        size_t end;
+        std::string value;
+    };
+    std::vector<Value> values;
 
-    std::stack<int> mode;
-    mode.push(COMMON);
+    size_t begin = 0;
+    size_t end = 0;
+    find_start_tag_attribute(start_tag, [&](const std::string& name, const std::string& value) {
 
-    std::string news;
-    const char* p = srcml;
-    const char* lp = p;
-    while ((p = (const char*) memchr(p, '<', size - (p - srcml)))) {
+        if (value.find('|') != std::string::npos && name != "xmlns" && name.compare(0, 6, "xmlns:") != 0)
+            values.push_back({ end - 1 - value.size(), end - 1, attribute_revision(value, revision) });
 
-        bool inmode = mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT);
+        return false;
+    }, begin, end);
+
+    std::string tag(start_tag);
+    for (auto it = values.rbegin(); it != values.rend(); ++it)
+        tag.replace(it->begin, it->end - it->begin, it->value);
+
+    return tag;
+}
 
-        // output previous non-tag text
-        if (inmode)
-            news.append(lp, p - lp);
+namespace {
+
+    enum { INSERT, DELETE, COMMON };
+
+    // an element that is open, with what it changes
+    struct open_element {
+        bool is_diff;
+        size_t declarations;
+    };
+
+    // declaration of a prefix in the scope
+    struct prefix_declaration {
+        std::string prefix;
+        bool is_diff;
+    };
+}
 
-        auto sp = p;
+// Record the declarations of prefixes in a start tag
+static void declare_prefixes(const std::string& start_tag, std::vector<prefix_declaration>& declarations) {
 
-        // skip to end of tag
-        p = (const char*) memchr(p, '>', size - (p - srcml));
-        ++p;
+    if (start_tag.find("xmlns") == std::string::npos)
+        return;
 
-        if (strncmp(sp + 1, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
+    size_t begin = 0;
+    size_t end = 0;
+    find_start_tag_attribute(start_tag, [&](const std::string& name, const std::string& value) {
 
-            const char* tstart = sp + 1 + strlen(DIFF_PREFIX);
+        if (name == "xmlns")
+            declarations.push_back({ "", value == SRCML_DIFF_NS_URI });
+        else if (name.compare(0, 6, "xmlns:") == 0)
+            declarations.push_back({ name.substr(6), value == SRCML_DIFF_NS_URI });
 
-            if (strncmp(tstart, "delete", 6) == 0) {
-                mode.push(DELETE);
-            } else if (strncmp(tstart, "insert", 6) == 0) {
-                mode.push(INSERT);
-            } else {
-                mode.push(COMMON);
+        return false;
+    }, begin, end);
+}
+
+std::string extract_revision(const std::string& srcml, size_t content_begin, size_t content_size, int revision) {
+
+    std::vector<int> modes{ COMMON };
+    std::vector<open_element> elements;
+    std::vector<prefix_declaration> declarations;
+
+    // the declarations of the start tag of the unit are in the scope
+    declare_prefixes(srcml.substr(0, content_begin), declarations);
+
+    const size_t size = std::min(srcml.size(), content_begin + content_size);
+
+    // position past the given delimiter
+    auto past = [&](const char* delimiter, size_t pos) {
+        auto delimiter_pos = srcml.find(delimiter, pos);
+        return delimiter_pos == std::string::npos ? size : std::min(size, delimiter_pos + strlen(delimiter));
+    };
+
+    std::string content;
+    size_t pos = content_begin;
+    while (pos < size) {
+
+        const int mode = modes.back();
+        const bool inmode = mode == COMMON || (revision == SRCDIFF_REVISION_ORIGINAL && mode == DELETE) ||
+                                              (revision == SRCDIFF_REVISION_MODIFIED && mode == INSERT);
+
+        // text up to the next tag
+        if (srcml[pos] != '<') {
+            const size_t end = std::min(size, srcml.find('<', pos));
+            if (inmode)
+                content.append(srcml, pos, end - pos);
+            pos = end;
+            continue;
+        }
+
+        // markup which is not a tag
+        size_t end = 0;
+        if (srcml.compare(pos, 4, "<!--") == 0)
+            end = past("-->", pos + 4);
+        else if (srcml.compare(pos, 9, "<![CDATA[") == 0)
+            end = past("]]>", pos + 9);
+        else if (srcml.compare(pos, 2, "<?") == 0)
+            end = past("?>", pos + 2);
+        if (end) {
+            if (inmode)
+                content.append(srcml, pos, end - pos);
+            pos = end;
+            continue;
+        }
+
+        // end of the tag, with attribute values that may contain a >
+        end = pos;
+        while (end < size && srcml[end] != '>') {
+            if (srcml[end] == '"' || srcml[end] == '\'')
+                end = std::min(size, srcml.find(srcml[end], end + 1));
+            if (end < size)
+                ++end;
+        }
+        if (end < size)
+            ++end;
+
+        // end tag
+        if (pos + 1 < size && srcml[pos + 1] == '/') {
+
+            bool is_diff = false;
+            if (!elements.empty()) {
+                is_diff = elements.back().is_diff;
+                declarations.resize(elements.back().declarations);
+                elements.pop_back();
             }
+
+            if (is_diff)
+                modes.pop_back();
+            else if (inmode)
+                content.append(srcml, pos, end - pos);
+
+            pos = end;
+            continue;
         }
-        else if (*(sp + 1) == '/' && strncmp(sp + 2, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
-            mode.pop();
+
+        // start tag, or an empty element
+        const std::string tag(srcml, pos, end - pos);
+        const bool is_empty = tag.size() > 2 && tag[tag.size() - 2] == '/';
+        const size_t scope = declarations.size();
+        declare_prefixes(tag, declarations);
+
+        const std::string name(tag, 1, tag.find_first_of(" \t\r\n/>") - 1);
+        const size_t colon = name.find(':');
+        const std::string prefix = colon == std::string::npos ? "" : name.substr(0, colon);
+        const std::string localname = colon == std::string::npos ? name : name.substr(colon + 1);
+
+        bool is_diff = false;
+        for (auto it = declarations.rbegin(); it != declarations.rend(); ++it) {
+            if (it->prefix == prefix) {
+                is_diff = it->is_diff;
+                break;
+            }
         }
-        else {
-            if (inmode && !text_only)
-                news.append(sp, p - sp);
+
+        if (!is_diff && inmode)
+            content += tag;
+
+        if (is_empty) {
+            declarations.resize(scope);
+        } else {
+            elements.push_back({ is_diff, scope });
+            if (is_diff)
+                modes.push_back(localname == "delete" ? DELETE : (localname == "insert" ? INSERT : COMMON));
         }
 
-        lp = p;
+        pos = end;
     }
 
-    return news;
+    return content;
+}
+
+std::string unit_content_revision(const srcml_unit* unit) {
+
+    const int size = unit->content_end - unit->content_begin - 1;
+    if (size <= 0)
+        return "";
+
+    return extract_revision(unit->srcml, unit->content_begin, size, (int) *unit->archive->revision_number);
+}
+
+std::string unit_revision(const srcml_unit* unit) {
+
+    return unit_revision(unit, unit->srcml.substr(0, unit->content_begin));
+}
+
+std::string unit_revision(const srcml_unit* unit, const std::string& start_tag) {
+
+    // start tag, content, and end tag
+    std::string revision = start_tag_revision(start_tag, (int) *unit->archive->revision_number);
+    revision += unit_content_revision(unit);
+    const size_t end_tag = std::max(unit->content_begin, unit->content_end - 1);
+    if (end_tag < unit->srcml.size())
+        revision.append(unit->srcml, end_tag, std::string::npos);
+
+    return revision;
 }
 
 struct extract_context {
     std::string s;
-    boost::optional<int> revision;
-    std::stack<int> mode;
 };
 
 // Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision) {
+std::string extract_src(const std::string& srcml) {
 
     extract_context scontext;
-    scontext.revision = revision;
-    scontext.mode.push(COMMON);
 
     // parse the srcml collecting the (now needed) src
     xmlSAXHandler charactersax;
@@ -222,14 +377,6 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
                 scontext->s.append(1, value);
             }
 
-        } else if (scontext->revision && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
-
-            if (std::string((const char*) localname) == "INSERT")
-                scontext->mode.push(INSERT);
-            else if (std::string((const char*) localname) == "DELETE")
-                scontext->mode.push(DELETE);
-            else
-                scontext->mode.push(COMMON);
         }
     };
 
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 603b8b1..9808dbd 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -42,8 +42,22 @@ bool find_srcml_namespace(const std::string& xml, size_t& begin, size_t& end);
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
 // Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision = boost::none);
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only = false);
+std::string extract_src(const std::string& srcml);
+
+// If a revision is selected, and the unit is part of a srcDiff archive
+bool is_revision(const srcml_unit* unit);
+
+// Version of the content, in the scope of the start tag that the srcml starts with
+std::string extract_revision(const std::string& srcml, size_t content_begin, size_t content_size, int revision);
+
+// Version of the content of a unit for the selected revision
+std::string unit_content_revision(const srcml_unit* unit);
+
+// Version of the srcml of a unit for the selected revision, optionally with another form of the start tag
+std::string unit_revision(const srcml_unit* unit);
+std::string unit_revision(const srcml_unit* unit, const std::string& start_tag);
+
+// Version of an attribute which may have the values of both versions
 std::string attribute_revision(const std::string& attribute, int revision);
 
 #endif
-- 
2.43.0


From d16f34d3e45cc8396b614ed556c7c10904440d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:40 +0000
Subject: [PATCH 77/96] fix: lines before the first element of a solitary unit
 are not counted

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 3 ++-
 src/libsrcml/srcml_reader_handler.hpp | 2 --
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 3323125..6821dbd 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -537,8 +537,9 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     ctxt->sax->cdataBlock = &cdata_block;
     ctxt->sax->processingInstruction = &processing_instruction;
 
-    // start to collect source
+    // start to collect source, and to count its lines
     state->unitsrc.clear();
+    state->loc = 0;
 
     SRCSAX_DEBUG_END(localname);
 }
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 600a39a..694ad15 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -424,8 +424,6 @@ public :
             pause(lock);
         }
 
-        state->loc = 0;
-
         state->collect_unit_body = collect_unit_body;
 
         if (terminate)
-- 
2.43.0


From c0ceaec0506c933d87624e0b561171c0b4d684c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 78/96] fix: namespace of an element or attribute added by a
 transformation is not declared by the unit

---
 src/libsrcml/srcml_transform.cpp | 63 ++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index e435b00..884c147 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -583,6 +583,65 @@ static bool usesURI(xmlNode* cur_node, const std::string& URI) {
 // marks namespaces that are not declared on the node itself
 static char inherited[] = "inherited";
 
+/**
+ * declare_namespaces
+ * @param unit the unit of a result
+ * @param node an element of the result
+ * @param scope the namespaces declared in the result, around the element
+ * @param cut if the start tag of the element is not part of the result
+ *
+ * Declare on the unit those namespaces the element uses that are declared neither
+ * in the result, nor for the unit already.
+ */
+static void declare_namespaces(srcml_unit* unit, xmlNodePtr node, std::vector<const xmlNs*> scope, bool cut) {
+
+    for (const xmlNs* ns = node->nsDef; ns && !cut && ns->_private != inherited; ns = ns->next)
+        scope.push_back(ns);
+
+    auto declare = [&](const xmlNs* ns) {
+
+        if (ns == nullptr || ns->prefix == nullptr || ns->href == nullptr || strcmp((const char*) ns->prefix, "xml") == 0)
+            return;
+
+        const std::string prefix = (const char*) ns->prefix;
+        const std::string uri = (const char*) ns->href;
+
+        for (auto it = scope.rbegin(); it != scope.rend(); ++it) {
+            if ((*it)->prefix && prefix == (const char*) (*it)->prefix) {
+                if (uri == (const char*) (*it)->href)
+                    return;
+                break;
+            }
+        }
+
+        // standard namespaces are declared when used
+        const auto& standard = default_namespaces.get<nstags::uri>();
+        if (standard.find(uri) != standard.end())
+            return;
+
+        auto& view = unit->namespaces->get<nstags::uri>();
+        auto it = view.find(uri);
+        if (it != view.end()) {
+            view.modify(it, [&](Namespace& thisns){ thisns.prefix = prefix; });
+            return;
+        }
+
+        const auto& aview = unit->archive->namespaces.get<nstags::uri>();
+        auto ait = aview.find(uri);
+        if (ait == aview.end() || ait->prefix != prefix)
+            unit->namespaces->push_back({ prefix, uri, NS_REGISTERED | NS_USED });
+    };
+
+    declare(node->ns);
+    for (xmlAttrPtr attr = node->properties; attr; attr = attr->next)
+        declare(attr->ns);
+
+    for (xmlNodePtr child = node->children; child; child = child->next) {
+        if (child->type == XML_ELEMENT_NODE)
+            declare_namespaces(unit, child, scope, false);
+    }
+}
+
 /**
  * element_document
  * @param node an element
@@ -918,6 +977,10 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
                 }
             }
 
+            // other namespaces, e.g., of a new element or attribute
+            if (node->type == XML_ELEMENT_NODE)
+                declare_namespaces(nunit, node, std::vector<const xmlNs*>(), unitWrapped);
+
             break;
         }
 
-- 
2.43.0


From 4ba1ab53e3d5728683f63628402d5712d03efab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 79/96] fix: a prefix of several namespaces is declared more
 than once in a tag

---
 src/parser/srcMLOutput.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 766eea2..bedff79 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -270,8 +270,25 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
     if (isoption(options, SRCML_OPTION_DEBUG))
         view.find(SRCML_ERROR_NS_URI)->flags |= NS_USED;
 
+    // a prefix can only be declared once in a tag. Standard namespaces come first, otherwise the latest
+    std::map<std::string, const Namespace*> prefixes;
     for (const auto& ns : namespaces) {
 
+        const bool registered = (ns.flags & NS_REGISTERED) && !(ns.flags & NS_STANDARD);
+        if (!registered && !(ns.flags & (NS_REQUIRED | NS_USED)))
+            continue;
+
+        const Namespace*& current = prefixes[ns.prefix];
+        if (!current || !(current->flags & NS_STANDARD) || (ns.flags & NS_STANDARD))
+            current = &ns;
+    }
+
+    for (const auto& ns : namespaces) {
+
+        auto current = prefixes.find(ns.prefix);
+        if (current == prefixes.end() || current->second != &ns)
+            continue;
+
         bool output = false;
 
         // output standard namespaces for outer unit or non-archive unit
-- 
2.43.0


From cc998fa0316d0d5ffab77d129e78396542c99c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 80/96] fix: long information counts a unit in an archive
 without units

---
 src/client/srcml_display_metadata.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/srcml_display_metadata.cpp b/src/client/srcml_display_metadata.cpp
index 3d51872..b2bb789 100644
--- a/src/client/srcml_display_metadata.cpp
+++ b/src/client/srcml_display_metadata.cpp
@@ -109,7 +109,9 @@ namespace {
 
         if (long_info) {
 
-            ++unit_count;
+            // may be an archive without units
+            if (unit)
+                ++unit_count;
 
             while (srcml_archive_skip_unit(srcml_arch)) {
 
-- 
2.43.0


From 4298fe82d2f656f1b773b63af2c8e0dd0968556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 81/96] fix: empty string result of a transformation is read
 out of bounds

---
 src/client/srcml_write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index 02717e7..3c8e528 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -146,7 +146,7 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
             srcml_archive_write_string(output_archive, s, (int) strlen(s));
 
             // if the string does not end in a newline, output one
-            if (s[strlen(s) - 1] != '\n')
+            if (s[0] == '\0' || s[strlen(s) - 1] != '\n')
                 srcml_archive_write_string(output_archive, "\n", 1);
 
             srcml_transform_free(request->results);
-- 
2.43.0


From 72f36587647f1d0454599ea6204f12d5264e9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:41 +0000
Subject: [PATCH 82/96] fix: metadata of a selected unit is not shown

---
 src/client/srcml_pretty.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/client/srcml_pretty.cpp b/src/client/srcml_pretty.cpp
index 83cee8a..42cff7d 100644
--- a/src/client/srcml_pretty.cpp
+++ b/src/client/srcml_pretty.cpp
@@ -233,15 +233,14 @@ void display_template(srcml_archive* srcml_arch, pretty_template_t& output_templ
 
     std::unique_ptr<srcml_unit> unit;
 
+    // move to the requested unit
     if (unit_num > 0 && !(xml)) {
-        while (unit_count != unit_num) {
+        while (unit_count != unit_num - 1) {
             srcml_archive_skip_unit(srcml_arch);
             ++unit_count;
         }
     }
-    else {
-        unit.reset(srcml_archive_read_unit(srcml_arch));
-    }
+    unit.reset(srcml_archive_read_unit(srcml_arch));
 
     if (output_template.body) {
         while (unit) {
@@ -299,7 +298,7 @@ void display_template(srcml_archive* srcml_arch, pretty_template_t& output_templ
             unit.reset(srcml_archive_read_unit(srcml_arch));
 
             // When you want to print only the information from a specific unit
-            if (unit_num > 0 && unit_num == unit_count && !(xml)) {
+            if (unit_num > 0 && unit_num == unit_count + 1 && !(xml)) {
                 break;
             }
 
-- 
2.43.0


From 46b9a97709c858bc69a6ba6bc97e9bc686ddecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:02 +0000
Subject: [PATCH 83/96] fix: attribute added by a transformation loses its
 namespace in later transformations

---
 src/libsrcml/xpathTransformation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 7607d6e..f3c0d42 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -309,6 +309,12 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (result_nodes->type != XPATH_NODESET)
         return tresult;
 
+    // namespaces of what is added have to be declared, or copies of it do not keep them
+    for (const auto ns : { element_ns, attr_ns }) {
+        if (ns && !xmlSearchNs(doc, xmlDocGetRootElement(doc), ns->prefix))
+            xmlNewNs(xmlDocGetRootElement(doc), ns->href, ns->prefix);
+    }
+
     if (!element.empty()) {
 
         addElementXPathResults(doc, result_nodes.get());
-- 
2.43.0


From 84d21866db9ba4a9bfc31120d1034de49e974116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:52 +0000
Subject: [PATCH 84/96] fix: unit that is a result of a transformation gets its
 number twice

---
 src/libsrcml/srcml_transform.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 884c147..824378d 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -874,8 +874,16 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         auto nunit = srcml_unit_clone(unit);
         nunit->read_body = nunit->read_header = true;
         if (!unitWrapped) {
-            nunit->attributes.push_back("item");
-            nunit->attributes.push_back(std::to_string(i + 1));
+            // the unit may itself be a result, and then already has the attribute
+            auto& attributes = nunit->attributes;
+            for (size_t j = 0; j + 1 < attributes.size(); j += 2) {
+                if (attributes[j] == "item") {
+                    attributes.erase(attributes.begin() + j, attributes.begin() + j + 2);
+                    break;
+                }
+            }
+            attributes.push_back("item");
+            attributes.push_back(std::to_string(i + 1));
             nunit->hash = boost::none;
         }
 
-- 
2.43.0


From f6da8178e1516fa1b20738dc610a08abf5abd4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:21 +0000
Subject: [PATCH 85/96] fix: namespaces of a srcML input are registered while
 the output is in use

---
 src/client/ParseQueue.hpp        | 12 ++++++++++++
 src/client/WriteQueue.cpp        | 17 +++++++++++++++++
 src/client/WriteQueue.hpp        |  5 +++++
 src/client/srcml_input_srcml.cpp | 16 +++++++++++++---
 4 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/client/ParseQueue.hpp b/src/client/ParseQueue.hpp
index 1807baf..69e1848 100644
--- a/src/client/ParseQueue.hpp
+++ b/src/client/ParseQueue.hpp
@@ -57,6 +57,18 @@ public:
         pool.push(srcml_consume, pvalue, wqueue);
     }
 
+    // wait until everything scheduled so far is written
+    inline void waitWritten() {
+
+        int last;
+        {
+            std::unique_lock<std::mutex> l(e);
+
+            last = counter;
+        }
+        wqueue->wait(last);
+    }
+
     inline void wait() {
 
         pool.stop(true);
diff --git a/src/client/WriteQueue.cpp b/src/client/WriteQueue.cpp
index c819409..1898d1e 100644
--- a/src/client/WriteQueue.cpp
+++ b/src/client/WriteQueue.cpp
@@ -51,6 +51,14 @@ void WriteQueue::schedule(std::shared_ptr<ParseRequest> pvalue) {
     cv.notify_one();
 }
 
+void WriteQueue::wait(int number) {
+
+    std::unique_lock<std::mutex> lock(qmutex);
+
+    while (written < number)
+        written_cv.wait(lock);
+}
+
 void WriteQueue::stop() {
 
     {
@@ -91,5 +99,14 @@ void WriteQueue::process() {
 
         // finally write it out
         srcml_write_request(pvalue, log, destination);
+
+        // done with this request
+        pvalue.reset();
+        {
+            std::lock_guard<std::mutex> lock(qmutex);
+
+            ++written;
+        }
+        written_cv.notify_all();
     }
 }
diff --git a/src/client/WriteQueue.hpp b/src/client/WriteQueue.hpp
index 272ccec..b2e1d66 100644
--- a/src/client/WriteQueue.hpp
+++ b/src/client/WriteQueue.hpp
@@ -41,6 +41,9 @@ public:
     // writes out the current srcml
     void schedule(std::shared_ptr<ParseRequest> pvalue);
 
+    // wait until the given number of requests are written
+    void wait(int number);
+
     // stop the write process, allowing it to finish up
     void stop();
 
@@ -59,6 +62,8 @@ public:
     std::priority_queue<std::shared_ptr<ParseRequest>, std::deque<std::shared_ptr<ParseRequest>>, bool (*)(std::shared_ptr<ParseRequest>, std::shared_ptr<ParseRequest>)> q;
     std::mutex qmutex;
     std::condition_variable cv;
+    std::condition_variable written_cv;
+    int written = 0;
     int total = 0;
     bool completed = false;
 };
diff --git a/src/client/srcml_input_srcml.cpp b/src/client/srcml_input_srcml.cpp
index cac7212..fe51cf6 100644
--- a/src/client/srcml_input_srcml.cpp
+++ b/src/client/srcml_input_srcml.cpp
@@ -30,6 +30,8 @@
 #include <srcmlns.hpp>
 #include <SRCMLStatus.hpp>
 #include <OpenFileLimiter.hpp>
+#include <map>
+#include <string>
 
 int srcml_input_srcml(ParseQueue& queue,
                        srcml_archive* srcml_output_archive,
@@ -73,9 +75,17 @@ int srcml_input_srcml(ParseQueue& queue,
                 continue;
 
             // register the input srcml archive namespace
-            srcml_archive_register_namespace(srcml_output_archive,
-                srcml_archive_get_namespace_prefix(srcml_input_archive.get(), i),
-                srcml_archive_get_namespace_uri(srcml_input_archive.get(), i));
+            const char* prefix = srcml_archive_get_namespace_prefix(srcml_input_archive.get(), i);
+            const char* uri = srcml_archive_get_namespace_uri(srcml_input_archive.get(), i);
+            static std::map<std::string, std::string> registered;
+            auto it = registered.find(uri);
+            if (it != registered.end() && it->second == prefix)
+                continue;
+            registered[uri] = prefix;
+
+            // the output archive is in use as long as units are parsed, transformed, and written
+            queue.waitWritten();
+            srcml_archive_register_namespace(srcml_output_archive, prefix, uri);
         }
     }
 
-- 
2.43.0


From cf251683a663bbddf1a4ff69aa5dd19ef699610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:36 +0000
Subject: [PATCH 86/96] fix: form of a document read depends on the document
 the archive read before

---
 src/libsrcml/srcml_reader_handler.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 694ad15..79a7f9e 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -265,7 +265,10 @@ public :
         fprintf(stderr, "HERE: %s %s %d '%s'\n", __FILE__, __FUNCTION__, __LINE__, (const char *)localname);
 #endif
 
-        if (!is_archive)
+        // also when another document was read before
+        if (is_archive)
+            archive->options |= SRCML_OPTION_ARCHIVE;
+        else
             archive->options &= ~SRCML_OPTION_ARCHIVE;
 
         // collect attributes
-- 
2.43.0


From 151a9a7a23fe8071c33ce0ad01f07a8c4fa67a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:36 +0000
Subject: [PATCH 87/96] fix: encoding of a document read is used to decode the
 next one the archive reads

---
 src/libsrcml/srcml_archive.cpp        | 17 ++++++++++++-----
 src/libsrcml/srcml_reader_handler.hpp |  1 +
 src/libsrcml/srcml_types.hpp          |  2 ++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 9683579..1cd3fdd 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -206,6 +206,7 @@ int srcml_archive_set_xml_encoding(struct srcml_archive* archive, const char* en
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->encoding = encoding ? std::string(encoding) : boost::optional<std::string>();
+    archive->derived_encoding = false;
 
     return SRCML_STATUS_OK;
 }
@@ -1040,6 +1041,12 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
  *                                                                            *
  ******************************************************************************/
 
+// encoding to read with. The encoding of a previously read document is not a setting
+static xmlCharEncoding input_encoding(const struct srcml_archive* archive) {
+
+    return archive->encoding && !archive->derived_encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE;
+}
+
 // input whose reads are complete, except at the end of the input
 struct complete_input {
     xmlInputReadCallback read;
@@ -1122,7 +1129,7 @@ int srcml_archive_read_open_filename(struct srcml_archive* archive, const char*
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFilename(srcml_filename, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
+    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFilename(srcml_filename, input_encoding(archive)));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
 }
@@ -1146,7 +1153,7 @@ int srcml_archive_read_open_memory(struct srcml_archive* archive, const char* bu
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    xmlCharEncoding encoding = archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE;
+    xmlCharEncoding encoding = input_encoding(archive);
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateMem(buffer, (int)buffer_size, encoding));
 
     // buffer stuff
@@ -1192,7 +1199,7 @@ int srcml_archive_read_open_FILE(struct srcml_archive* archive, FILE* srcml_file
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFile(srcml_file, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
+    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFile(srcml_file, input_encoding(archive)));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
 }
@@ -1215,7 +1222,7 @@ int srcml_archive_read_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFd(srcml_fd, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
+    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFd(srcml_fd, input_encoding(archive)));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
 }
@@ -1240,7 +1247,7 @@ int srcml_archive_read_open_io(struct srcml_archive* archive, void * context, in
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateIO(read_callback, close_callback, context, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
+    std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateIO(read_callback, close_callback, context, input_encoding(archive)));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
 }
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 79a7f9e..c8607b4 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -243,6 +243,7 @@ public :
     virtual void startDocument() {
 
         srcml_archive_set_xml_encoding(archive, encoding ? encoding : "UTF-8");
+        archive->derived_encoding = true;
     }
 
     /**
diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index fbe3389..f7c963b 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -112,6 +112,8 @@ struct srcml_archive {
 
     /** an attribute for the xml encoding */
     boost::optional<std::string> encoding;
+    /** the xml encoding is that of a document read, and was not set */
+    bool derived_encoding = false;
     /** source encoding */
     boost::optional<std::string> src_encoding;
     /** an attribute for a revision */
-- 
2.43.0


From ef3acfbf25ae8567b70c174429cc14794312ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:36 +0000
Subject: [PATCH 88/96] fix: extraction replaces a file in the way of a
 directory

---
 src/client/mkDir.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/mkDir.cpp b/src/client/mkDir.cpp
index 06ee588..e653618 100644
--- a/src/client/mkDir.cpp
+++ b/src/client/mkDir.cpp
@@ -25,6 +25,8 @@
 mkDir::mkDir() {
 
     arch = archive_write_disk_new();
+    // a file that is in the way is not replaced by a directory
+    archive_write_disk_set_options(arch, ARCHIVE_EXTRACT_NO_OVERWRITE);
     entry = archive_entry_new();
     archive_entry_set_filetype(entry, AE_IFDIR);
     archive_entry_set_perm(entry, 0744);
-- 
2.43.0


From 74705f3b1f90be4cbdfa04cbd6e086deacba2a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:36 +0000
Subject: [PATCH 89/96] fix: line ending and encoding asked for are not used
 when extracting to a directory or source archive

---
 src/client/create_src.cpp            |  4 ++--
 src/client/src_output_filesystem.cpp | 10 +++++++++-
 src/client/src_output_filesystem.hpp |  3 ++-
 src/client/src_output_libarchive.cpp | 10 +++++++++-
 src/client/src_output_libarchive.hpp |  3 ++-
 5 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 1066822..8959f86 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -99,7 +99,7 @@ void create_src(const srcml_request_t& srcml_request,
         for (const auto& input_source : input_sources) {
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
-            src_output_filesystem(arch.get(), destination, log);
+            src_output_filesystem(arch.get(), destination, srcml_request, log);
         }
 
     } else if (input_sources.size() == 1 && contains<int>(destination) &&
@@ -222,7 +222,7 @@ void create_src(const srcml_request_t& srcml_request,
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
             // extract this srcml archive to the source archive
-            src_output_libarchive(arch.get(), ar.get());
+            src_output_libarchive(arch.get(), ar.get(), srcml_request);
         }
     }
 
diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 35ae57c..68bc9e2 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -51,7 +51,7 @@ namespace {
     }
 }
 
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, const srcml_request_t& srcml_request, TraceLog& log) {
 
     // all output is below the output directory, including that of the current directory
     const std::string& prefix = output_dir;
@@ -87,6 +87,14 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
         // use libarchive to create the file path
         dir.mkdir(path);
 
+        // set encoding for source output
+        if (srcml_request.src_encoding)
+            srcml_archive_set_src_encoding(srcml_arch, srcml_request.src_encoding->c_str());
+
+        // if requested eol, then use that
+        if (srcml_request.eol)
+            srcml_unit_set_eol(unit.get(), *srcml_request.eol);
+
         // unparse directory to filename
         log << ++count << fullfilename;
 
diff --git a/src/client/src_output_filesystem.hpp b/src/client/src_output_filesystem.hpp
index e3f44c6..4686e83 100644
--- a/src/client/src_output_filesystem.hpp
+++ b/src/client/src_output_filesystem.hpp
@@ -26,7 +26,8 @@
 #include <srcml.h>
 #include <string>
 #include <TraceLog.hpp>
+#include <srcml_cli.hpp>
 
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log);
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, const srcml_request_t& srcml_request, TraceLog& log);
 
 #endif
diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 766f5dc..8b80422 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -32,7 +32,7 @@
 #include <libarchive_utilities.hpp>
 #include <srcml_utilities.hpp>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
+void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive, const srcml_request_t& srcml_request) {
 
     ssize_t arch_status = ARCHIVE_OK;
     int unitcounter = 0;
@@ -55,6 +55,14 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         if (!entry)
             break;
 
+        // set encoding for source output
+        if (srcml_request.src_encoding)
+            srcml_archive_set_src_encoding(srcml_arch, srcml_request.src_encoding->c_str());
+
+        // if requested eol, then use that
+        if (srcml_request.eol)
+            srcml_unit_set_eol(unit.get(), *srcml_request.eol);
+
         // Convert from srcML back to source in a buffer
         char* buffer;
         size_t buffer_size;
diff --git a/src/client/src_output_libarchive.hpp b/src/client/src_output_libarchive.hpp
index e9c1397..25bbfd7 100644
--- a/src/client/src_output_libarchive.hpp
+++ b/src/client/src_output_libarchive.hpp
@@ -25,7 +25,8 @@
 
 #include <archive.h>
 #include <srcml.h>
+#include <srcml_cli.hpp>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* ar);
+void src_output_libarchive(srcml_archive* srcml_arch, archive* ar, const srcml_request_t& srcml_request);
 
 #endif
-- 
2.43.0


From 2caa63ea975f1b2623345f1494d02da4b438a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:42 +0000
Subject: [PATCH 90/96] fix: client reports success when the output could not
 be written

---
 src/client/compress_srcml.cpp  |  9 ++++++---
 src/client/create_src.cpp      |  6 +++++-
 src/client/create_srcml.cpp    |  8 +++++---
 src/client/srcml_write.cpp     | 10 ++++++++--
 src/libsrcml/srcml.h           |  2 +-
 src/libsrcml/srcml_archive.cpp |  4 ++--
 6 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/client/compress_srcml.cpp b/src/client/compress_srcml.cpp
index 57affd2..873b29a 100644
--- a/src/client/compress_srcml.cpp
+++ b/src/client/compress_srcml.cpp
@@ -80,9 +80,12 @@ void compress_srcml(const srcml_request_t& /* srcml_request */,
         if (s <= 0)
             break;
 
-        ssize_t status = archive_write_data(ar.get(), buffer.data(), s);
-        if (status == 0)
-            break;
+        // keep on reading, since the previous step has to be able to finish
+        if (archive_write_data(ar.get(), buffer.data(), s) < 0)
+            status = ARCHIVE_FATAL;
     }
+
+    if (archive_write_close(ar.get()) != ARCHIVE_OK || status != ARCHIVE_OK)
+        SRCMLstatus(ERROR_MSG, "srcml: unable to write all of the output");
 }
 #endif
diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 8959f86..c931a4d 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -145,7 +145,8 @@ void create_src(const srcml_request_t& srcml_request,
             }
 
             // unparse directly to the destintation
-            srcml_unit_unparse_fd(unit.get(), destination);
+            if (srcml_unit_unparse_fd(unit.get(), destination) != SRCML_STATUS_OK)
+                SRCMLstatus(ERROR_MSG, "srcml: unable to write to output");
 
             // get out if only one unit
             if (srcml_request.unit)
@@ -224,6 +225,9 @@ void create_src(const srcml_request_t& srcml_request,
             // extract this srcml archive to the source archive
             src_output_libarchive(arch.get(), ar.get(), srcml_request);
         }
+
+        if (archive_write_close(ar.get()) != ARCHIVE_OK)
+            SRCMLstatus(ERROR_MSG, "srcml: unable to write all of the output");
     }
 
     // end of input for a following step
diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index fdb5b71..dea8cb2 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -122,8 +122,10 @@ void create_srcml(const srcml_request_t& srcml_request,
 
             nstatus = srcml_archive_write_open_filename(srcml_arch.get(), destination.c_str());
         }
-        if (nstatus != SRCML_STATUS_OK)
+        if (nstatus != SRCML_STATUS_OK) {
+            SRCMLstatus(ERROR_MSG, "srcml: unable to open output file %s", destination.resource);
             return;
+        }
     }
 
     // set options for the output srcml archive
@@ -356,8 +358,8 @@ void create_srcml(const srcml_request_t& srcml_request,
         ParserTest::report(srcml_arch.get());
     }
 
-    if (status != -1 || always_archive) {
-        srcml_archive_close(srcml_arch.get());
+    if ((status != -1 || always_archive) && srcml_archive_close(srcml_arch.get()) != SRCML_STATUS_OK) {
+        SRCMLstatus(ERROR_MSG, "srcml: unable to write all of the output");
     }
 
     // archive must be complete before the output is closed, even with errors
diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index 3c8e528..a21904c 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -72,7 +72,8 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
     // Note: not counted by the OpenFileLimiter. Requests waiting to be written can hold all that are allowed,
     // and are only given back after they are written
     auto cloned_deleter = [](srcml_archive* arch) {
-        srcml_archive_close(arch);
+        if (srcml_archive_close(arch) != SRCML_STATUS_OK)
+            SRCMLstatus(ERROR_MSG, "srcml: unable to write all of the output");
         srcml_archive_free(arch);
     };
     std::unique_ptr<srcml_archive, decltype(cloned_deleter)> cloned(nullptr, cloned_deleter);
@@ -110,7 +111,12 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
         srcml_archive_enable_solitary_unit(output_archive);
         srcml_archive_disable_hash(output_archive);
 
-        srcml_archive_write_open_filename(output_archive, filename.c_str());
+        if (srcml_archive_write_open_filename(output_archive, filename.c_str()) != SRCML_STATUS_OK) {
+            SRCMLstatus(ERROR_MSG, "srcml: unable to open output file %s", filename);
+            if (request->results)
+                srcml_transform_free(request->results);
+            return;
+        }
     }
 
     // output scalar results
diff --git a/src/libsrcml/srcml.h b/src/libsrcml/srcml.h
index a26d639..244630c 100644
--- a/src/libsrcml/srcml.h
+++ b/src/libsrcml/srcml.h
@@ -614,7 +614,7 @@ LIBSRCML_DECL int srcml_archive_write_string(struct srcml_archive* archive, cons
  * The archive can be reopened.
  * @param archive An open srcml_archive
  */
-LIBSRCML_DECL void srcml_archive_close(struct srcml_archive* archive);
+LIBSRCML_DECL int srcml_archive_close(struct srcml_archive* archive);
 
 /**
  * Free a srcml archive that was previously allocated
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1cd3fdd..78b94e3 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1411,9 +1411,9 @@ int srcml_archive_skip_unit(struct srcml_archive* archive) {
  * or srcml_archive_write_open_*.
  * Archive can be reopened.
  */
-void srcml_archive_close(struct srcml_archive* archive) {
+int srcml_archive_close(struct srcml_archive* archive) {
 
-    srcml_archive_close_output(archive);
+    return srcml_archive_close_output(archive);
 }
 
 // close an archive, with a status on whether all of the output was written
-- 
2.43.0


From 541e27f8c2848995fb4511a53ea5b4752ce67390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:23 +0000
Subject: [PATCH 91/96] fix: client reports success when metadata could not be
 written

---
 src/client/srcml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/srcml.cpp b/src/client/srcml.cpp
index ce0ff62..a7b40af 100644
--- a/src/client/srcml.cpp
+++ b/src/client/srcml.cpp
@@ -159,6 +159,10 @@ See `srcml --help` for more information.
     // execute the pipeline
     srcml_execute(srcml_request, pipeline, srcml_request.input_sources, srcml_request.output_filename);
 
+    // metadata is complete only if all of it reached the output
+    if (!std::cout.flush())
+        SRCMLstatus(ERROR_MSG, "srcml: unable to write to output");
+
     srcml_cleanup_globals();
 
     // debugging information
-- 
2.43.0


From 899796597bc90565017cd19b6985cc44d0efc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:23 +0000
Subject: [PATCH 92/96] fix: rest of the output lost, with success reported,
 after a write took only a part of it

---
 src/libsrcml/libxml2_utilities.hpp | 19 +++++++++++++++++++
 src/libsrcml/srcml_archive.cpp     |  2 ++
 src/libsrcml/srcml_unit.cpp        |  2 +-
 src/parser/srcMLOutput.cpp         |  6 +++++-
 4 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libxml2_utilities.hpp b/src/libsrcml/libxml2_utilities.hpp
index b0c2d34..786f81d 100644
--- a/src/libsrcml/libxml2_utilities.hpp
+++ b/src/libsrcml/libxml2_utilities.hpp
@@ -104,4 +104,23 @@ inline xmlOutputBufferPtr outputBufferCreateFilename(const char* filename, xmlCh
     return xmlOutputBufferCreateFilename(name.c_str(), encoder, 0);
 }
 
+// libxml2 writes once for each flush, and that may take only a part of what is buffered
+// flush until nothing is left
+inline bool outputBufferFlush(xmlOutputBufferPtr output) {
+
+    int size = 0;
+    do {
+        size = xmlOutputBufferFlush(output);
+        if (size < 0)
+            return false;
+
+        if (!output->writecallback || (xmlBufUse(output->buffer) == 0 && xmlBufUse(output->conv) == 0))
+            return true;
+
+    } while (size > 0);
+
+    // data is left, but nothing more is taken
+    return false;
+}
+
 #endif
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 78b94e3..8da8713 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -23,6 +23,7 @@
 #include <srcmlns.hpp>
 #include <srcml_translator.hpp>
 #include <srcml_sax2_reader.hpp>
+#include <libxml2_utilities.hpp>
 #include <libxml/encoding.h>
 
 /**
@@ -1438,6 +1439,7 @@ int srcml_archive_close_output(struct srcml_archive* archive) {
     }
 
     if (archive->output_buffer) {
+        written = outputBufferFlush(archive->output_buffer) && written;
         written = xmlOutputBufferClose(archive->output_buffer) >= 0 && written;
         archive->output_buffer = nullptr;
     }
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index a74082b..4138bcd 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -822,7 +822,7 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
     }
 
     // all of it has to reach the destination
-    bool flushed = xmlOutputBufferFlush(output_handler.get()) >= 0;
+    bool flushed = outputBufferFlush(output_handler.get());
     if (xmlOutputBufferClose(output_handler.release()) < 0 || !flushed)
         return SRCML_STATUS_IO_ERROR;
 
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bedff79..7289ef2 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -28,6 +28,7 @@
 #include "srcMLToken.hpp"
 #include "srcmlns.hpp"
 #include <srcml.h>
+#include <libxml2_utilities.hpp>
 
 // Definition of elements, including name, URI, attributes, and special processing
 // Included to take advantage of inlined methods
@@ -130,6 +131,8 @@ bool srcMLOutput::close() {
     if (xout) {
 
         written = (didwrite ? xmlTextWriterEndDocument(xout) : xmlTextWriterFlush(xout)) >= 0;
+        if (output_buffer)
+            written = outputBufferFlush(output_buffer) && written;
 
         // freeing the writer does not report if the output could be closed, so close it here
         if (output_buffer && output_buffer->closecallback) {
@@ -143,7 +146,8 @@ bool srcMLOutput::close() {
 
     } else if (output_buffer) {
 
-        written = xmlOutputBufferClose(output_buffer) >= 0;
+        written = outputBufferFlush(output_buffer);
+        written = xmlOutputBufferClose(output_buffer) >= 0 && written;
         output_buffer = 0;
     }
 
-- 
2.43.0


From d70eae138673231f6576538fe1aa396d2a26da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:29 +0000
Subject: [PATCH 93/96] fix: compressions of output applied in the reverse of
 the order in its name

---
 src/client/compress_srcml.cpp | 6 +++---
 src/client/create_src.cpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/client/compress_srcml.cpp b/src/client/compress_srcml.cpp
index 873b29a..db38c7c 100644
--- a/src/client/compress_srcml.cpp
+++ b/src/client/compress_srcml.cpp
@@ -41,9 +41,9 @@ void compress_srcml(const srcml_request_t& /* srcml_request */,
     }
     archive_write_set_format_raw(ar.get());
 
-    // setup compressions
-    for (const auto& ext : destination.compressions)
-        archive_write_set_compression_by_extension(ar.get(), ext.c_str());
+    // setup compressions. The innermost, i.e., first in the name, comes first
+    for (auto ext = destination.compressions.rbegin(); ext != destination.compressions.rend(); ++ext)
+        archive_write_set_compression_by_extension(ar.get(), ext->c_str());
 
     // open the new archive based on input source
     int status = ARCHIVE_OK;
diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index c931a4d..f50de26 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -202,9 +202,9 @@ void create_src(const srcml_request_t& srcml_request,
         for (const auto& ext : destination.archives)
             archive_write_set_format_by_extension(ar.get(), ext.c_str());
 
-        // setup compressions
-        for (const auto& ext : destination.compressions)
-            archive_write_set_compression_by_extension(ar.get(), ext.c_str());
+        // setup compressions. The innermost, i.e., first in the name, comes first
+        for (auto ext = destination.compressions.rbegin(); ext != destination.compressions.rend(); ++ext)
+            archive_write_set_compression_by_extension(ar.get(), ext->c_str());
 
         int status = ARCHIVE_OK;
         if (contains<int>(destination)) {
-- 
2.43.0


From dcf5eb60099d4f55a12d8234c48dcc3ad96cbabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:07 +0000
Subject: [PATCH 94/96] fix: parse with the source encoding of the unit itself,
 not of a temporary copy of it

---
 src/libsrcml/srcml_unit.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 4138bcd..90f4059 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -528,7 +528,9 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         return SRCML_STATUS_UNSET_LANGUAGE;
 
     // an encoding from a previous parse is not a setting
-    const char* src_encoding = optional_to_c_str(unit->derived_encoding ? boost::none : unit->encoding, optional_to_c_str(unit->archive->src_encoding));
+    const char* src_encoding = optional_to_c_str(unit->archive->src_encoding);
+    if (!unit->derived_encoding)
+        src_encoding = optional_to_c_str(unit->encoding, src_encoding);
 
     // verify encoding here instead of later, when more difficult to handle errors
     if (src_encoding) {
-- 
2.43.0


From ac47faf18ffeab63e06a6b91474512e905da72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:44 +0000
Subject: [PATCH 95/96] fix: do not read past the end of a --text that ends
 with a backslash

---
 src/client/src_input_text.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index 59d970f..143cb6d 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -204,6 +204,11 @@ int src_input_text(ParseQueue& queue,
                     epos += offset - 1;
                     break;
                 }
+                // backslash that ends the text
+                case '\0':
+                    prequest->buffer.push_back('\\');
+                    --epos;
+                    break;
                 default:
                     prequest->buffer.push_back('\\');
                     prequest->buffer.push_back(*(epos));
-- 
2.43.0


From dd4989497a3ae0f367978795b8e7dda058c26f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:44 +0000
Subject: [PATCH 96/96] fix: keep all of a --text that has :// in it

---
 src/client/src_input_text.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index 143cb6d..52dd239 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -23,7 +23,6 @@
 #include <src_input_text.hpp>
 #include <srcml_options.hpp>
 #include <src_input_libarchive.hpp>
-#include <src_prefix.hpp>
 #include <ctype.h>
 #include <cstring>
 
@@ -56,7 +55,7 @@ int src_input_text(ParseQueue& queue,
     const srcml_request_t& srcml_request,
     const srcml_input_src& input) {
 
-    std::string raw_text = src_prefix_resource(input.resource);
+    const std::string& raw_text = input.resource;
     const char* ptext = raw_text.c_str();
 
     // process text, which may have more than one input due to use of ASCII NUL ('\0')
-- 
2.43.0

