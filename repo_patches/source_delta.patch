From bca49668f312ad6857a43435b6ac5573b5e122f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 01/67] fix: initialise still_in_block in the main grammar's
 local state

set_scoped_value saves the old value before overwriting it, so the first
use read an uninitialised bool.
---
 src/main_grammar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 6d9368f..e18161d 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -153,6 +153,7 @@ namespace quickbook
             , no_eols(true)
             , context(element_info::in_top_level)
             , mark('\0')
+            , still_in_block(false)
             , state_(state)
         {
         }
-- 
2.43.0


From 753140095a110f395e267625ab353ce1aad8768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 02/67] fix: escape_uri read outside its table for non-ASCII
 characters

---
 src/utils.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3a6b058..f89fc0e 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -188,15 +188,16 @@ namespace quickbook
             uri.reserve(uri_param.size());
 
             for (std::string::size_type n = 0; n < uri_param.size(); ++n) {
-                if (static_cast<unsigned char>(uri_param[n]) > 127 ||
-                    (!std::isalnum(static_cast<unsigned char>(uri_param[n])) &&
-                     !std::strchr(mark, uri_param[n])) ||
+                unsigned char const c = static_cast<unsigned char>(uri_param[n]);
+
+                // Note: strchr would find the terminator for '\0'.
+                if (c > 127 || c == '\0' ||
+                    (!std::isalnum(c) && !std::strchr(mark, uri_param[n])) ||
                     (uri_param[n] == '%' &&
-                     !(n + 2 < uri_param.size() &&
-                       std::strchr(hex, uri_param[n + 1]) &&
+                     !(n + 2 < uri_param.size() && uri_param[n + 1] &&
+                       uri_param[n + 2] && std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
-                    char escape[] = {'%', hex[uri_param[n] / 16],
-                                     hex[uri_param[n] % 16], '\0'};
+                    char escape[] = {'%', hex[c / 16], hex[c % 16], '\0'};
                     uri += escape;
                 }
                 else {
-- 
2.43.0


From fdb53d7380bb69920a2af862e48d53a03fe08ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 03/67] fix: check_glob read past the end of a pattern that
 ends with '['

---
 src/glob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index 70089fb..cff30a7 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -80,7 +80,7 @@ namespace quickbook
         assert(begin != end && *begin == '[');
         ++begin;
 
-        if (*begin == ']') throw glob_error("empty range");
+        if (begin != end && *begin == ']') throw glob_error("empty range");
 
         while (begin != end) {
             switch (*begin) {
-- 
2.43.0


From 883a51fd53ef32fc0e4f1d8cae8f40f03c4d49e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 04/67] fix: check_glob missed non-ASCII characters in ranges
 and escapes

---
 src/glob.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index cff30a7..6e5cf8b 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -34,9 +34,11 @@ namespace quickbook
         glob_iterator begin = pattern.begin();
         glob_iterator end = pattern.end();
 
-        while (begin != end) {
-            if (*begin < 32 || (*begin & 0x80)) is_ascii = false;
+        for (glob_iterator it = begin; it != end; ++it) {
+            if (*it < 32 || (*it & 0x80)) is_ascii = false;
+        }
 
+        while (begin != end) {
             switch (*begin) {
             case '\\':
                 check_glob_escape(begin, end);
-- 
2.43.0


From ef770964ff2a2fbb8a0f5336cc4b5f0d10204cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 05/67] fix: the XML reader read past the end of 'name=' at the
 end of its input

---
 src/xml_parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 4a043bb..ae26d8b 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -275,6 +275,9 @@ namespace quickbook
             string_iterator& it, string_iterator start, string_iterator end)
         {
             read_some_of(it, end, " \t\n\r");
+            if (it == end) {
+                throw xml_parse_error("Invalid tag", start);
+            }
             if (*it == '"' || *it == '\'') {
                 return read_string(it, end);
             }
-- 
2.43.0


From 4563c495b19bdb8c27a31630e9cc77bf42e59a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 06/67] fix: the XML reader rejected digits, '_' and '.' in
 names

---
 src/xml_parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index ae26d8b..4777adb 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -264,7 +264,8 @@ namespace quickbook
             string_iterator name_start = it;
             read_some_of(
                 it, end,
-                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ:-");
+                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                "0123456789:-_.");
             if (name_start == it) {
                 throw xml_parse_error("Invalid tag", start);
             }
-- 
2.43.0


From 6375686e5b38ae0f5ce886266884b718c54dbabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 07/67] fix: the XML reader accepted elements that are never
 closed

---
 src/xml_parse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 4777adb..8bbb2ed 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -120,6 +120,10 @@ namespace quickbook
                 }
             }
 
+            if (builder.parent()) {
+                throw xml_parse_error("Tag isn't closed", end);
+            }
+
             return builder.release();
         }
 
-- 
2.43.0


From a3c99f73ff2df53bd41315e0e4a0877f4a05a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 08/67] fix: escape '?' and backslash in the URL of a path

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index f89fc0e..28542b7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -211,7 +211,7 @@ namespace quickbook
         std::string escape_uri(quickbook::string_view uri_param)
         {
             std::string uri(uri_param.begin(), uri_param.end());
-            return escape_uri_impl(uri_param, "-_.!~*'()?\\/");
+            return escape_uri_impl(uri_param, "-_.!~*'()/");
         }
 
         std::string partially_escape_uri(quickbook::string_view uri_param)
-- 
2.43.0


From 3dd7ee1ea6620fe87862de782d9b71b594f7d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 09/67] fix: --output-dir was always rejected

---
 src/quickbook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index cc8fe0d..8826f27 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -617,12 +617,14 @@ int main(int argc, char* argv[])
                         quickbook::detail::command_line_to_path(
                             vm["output-dir"].as<command_line_string>());
 
-                    if (!fs::is_directory(options.output_path.parent_path())) {
+                    fs::path parent = options.output_path.parent_path();
+                    if (!parent.empty() && !fs::is_directory(parent)) {
                         quickbook::detail::outerr()
                             << "parent directory not found for output directory"
                             << std::endl;
                         ++error_count;
                     }
+                    break;
                 }
                 case quickbook::parse_document_options::output_file:
                     quickbook::detail::outerr()
-- 
2.43.0


From 2514a8eeb9f7c2896f4a3016edaa7d884762d31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 10/67] fix: html output failed an assertion if the output
 directory didn't exist

---
 src/quickbook.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 8826f27..a61cef8 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -703,8 +703,12 @@ int main(int argc, char* argv[])
                 // If output_path was implicitly created from filein, then it
                 // should be in filein's directory.
                 // If output_path was explicitly specified, then it's already
-                // been checked.
-                assert(error_count || fs::is_directory(options.xinclude_base));
+                // been checked. The output directory for chunked output might
+                // not have been created yet.
+                assert(
+                    error_count ||
+                    options.style == parse_document_options::output_chunked ||
+                    fs::is_directory(options.xinclude_base));
             }
 
             if (vm.count("image-location")) {
-- 
2.43.0


From 8cd88848a422fd52fb83aecf03d461b6866bccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 11/67] fix: --no-output was ignored

---
 src/quickbook.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index a61cef8..fd97439 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -447,6 +447,10 @@ int main(int argc, char* argv[])
             }
         }
 
+        if (vm.count("no-output")) {
+            options.style = quickbook::parse_document_options::output_none;
+        }
+
         quickbook::self_linked_headers =
             options.format != parse_document_options::html &&
             !vm.count("no-self-linked-headers");
@@ -642,7 +646,9 @@ int main(int argc, char* argv[])
             }
 
             if (!vm.count("output-file") && !vm.count("output-dir")) {
-                if (!output_specified && alt_output_specified) {
+                if (options.style ==
+                        quickbook::parse_document_options::output_none ||
+                    (!output_specified && alt_output_specified)) {
                     options.style =
                         quickbook::parse_document_options::output_none;
                 }
-- 
2.43.0


From e995eaa50a9d97b0c72716ea37d5003b5a04348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 12/67] fix: a multiple of 256 errors was reported as success

---
 src/quickbook.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index fd97439..a57aca3 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -767,7 +767,8 @@ int main(int argc, char* argv[])
                 return !error_count;
             }
             else {
-                return error_count;
+                // The number of errors might not fit in an exit status.
+                return error_count ? 1 : 0;
             }
         }
         else {
-- 
2.43.0


From a60c63a91413e99aadb4127b9e81b225644c98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 13/67] fix: positions in unindented text were wrong after
 leading blank lines

The mapped section started at the beginning of the text passed in rather than
at the first line that was kept, so errors in a snippet's quickbook comment
were reported at the wrong line or failed an assertion.
---
 src/files.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 2a1b033..e1513f3 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -589,7 +589,8 @@ namespace quickbook
 
         unindented_program.append(program.begin() + copy_start, program.end());
 
-        data->new_file->add_indented_mapped_file_section(x.begin());
+        data->new_file->add_indented_mapped_file_section(
+            x.begin() + text_start);
         data->new_file->source_.append(unindented_program);
     }
 
-- 
2.43.0


From f1a660fb2b08307839f42c9ba6d70e382ea80894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 14/67] fix: paragraphs of the block after a bracketed list
 were marked up as list items

---
 src/block_element_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index baba339..d67dd89 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -259,7 +259,7 @@ namespace quickbook
             ;
 
         local.list =
-            *(  cl::eps_p                       [explicit_list]
+            *(  cl::eps_p(space >> cl::ch_p('[')) [explicit_list]
             >>  local.cell
             )
             ;
-- 
2.43.0


From c79b7a0cf68cfec63848fcc24934acac5a2fb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:54 +0000
Subject: [PATCH 15/67] fix: simple markup ran past a close bracket that
 follows its mark

---
 src/main_grammar.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index e18161d..138075b 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -119,7 +119,7 @@ namespace quickbook
             member1 is_block_mask;
         };
 
-        cl::rule<scanner> simple_markup, simple_markup_end;
+        cl::rule<scanner> simple_markup, simple_markup_end, simple_markup_stop;
 
         cl::rule<scanner> paragraph;
         cl::rule<scanner> list;
@@ -914,6 +914,7 @@ namespace quickbook
                     >>  +(  ~cl::eps_p
                             (   lookback [~cl::ch_p(boost::ref(local.mark))]
                             >>  local.simple_markup_end
+                            |   local.simple_markup_stop
                             )
                         >>  cl::anychar_p   [plain_char]
                         )
@@ -934,7 +935,12 @@ namespace quickbook
                                                  // final mark must be followed by
                                                  // space or punctuation
                 )
-            |   '['
+            |   local.simple_markup_stop
+            ;
+
+        // These end any block of simple markup.
+        local.simple_markup_stop
+            =   cl::ch_p('[')
             |   "'''"
             |   '`'
             |   phrase_end
-- 
2.43.0


From c05b916f115d796d83e15b641882796020f06b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 16/67] fix: unclosed comments and old template bodies took
 exponential time

---
 src/block_element_grammar.cpp |  2 +-
 src/main_grammar.cpp          | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index d67dd89..4f48ec6 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -169,7 +169,7 @@ namespace quickbook
                 qbk_ver(106u)
             >>  *(~cl::eps_p(']') >> skip_entity)
             |   qbk_ver(0,106u)
-            >>  *(('[' >> local.template_body >> ']') | (cl::anychar_p - ']'))
+            >>  *(('[' >> local.template_body >> ']') | (cl::anychar_p - '[' - ']'))
             >> cl::eps_p(space >> ']')
             >> space
             ;
diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 138075b..df7e7a0 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1091,20 +1091,22 @@ namespace quickbook
                                                 // past a single block, except
                                                 // when preformatted.
 
+        // Note: if a nested bracket isn't closed then neither is the comment,
+        // so there's no need to retry it as a plain character.
         comment =
-            "[/" >> *(local.dummy_block | (cl::anychar_p - ']')) >> ']'
+            "[/" >> *(local.dummy_block | (cl::anychar_p - '[' - ']')) >> ']'
             ;
 
         local.dummy_block =
-            '[' >> *(local.dummy_block | (cl::anychar_p - ']')) >> ']'
+            '[' >> *(local.dummy_block | (cl::anychar_p - '[' - ']')) >> ']'
             ;
 
         line_comment =
-            "[/" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | ']'))) >> ']'
+            "[/" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'
             ;
 
         local.line_dummy_block =
-            '[' >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | ']'))) >> ']'
+            '[' >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'
             ;
 
         macro_identifier =
-- 
2.43.0


From 585109949c591e95b653a0b9fa9f1b259ac24f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 17/67] fix: comments in template bodies and arguments were
 scanned as markup

---
 src/main_grammar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index df7e7a0..9ac72fa 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -644,7 +644,8 @@ namespace quickbook
             ;
 
         skip_entity =
-                '['
+                comment
+            |   '['
                 // For escaped templates:
             >>  !(space >> cl::ch_p('`') >> (cl::alpha_p | '_'))
             >>  *(~cl::eps_p(']') >> skip_entity)
@@ -652,7 +653,6 @@ namespace quickbook
             |   local.skip_code_block
             |   local.skip_inline_code
             |   local.skip_escape
-            |   comment
             |   (cl::anychar_p - '[' - ']')
             ;
 
-- 
2.43.0


From a1d3ebab0e67e41780564df173aac4e94e07e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:14 +0000
Subject: [PATCH 18/67] fix: a file that includes itself overflowed the stack

---
 src/actions.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index e53bbde..b9ace21 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1791,12 +1791,21 @@ namespace quickbook
         quickbook::state& state,
         quickbook_path const& path,
         value::tag_type load_type,
+        string_iterator first,
         value const& include_doc_id = value())
     {
         assert(
             load_type == block_tags::include ||
             load_type == block_tags::import);
 
+        // Files that include themselves, perhaps by way of a template.
+        if (state.template_depth >= state.max_template_depth) {
+            detail::outerr(state.current_file, first)
+                << "Infinite loop detected" << std::endl;
+            ++state.error_count;
+            return;
+        }
+
         // Check this before qbk_version_n gets changed by the inner file.
         bool keep_inner_source_mode = (qbk_version_n < 106);
 
@@ -1815,6 +1824,7 @@ namespace quickbook
                     : qbk_version_n >= 106u ? state_save::scope_callables
                                             : state_save::scope_macros);
 
+            ++state.template_depth;
             state.current_file = load(path.file_path); // Throws load_error
             state.current_path = path;
             state.imported = (load_type == block_tags::import);
@@ -1906,7 +1916,8 @@ namespace quickbook
 
                     if (ext == ".qbk" || ext == ".quickbook") {
                         load_quickbook(
-                            state, path, include.get_tag(), include_doc_id);
+                            state, path, include.get_tag(), first,
+                            include_doc_id);
                     }
                     else {
                         load_source_file(
@@ -1917,7 +1928,8 @@ namespace quickbook
                 else {
                     if (include.get_tag() == block_tags::include) {
                         load_quickbook(
-                            state, path, include.get_tag(), include_doc_id);
+                            state, path, include.get_tag(), first,
+                            include_doc_id);
                     }
                     else {
                         load_source_file(
-- 
2.43.0


From 4900708a3c9ab1064cb62b971cc8073be1d20c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:57 +0000
Subject: [PATCH 19/67] fix: a template that calls itself more than once took
 forever to be reported

---
 src/actions.cpp | 11 +++++++++++
 src/state.cpp   |  1 +
 src/state.hpp   |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index b9ace21..4d2b8f7 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1272,6 +1272,16 @@ namespace quickbook
         bool is_block = symbol->content.get_tag() != template_tags::phrase;
         assert(!(is_attribute_template && is_block));
 
+        // Once an infinite loop has been found, don't expand anything else
+        // until the outermost call has finished. Otherwise a template that
+        // calls itself more than once would take forever to unwind.
+        if (state.template_depth == 0) {
+            state.infinite_loop = false;
+        }
+        else if (state.infinite_loop) {
+            return;
+        }
+
         quickbook::paragraph_action paragraph_action(state);
 
         // Finish off any existing paragraphs.
@@ -1307,6 +1317,7 @@ namespace quickbook
                 detail::outerr(state.current_file, first)
                     << "Infinite loop detected" << std::endl;
                 ++state.error_count;
+                state.infinite_loop = true;
                 return;
             }
 
diff --git a/src/state.cpp b/src/state.cpp
index 04ff6a6..f7b1ea0 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -50,6 +50,7 @@ namespace quickbook
         , dependencies()
         , explicit_list(false)
         , strict_mode(false)
+        , infinite_loop(false)
 
         , imported(false)
         , macro()
diff --git a/src/state.hpp b/src/state.hpp
index 022d262..b2c4a67 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -60,6 +60,7 @@ namespace quickbook
         dependency_tracker dependencies;
         bool explicit_list; // set when using a list
         bool strict_mode;
+        bool infinite_loop; // found when expanding a template
 
         // state saved for files and templates.
         bool imported;
-- 
2.43.0


From 78fcc45446998d74f40209d714137357b9d2a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:17 +0000
Subject: [PATCH 20/67] fix: code at the start of a bracket in a template body
 was scanned as an escaped template

---
 src/main_grammar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 9ac72fa..8e1b57d 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -647,7 +647,8 @@ namespace quickbook
                 comment
             |   '['
                 // For escaped templates:
-            >>  !(space >> cl::ch_p('`') >> (cl::alpha_p | '_'))
+            >>  !(space >> cl::ch_p('`') >> (cl::alpha_p | '_') >>
+                    *(cl::alnum_p | '_') >> cl::eps_p(space >> ']'))
             >>  *(~cl::eps_p(']') >> skip_entity)
             >>  !cl::ch_p(']')
             |   local.skip_code_block
-- 
2.43.0


From ae4c55baf3b34a330dde4bbcde741a97b062b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:15 +0000
Subject: [PATCH 21/67] fix: sections of a document included by a template
 inside a section were rejected

---
 src/doc_info_actions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 1472eed..205a3ea 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -314,6 +314,10 @@ namespace quickbook
             compatibility_version, info.include_doc_id_, info.id_,
             info.doc_title);
 
+        // The new document has its own section levels. This is restored at
+        // the end of a nested file.
+        state.min_section_level = 1;
+
         // Make sure we really did have a document info block.
 
         assert(info.doc_title.check() && !info.doc_type.empty());
-- 
2.43.0


From e633333c775a17d72b8970991485fb106d7ef7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:30 +0000
Subject: [PATCH 22/67] fix: a document included with an id had an empty id

---
 src/document_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document_state.cpp b/src/document_state.cpp
index aaf872e..906bc19 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -321,8 +321,8 @@ namespace quickbook
 
             if (!initial_doc_id.empty()) {
                 return create_new_section(
-                    empty_value(), id, id_category::explicit_section_id,
-                    default_source_mode);
+                    empty_value(), initial_doc_id,
+                    id_category::explicit_section_id, default_source_mode);
             }
             else if (!title.empty()) {
                 return create_new_section(
-- 
2.43.0


From d0da74eff3c487259d2a9b6022658a728168f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 23/67] fix: an unclosed attribute in the header of an SVG
 image crashed

---
 src/actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 4d2b8f7..01f5801 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1009,7 +1009,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentwidth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
@@ -1019,7 +1019,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentdepth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
-- 
2.43.0


From 39c33212d1cb04a71c855d5ce4eb42d82d56a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:39 +0000
Subject: [PATCH 24/67] fix: image attributes with invalid names made the
 output ill-formed

---
 src/actions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 01f5801..8f903ec 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -895,6 +895,18 @@ namespace quickbook
             std::string name_str(
                 name.get_quickbook().begin(), name.get_quickbook().end());
             pair.finish();
+
+            // The attributes are written to the BoostBook's XML, where names
+            // can't be empty or start with a digit.
+            if (name_str.empty() ||
+                (name_str[0] >= '0' && name_str[0] <= '9')) {
+                detail::outerr(name.get_file(), name.get_position())
+                    << "Invalid image attribute name: '" << name_str << "'"
+                    << std::endl;
+                ++state.error_count;
+                continue;
+            }
+
             if (!attributes.insert(std::make_pair(name_str, value)).second) {
                 detail::outwarn(name.get_file(), name.get_position())
                     << "Duplicate image attribute: " << name.get_quickbook()
-- 
2.43.0


From 7a387996faeacf4c450a162a65b0ce2b9bd3e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 25/67] fix: escapes for characters that XML can't hold made
 the output ill-formed

---
 src/actions.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 8f903ec..c224cca 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -9,6 +9,7 @@
     http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
 #include "actions.hpp"
+#include <cstdlib>
 #include <functional>
 #include <map>
 #include <numeric>
@@ -851,6 +852,20 @@ namespace quickbook
 
         std::string hex_digits(first, last);
 
+        // XML can't represent these, not even as character references.
+        unsigned long code_point = std::strtoul(hex_digits.c_str(), 0, 16);
+
+        if ((code_point < 0x20 && code_point != 0x9 && code_point != 0xa &&
+             code_point != 0xd) ||
+            (code_point >= 0xd800 && code_point <= 0xdfff) ||
+            code_point == 0xfffe || code_point == 0xffff ||
+            code_point > 0x10ffff) {
+            detail::outerr(state.current_file, first.base())
+                << "Invalid unicode character: " << hex_digits << std::endl;
+            ++state.error_count;
+            return;
+        }
+
         if (hex_digits.size() == 2 && *first > '0' && *first <= '7') {
             using namespace std;
             detail::print_char(
-- 
2.43.0


From 07b98eb013335cd5111c4d9e0e8c4bbb9c18347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 26/67] fix: diagnostics about empty snippets failed an
 assertion

---
 src/code_snippet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index e2fd137..0d76acc 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -514,6 +514,8 @@ namespace quickbook
             f.add_at_pos(source_type, snippet->source_pos);
             f.add_at_pos("```\n", snippet->source_pos);
         }
+        // So that an empty snippet has a position.
+        f.add_at_pos("", snippet->source_pos);
         f.add(content, snippet->start_pos, content.get_pos());
         if (in_code) {
             f.add_at_pos("\n```\n\n", position);
-- 
2.43.0


From fa7cae5a19422dc5cefebc2c7b48714ab9bc99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 27/67] fix: code blocks in preformatted text made pretty
 printing fail

---
 src/post_process.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 1ee02bc..9def9f0 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -263,16 +263,34 @@ namespace quickbook
                     >>  cl::lexeme_d[cl::str_p("pre")]
                     >>  *(cl::anychar_p - '>')
                     >>  ">"
-                    >>  *(cl::anychar_p - "</pre>")
+                    >>  html_code_body
                     >>  "</pre"
                     >>  cl::lexeme_d[">" >> *cl::space_p]
                     |   cl::eps_p(!ph::var(self.is_html))
                     >>   "<programlisting>"
-                    >>  *(cl::anychar_p - "</programlisting>")
+                    >>  code_body
                     >>  "</programlisting"
                     >>  cl::lexeme_d[">" >> *cl::space_p]
                     ;
 
+                // Preformatted text can contain code blocks.
+                html_code_body =
+                    *(  html_code_start >> html_code_body >> "</pre>"
+                    |   (cl::anychar_p - (html_code_start | "</pre>"))
+                    )
+                    ;
+
+                html_code_start =
+                        "<pre"
+                    >>  cl::lexeme_d[!(cl::space_p >> *(cl::anychar_p - '>')) >> '>']
+                    ;
+
+                code_body =
+                    *(  "<programlisting>" >> code_body >> "</programlisting>"
+                    |   (cl::anychar_p - (cl::str_p("<programlisting>") | "</programlisting>"))
+                    )
+                    ;
+
                 // What's the business of cl::lexeme_d['>' >> *cl::space_p]; ?
                 // It is there to preserve the space after the tag that is
                 // otherwise consumed by the cl::space_p skipper.
@@ -320,7 +338,8 @@ namespace quickbook
             cl::rule<Scanner> const& start() { return tidy; }
 
             cl::rule<Scanner> tidy, tag, start_tag, start_end_tag, content,
-                end_tag, markup, code, escape;
+                end_tag, markup, code, escape, html_code_start, html_code_body,
+                code_body;
         };
 
         void do_escape_post(iter_type f, iter_type l) const
-- 
2.43.0


From 8719d1473aea5a7dbbf859652bcab576fc773315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 28/67] fix: ids with markup characters made the output
 ill-formed

---
 src/id_generation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/id_generation.cpp b/src/id_generation.cpp
index 15c5e39..70e0da8 100644
--- a/src/id_generation.cpp
+++ b/src/id_generation.cpp
@@ -13,6 +13,7 @@
 #include <boost/unordered_map.hpp>
 #include "document_state_impl.hpp"
 #include "for.hpp"
+#include "utils.hpp"
 
 namespace quickbook
 {
@@ -306,7 +307,7 @@ namespace quickbook
                     ids ? (*ids)[p->index] : p->unresolved_id;
 
                 result.append(source_pos, value.begin());
-                result.append(id.begin(), id.end());
+                result += detail::encode_string(id);
                 source_pos = value.end();
             }
         }
-- 
2.43.0


From 89297af4bedc40ee5eee86a89030f5d849d8489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 29/67] fix: sections left open in nested blocks made the
 output ill-formed

---
 src/main_grammar.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 8e1b57d..814fa4b 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -17,6 +17,7 @@
 #include <boost/spirit/include/phoenix1_primitives.hpp>
 #include "actions.hpp"
 #include "block_tags.hpp"
+#include "document_state.hpp"
 #include "grammar_impl.hpp"
 #include "parsers.hpp"
 #include "phrase_tags.hpp"
@@ -53,8 +54,15 @@ namespace quickbook
         //   * List item
         //     |indent2
 
+        int saved_section_level; // The enclosing min_section_level
+                                 // (nested_block only).
+
         explicit list_stack_item(list_item_type r)
-            : type(r), indent(0), indent2(0), mark('\0')
+            : type(r)
+            , indent(0)
+            , indent2(0)
+            , mark('\0')
+            , saved_section_level(0)
         {
         }
 
@@ -64,6 +72,7 @@ namespace quickbook
             , indent(indent_)
             , indent2(indent2_)
             , mark(mark_)
+            , saved_section_level(0)
         {
         }
     };
@@ -1153,11 +1162,33 @@ namespace quickbook
         state_.explicit_list = false;
 
         list_stack.push(list_stack_item(list_stack_item::nested_block));
+
+        // Sections have to be balanced inside the block.
+        list_stack.top().saved_section_level = state_.min_section_level;
+        state_.min_section_level = state_.document.section_level();
     }
 
-    void main_grammar_local::end_blocks_impl(parse_iterator, parse_iterator)
+    void main_grammar_local::end_blocks_impl(
+        parse_iterator first, parse_iterator)
     {
         clear_stack();
+
+        if (list_stack.top().type == list_stack_item::nested_block) {
+            if (state_.document.section_level() > state_.min_section_level) {
+                detail::outerr(state_.current_file, first.base())
+                    << "Missing [endsect] in nested block." << std::endl;
+                ++state_.error_count;
+
+                while (state_.document.section_level() >
+                       state_.min_section_level) {
+                    state_.out << "</section>";
+                    state_.document.end_section();
+                }
+            }
+
+            state_.min_section_level = list_stack.top().saved_section_level;
+        }
+
         list_stack.pop();
     }
 
-- 
2.43.0


From 4ed4143b9681aa6d0c2839b334e0a5a480d65999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:11 +0000
Subject: [PATCH 30/67] fix: a footnote in a footnote made the HTML output read
 freed memory

---
 src/bb2html.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 44c8e75..68526b2 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -530,17 +530,18 @@ namespace quickbook
                 tag_end(gen.printer);
                 gen.printer.html += "<br/>";
                 gen.printer.html += "<hr/>";
-                for (std::vector<xml_element*>::iterator it =
-                         gen.chunk.footnotes.begin();
-                     it != gen.chunk.footnotes.end(); ++it) {
+                // Generating a footnote can add the footnotes nested in it, so
+                // don't use iterators here.
+                for (std::size_t i = 0; i < gen.chunk.footnotes.size(); ++i) {
+                    xml_element* footnote = gen.chunk.footnotes[i];
                     auto footnote_id =
-                        (*it)->get_attribute("(((footnote-id)))");
+                        footnote->get_attribute("(((footnote-id)))");
                     tag_start(gen.printer, "div");
                     tag_attribute(gen.printer, "id", footnote_id);
                     tag_attribute(gen.printer, "class", "footnote");
                     tag_end(gen.printer);
 
-                    generate_children_html(gen, *it);
+                    generate_children_html(gen, footnote);
                     close_tag(gen.printer, "div");
                 }
                 close_tag(gen.printer, "div");
-- 
2.43.0


From e3fbda174b0ad5dc581e61552991d47760d6d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 31/67] fix: a file loaded with two quickbook versions failed
 an assertion

---
 src/files.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index e1513f3..8cd231b 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -23,7 +23,8 @@ namespace quickbook
 {
     namespace
     {
-        boost::unordered_map<fs::path, file_ptr> files;
+        // The contents of the files that have been loaded.
+        boost::unordered_map<fs::path, std::string> files;
     }
 
     // Read the first few bytes in a file to see it starts with a byte order
@@ -109,7 +110,7 @@ namespace quickbook
 
     file_ptr load(fs::path const& filename, unsigned qbk_version)
     {
-        boost::unordered_map<fs::path, file_ptr>::iterator pos =
+        boost::unordered_map<fs::path, std::string>::iterator pos =
             files.find(filename);
 
         if (pos == files.end()) {
@@ -129,13 +130,14 @@ namespace quickbook
 
             bool inserted;
 
-            boost::tie(pos, inserted) = files.emplace(
-                filename, new file(filename, source, qbk_version));
+            boost::tie(pos, inserted) = files.emplace(filename, source);
 
             assert(inserted);
         }
 
-        return pos->second;
+        // A file can be loaded again with a different quickbook version, so
+        // the file object can't be shared.
+        return new file(filename, pos->second, qbk_version);
     }
 
     std::ostream& operator<<(std::ostream& out, file_position const& x)
-- 
2.43.0


From ca2e1581d961aade2cf4d4b087e34846959a3caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 32/67] fix: errors in command line definitions dereferenced a
 null file

---
 src/quickbook.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index a57aca3..f6ff242 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -61,8 +61,12 @@ namespace quickbook
     static void set_macros(quickbook::state& state)
     {
         QUICKBOOK_FOR (quickbook::string_view val, preset_defines) {
-            parse_iterator first(val.begin());
-            parse_iterator last(val.end());
+            // Errors in the definition need a file for their position.
+            state.current_file =
+                new file("(command line)", val, qbk_version_n);
+
+            parse_iterator first(state.current_file->source().begin());
+            parse_iterator last(state.current_file->source().end());
 
             cl::parse_info<parse_iterator> info =
                 cl::parse(first, last, state.grammar().command_line_macro);
-- 
2.43.0


From 7d7080178cff5cb398fb3880089d2853d8c2ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 33/67] fix: a newline in a tag in a title took forever

---
 src/id_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id_xml.cpp b/src/id_xml.cpp
index 8209f64..56f8aae 100644
--- a/src/id_xml.cpp
+++ b/src/id_xml.cpp
@@ -147,7 +147,7 @@ namespace quickbook
                         }
 
                         for (;;) {
-                            read_to_one_of(it, end, "\"'\n\r>");
+                            read_to_one_of(it, end, "\"'>");
                             if (it == end || *it == '>') break;
                             if (*it == '"' || *it == '\'') {
                                 char delim = *it;
-- 
2.43.0


From 8369b55f1badfb8bdf6ceee84c9c755e039cf108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:26 +0000
Subject: [PATCH 34/67] fix: a footnote in the document info or a command line
 macro crashed

---
 src/document_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/document_state.cpp b/src/document_state.cpp
index 906bc19..595594d 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -378,6 +378,10 @@ namespace quickbook
     id_placeholder const* document_state_impl::add_id(
         quickbook::string_view id, id_category category)
     {
+        // Command line macros and the main file's document info aren't part
+        // of any section.
+        if (!current_file) return add_placeholder(id, category);
+
         return add_id_to_section(
             id, category, current_file->document->current_section);
     }
-- 
2.43.0


From 81a70824bbc6d1cc6bd881d5c57ea2be334c3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 35/67] fix: nested HTML code blocks with attributes made
 pretty printing fail

The tag of the nested block was not recognised when it had attributes,
because the skip parser had already consumed the space before them.
---
 src/post_process.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 9def9f0..e65a3f1 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -281,8 +281,12 @@ namespace quickbook
                     ;
 
                 html_code_start =
-                        "<pre"
-                    >>  cl::lexeme_d[!(cl::space_p >> *(cl::anychar_p - '>')) >> '>']
+                        cl::lexeme_d
+                        [
+                            cl::str_p("<pre")
+                        >>  !(cl::space_p >> *(cl::anychar_p - '>'))
+                        >>  '>'
+                        ]
                     ;
 
                 code_body =
-- 
2.43.0


From 99c3230cdc1842e258164ec2caea5fecbb3338f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 36/67] fix: report errors when the end of the output can't be
 written

The last part of the output was only written when the file was closed,
after checking for errors, so a full disk could go unnoticed.
---
 src/bb2html.cpp   | 1 +
 src/quickbook.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 68526b2..a9d66cf 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -725,6 +725,7 @@ namespace quickbook
             }
 
             fileout << html;
+            fileout.close();
 
             if (fileout.fail()) {
                 ::quickbook::detail::outerr(path)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index f6ff242..24b7d61 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -244,6 +244,7 @@ namespace quickbook
                 }
 
                 fileout << stage2;
+                fileout.close();
 
                 if (fileout.fail()) {
                     ::quickbook::detail::outerr()
-- 
2.43.0


From 2b56365a19414cb869a9fd920492123349217b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:14 +0000
Subject: [PATCH 37/67] fix: missing newline after the empty path error

The text std::endl was written instead.
---
 src/include_paths.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index 80cd5e3..ef927d1 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -33,8 +33,7 @@ namespace quickbook
             std::string path_text = path.get_encoded();
             if (path_text.empty()) {
                 detail::outerr(path.get_file(), path.get_position())
-                    << "Empty path argument"
-                    << "std::endl";
+                    << "Empty path argument" << std::endl;
                 ++state.error_count;
                 return path_parameter(path_text, path_parameter::invalid);
             }
-- 
2.43.0


From 448652a63acb2b5a324d9f39973cc0224ac0c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:01 +0000
Subject: [PATCH 38/67] fix: highlight hex literals of more than 32 bits as
 numbers

---
 src/syntax_highlight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index f6a6d3e..ed3473d 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -339,7 +339,7 @@ namespace quickbook
 
                 number
                     =   (
-                            cl::as_lower_d["0x"] >> cl::hex_p
+                            cl::as_lower_d["0x"] >> +cl::xdigit_p
                         |   '0' >> cl::oct_p
                         |   cl::real_p
                         )
@@ -498,7 +498,7 @@ namespace quickbook
                 
                 number
                     =   (
-                            cl::as_lower_d["0x"] >> cl::hex_p
+                            cl::as_lower_d["0x"] >> +cl::xdigit_p
                         |   '0' >> cl::oct_p
                         |   cl::real_p
                         )
-- 
2.43.0


From 02ecb07e05e1c0177454d16c46b5960c5ea9e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:40 +0000
Subject: [PATCH 39/67] fix: quickbook comments after a code snippet were shown
 as code

---
 src/code_snippet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 0d76acc..51550e2 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -521,6 +521,10 @@ namespace quickbook
             f.add_at_pos("\n```\n\n", position);
         }
 
+        // The code isn't used outside of snippets, so what follows doesn't
+        // continue it.
+        if (!snippet_stack) in_code = false;
+
         std::vector<std::string> params;
 
         file_ptr body = f.release();
-- 
2.43.0


From 39a335b75879ae3f1e56c37143f9d2c9197c9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:40 +0000
Subject: [PATCH 40/67] fix: recognise /*]*/ at the end of a line as the end of
 a snippet

---
 src/code_snippet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 51550e2..7badaf4 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -269,7 +269,7 @@ namespace quickbook
                         >>  *cl::blank_p
                         >>  cl::eps_p(cl::eol_p)
                     |
-                            "/*[*/"
+                            "/*]*/"
                     ;
 
                 ignore
-- 
2.43.0


From 880de5785a46f52c4a4999aa9049e71266821a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:44 +0000
Subject: [PATCH 41/67] fix: don't report invalid characters in conditional
 text that isn't used

---
 src/actions.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index c224cca..a1ce082 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -860,9 +860,11 @@ namespace quickbook
             (code_point >= 0xd800 && code_point <= 0xdfff) ||
             code_point == 0xfffe || code_point == 0xffff ||
             code_point > 0x10ffff) {
-            detail::outerr(state.current_file, first.base())
-                << "Invalid unicode character: " << hex_digits << std::endl;
-            ++state.error_count;
+            if (state.conditional) {
+                detail::outerr(state.current_file, first.base())
+                    << "Invalid unicode character: " << hex_digits << std::endl;
+                ++state.error_count;
+            }
             return;
         }
 
-- 
2.43.0


From af6289cffa3ce4c4ff21df5ecbc63aec568ddc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:35 +0000
Subject: [PATCH 42/67] fix: markup in document attributes that are XML
 attributes

The language, library name, directory name, last revision and categories
are written as XML attributes, but macros and escaped boostbook in them
put markup, and so invalid XML, there.
---
 src/doc_info_actions.cpp | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 205a3ea..f314745 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -63,6 +63,34 @@ namespace quickbook
         }
     }
 
+    // The same, for use in an XML attribute. Markup that comes from macros or
+    // escaped boostbook can't go there, so it's left out.
+    static std::string doc_info_attribute_output(
+        value const& p, unsigned version)
+    {
+        std::string value = doc_info_output(p, version);
+        if (qbk_version_n < version) return value;
+
+        std::string result;
+
+        for (std::string::size_type pos = 0; pos < value.size(); ++pos) {
+            if (value[pos] == '<') {
+                bool comment = value.compare(pos, 4, "<!--") == 0;
+                pos = value.find(comment ? "-->" : ">", pos);
+                if (pos == std::string::npos) break;
+                if (comment) pos += 2;
+            }
+            else if (value[pos] == '"') {
+                result += "&quot;";
+            }
+            else {
+                result += value[pos];
+            }
+        }
+
+        return result;
+    }
+
     char const* doc_info_attribute_name(value::tag_type tag)
     {
         return doc_attributes::is_tag(tag) ? doc_attributes::name(tag)
@@ -390,12 +418,12 @@ namespace quickbook
                   << "    id=\"" << info.id_placeholder << "\"\n";
 
         if (!info.lang.empty()) {
-            state.out << "    lang=\"" << doc_info_output(info.lang, 106)
+            state.out << "    lang=\"" << doc_info_attribute_output(info.lang, 106)
                       << "\"\n";
         }
 
         if (info.doc_type == "library" && !info.doc_title.empty()) {
-            state.out << "    name=\"" << doc_info_output(info.doc_title, 106)
+            state.out << "    name=\"" << doc_info_attribute_output(info.doc_title, 106)
                       << "\"\n";
         }
 
@@ -404,7 +432,7 @@ namespace quickbook
         if (!info.dirname.empty() || info.doc_type == "library") {
             state.out << "    dirname=\"";
             if (!info.dirname.empty()) {
-                state.out << doc_info_output(info.dirname, 106);
+                state.out << doc_info_attribute_output(info.dirname, 106);
             }
             else if (!info.id_.empty()) {
                 state.out << info.id_;
@@ -425,7 +453,7 @@ namespace quickbook
 
         state.out << "    last-revision=\"";
         if (!info.last_revision.empty()) {
-            state.out << doc_info_output(info.last_revision, 106);
+            state.out << doc_info_attribute_output(info.last_revision, 106);
         }
         else {
             // default value for last-revision is now
@@ -530,7 +558,7 @@ namespace quickbook
             value category = category_values.optional_consume();
             if (!category.empty()) {
                 tmp << "    <" << info.doc_type << "category name=\"category:"
-                    << doc_info_output(category, 106) << "\"></"
+                    << doc_info_attribute_output(category, 106) << "\"></"
                     << info.doc_type << "category>\n"
                     << "\n";
             }
-- 
2.43.0


From 71087b67eb0ea966ac764b171da8019e8a69a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:35 +0000
Subject: [PATCH 43/67] fix: space after the id in the document info became
 part of the id

---
 src/doc_info_actions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index f314745..8d3a4b9 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -286,7 +286,11 @@ namespace quickbook
 
         if (!include_doc_id.empty())
             info.include_doc_id_ = include_doc_id.get_quickbook().to_s();
-        if (!info.id.empty()) info.id_ = info.id.get_quickbook().to_s();
+        if (!info.id.empty()) {
+            info.id_ = info.id.get_quickbook().to_s();
+            // The value includes any space before the closing bracket.
+            info.id_.erase(info.id_.find_last_not_of(" \t\r\n") + 1);
+        }
 
         // Quickbook version
 
-- 
2.43.0


From ccc1d93e82c24f49036b529be15b80684a6f4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:39 +0000
Subject: [PATCH 44/67] fix: files starting with a template whose name starts
 with a document type

Such as [setup]: the document type was recorded before checking that it's
the whole word, leading to 'Attempt to read past end of value list'.
---
 src/doc_info_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_info_grammar.cpp b/src/doc_info_grammar.cpp
index b3ca44a..b5e5f2e 100644
--- a/src/doc_info_grammar.cpp
+++ b/src/doc_info_grammar.cpp
@@ -135,7 +135,7 @@ namespace quickbook
         local.doc_info_block =
                 '['
             >>  space
-            >>  (local.doc_types >> cl::eps_p)
+            >>  (local.doc_types >> ~cl::eps_p(cl::alnum_p | '_'))
                                             [state.values.entry(ph::arg1, ph::arg2, doc_info_tags::type)]
             >>  hard_space
             >>  to_value(doc_info_tags::title)
-- 
2.43.0


From 42fd199dca8d88c6881504e25e83c94e4d1308a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:37 +0000
Subject: [PATCH 45/67] fix: read past the end of the link 'boost:' when
 generating html

---
 src/bb2html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index a9d66cf..efd9f15 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -744,7 +744,7 @@ namespace quickbook
                 // TODO: Parameterize the boost location, so that it can use
                 // relative paths.
                 string_iterator it = link.begin() + strlen("boost:");
-                if (*it == '/') {
+                if (it != link.end() && *it == '/') {
                     ++it;
                 }
                 if (!gen.state.options.boost_root_path) {
-- 
2.43.0


From 6eebef7839d49e74357cd0cc28005af2882f253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:37 +0000
Subject: [PATCH 46/67] fix: absolute urls in the nested pages of chunked html

They had '../' added as if they were a path relative to the first page.
---
 src/bb2html.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index efd9f15..ba7c3c9 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -86,6 +86,7 @@ namespace quickbook
             html_state&, std::string const& path, std::string const& content);
         std::string get_link_from_path(
             html_gen&, quickbook::string_view, quickbook::string_view);
+        bool is_absolute_url(quickbook::string_view);
         std::string relative_path_or_url(html_gen&, path_or_url const&);
         std::string relative_path_from_fs_paths(
             fs::path const&, fs::path const&);
@@ -761,9 +762,28 @@ namespace quickbook
                 }
             }
 
+            // Links to somewhere else, or in the same page.
+            if (is_absolute_url(link) || boost::starts_with(link, "/") ||
+                boost::starts_with(link, "#")) {
+                return link.to_s();
+            }
+
             return relative_path_from_url_paths(link, path);
         }
 
+        // Does link start with 'scheme:'?
+        bool is_absolute_url(quickbook::string_view link)
+        {
+            auto it = link.begin();
+            for (; it != link.end() &&
+                   (std::isalnum(static_cast<unsigned char>(*it)) ||
+                    *it == '+' || *it == '-' || *it == '.');
+                 ++it) {
+            }
+            return it != link.begin() && it != link.end() && *it == ':' &&
+                   std::isalpha(static_cast<unsigned char>(*link.begin()));
+        }
+
         std::string relative_path_or_url(html_gen& gen, path_or_url const& x)
         {
             assert(x);
-- 
2.43.0


From 776c904ad34273601cc9cc37a2213dccc714602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:37 +0000
Subject: [PATCH 47/67] fix: no next link in the last page of a nested chunk

Although the previous link from the following page leads to it.
---
 src/bb2html.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index ba7c3c9..8491031 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -356,8 +356,9 @@ namespace quickbook
                     break;
                 }
             }
-            if (!next) {
-                next = x->next();
+            // After the last page of a chunk, continue with what follows it.
+            for (chunk* it = x; !next && it; it = it->parent()) {
+                next = it->next();
             }
 
             chunk* prev = x->prev();
-- 
2.43.0


From 79d4e70166ed1de48c528d6a4d62617156a936fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:37 +0000
Subject: [PATCH 48/67] fix: footnotes in titles were duplicated by the table
 of contents

Creating two footnotes with the same id, and breaking the link back.
---
 src/bb2html.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 8491031..89ad80d 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1403,6 +1403,9 @@ namespace quickbook
 
         NODE_RULE(footnote, gen, x)
         {
+            // The footnote is generated where the title is.
+            if (gen.in_toc) return;
+
             // TODO: Better id generation....
             static int footnote_number = 0;
             ++footnote_number;
-- 
2.43.0


From 3fc464c254ea703bb7776788c0917cd837b04fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:37 +0000
Subject: [PATCH 49/67] fix: use the role of table entries in html

---
 src/bb2html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 89ad80d..0392cc8 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1255,7 +1255,7 @@ namespace quickbook
                     for (xml_element* j = i->children(); j; j = j->next()) {
                         if (j->type_ == xml_element::element_node &&
                             j->name_ == "entry") {
-                            auto role = x->get_attribute("role");
+                            auto role = j->get_attribute("role");
                             tag_start_with_id(gen, td_tag, j);
                             if (!role.empty()) {
                                 tag_attribute(gen.printer, "class", role);
-- 
2.43.0


From b06d62d3fef1fe59ed4d3ae361d28f135f33fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:37 +0000
Subject: [PATCH 50/67] fix: html markup in the alt text of images

---
 src/bb2html.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 0392cc8..a6e48ba 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1147,6 +1147,18 @@ namespace quickbook
             close_tag(gen.printer, "span");
         }
 
+        std::string text_contents(xml_element* x)
+        {
+            std::string result;
+            if (x->type_ == xml_element::element_text) {
+                result = decode_string(x->contents_);
+            }
+            for (xml_element* it = x->children(); it; it = it->next()) {
+                result += text_contents(it);
+            }
+            return result;
+        }
+
         NODE_RULE(inlinemediaobject, gen, x)
         {
             bool has_image = false;
@@ -1177,9 +1189,7 @@ namespace quickbook
                         if (j->type_ == xml_element::element_node &&
                             j->name_ == "phrase") {
                             if (j->get_attribute("role") == "alt") {
-                                html_gen gen2(gen);
-                                generate_tree_html(gen2, j);
-                                alt = gen2.printer.html;
+                                alt = text_contents(j);
                             }
                         }
                     }
-- 
2.43.0


From 5fd681b4e92979779938e09299424de2402e19b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:01 +0000
Subject: [PATCH 51/67] fix: chunked html could overwrite its own pages

The page of a chapter with the id 'index' overwrote the home page.
---
 src/bb2html.cpp           |  1 +
 src/boostbook_chunker.cpp | 19 +++++++++++++++++++
 src/boostbook_chunker.hpp |  1 +
 3 files changed, 21 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index a6e48ba..a49d6ba 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -242,6 +242,7 @@ namespace quickbook
             chunked.root()->path_ =
                 path_to_generic(options.home_path.filename());
             if (options.chunked_output) {
+                make_paths_unique(chunked.root());
                 inline_sections(chunked.root(), 0);
 
                 // Create the root directory if necessary for chunked
diff --git a/src/boostbook_chunker.cpp b/src/boostbook_chunker.cpp
index ec822d9..cda507c 100644
--- a/src/boostbook_chunker.cpp
+++ b/src/boostbook_chunker.cpp
@@ -96,6 +96,25 @@ namespace quickbook
             }
         }
 
+        static void make_paths_unique(
+            chunk* c, boost::unordered_set<std::string>& paths)
+        {
+            std::string base(c->path_, 0, c->path_.rfind('.'));
+            for (unsigned count = 1; !paths.insert(c->path_).second; ++count) {
+                c->path_ = base + "-" +
+                           boost::lexical_cast<std::string>(count) + ".html";
+            }
+            for (chunk* it = c->children(); it; it = it->next()) {
+                make_paths_unique(it, paths);
+            }
+        }
+
+        void make_paths_unique(chunk* root)
+        {
+            boost::unordered_set<std::string> paths;
+            make_paths_unique(root, paths);
+        }
+
         void inline_all(chunk* c)
         {
             for (chunk* it = c->children(); it; it = it->next()) {
diff --git a/src/boostbook_chunker.hpp b/src/boostbook_chunker.hpp
index b9a2d1f..3160775 100644
--- a/src/boostbook_chunker.hpp
+++ b/src/boostbook_chunker.hpp
@@ -33,6 +33,7 @@ namespace quickbook
         typedef tree<chunk> chunk_tree;
 
         chunk_tree chunk_document(xml_tree&);
+        void make_paths_unique(chunk* root);
         void inline_sections(chunk*, int depth);
         void inline_all(chunk*);
     }
-- 
2.43.0


From f3fe83a3648c76b5fcc228243481dc14fe2aa694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:01 +0000
Subject: [PATCH 52/67] fix: urls of images when the graphics path is a url

The last part of the graphics path was removed.
---
 src/path.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/path.cpp b/src/path.cpp
index 1a7582c..c0c4ec7 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -441,6 +441,15 @@ namespace quickbook
                 break;
             case path_or_url_url: {
                 r.url_ = url_;
+                // As for paths, a leading slash means a part of this url,
+                // and not of what contains it.
+                if (!x.empty() && *x.begin() == '/') {
+                    if (!r.url_.empty() && *r.url_.rbegin() == '/') {
+                        r.url_.resize(r.url_.size() - 1);
+                    }
+                    r.url_ += x;
+                    break;
+                }
                 auto pos = r.url_.rfind('/');
                 if (pos == std::string::npos) {
                     pos = r.url_.rfind(':');
-- 
2.43.0


From dff873bb399ce05c1f25e99f357be70567b86c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:18 +0000
Subject: [PATCH 53/67] fix: invalid iterator used for callouts without an id
 in html

---
 src/bb2html.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index a49d6ba..a567b63 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1361,13 +1361,16 @@ namespace quickbook
                                              link->second.path(), gen.path));
                 tag_end(gen.printer);
             }
-            graphics_tag(
-                gen,
-                "/callouts/" +
-                    boost::lexical_cast<std::string>(data->second.number) +
-                    ".png",
-                "(" + boost::lexical_cast<std::string>(data->second.number) +
-                    ")");
+            if (data != gen.chunk.callout_numbers.end()) {
+                graphics_tag(
+                    gen,
+                    "/callouts/" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ".png",
+                    "(" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ")");
+            }
             if (link != gen.state.ids.end()) {
                 close_tag(gen.printer, "a");
             }
-- 
2.43.0


From c936409ab0fc13baa5ccc819cdfcc853d94e44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:25 +0000
Subject: [PATCH 54/67] fix: CDATA sections were left out of html

---
 src/xml_parse.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 8bbb2ed..f52ed00 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -72,6 +72,11 @@ namespace quickbook
             string_iterator end);
         void skip_question_mark_tag(
             string_iterator& it, string_iterator start, string_iterator end);
+        bool read_cdata(
+            xml_tree_builder&,
+            string_iterator& it,
+            string_iterator start,
+            string_iterator end);
         void skip_exclamation_mark_tag(
             string_iterator& it, string_iterator start, string_iterator end);
         quickbook::string_view read_tag_name(
@@ -109,7 +114,9 @@ namespace quickbook
                     skip_question_mark_tag(it, start, end);
                     break;
                 case '!':
-                    skip_exclamation_mark_tag(it, start, end);
+                    if (!read_cdata(builder, it, start, end)) {
+                        skip_exclamation_mark_tag(it, start, end);
+                    }
                     break;
                 case '/':
                     read_close_tag(builder, it, start, end);
@@ -261,6 +268,28 @@ namespace quickbook
             }
         }
 
+        bool read_cdata(
+            xml_tree_builder& builder,
+            string_iterator& it,
+            string_iterator start,
+            string_iterator end)
+        {
+            assert(it == start + 1 && it != end && *it == '!');
+
+            if (!read(it, end, "![CDATA[")) {
+                return false;
+            }
+
+            string_iterator text_start = it;
+            if (!read_past(it, end, "]]>")) {
+                throw xml_parse_error("Invalid CDATA section", start);
+            }
+
+            builder.add_element(xml_element::text_node(
+                encode_string(string_view(text_start, it - text_start - 3))));
+            return true;
+        }
+
         quickbook::string_view read_tag_name(
             string_iterator& it, string_iterator start, string_iterator end)
         {
-- 
2.43.0


From c140adb64de96c74671965bd2863335a7d7e2e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:58 +0000
Subject: [PATCH 55/67] fix: paths of html pages for ids with unusual
 characters

---
 src/boostbook_chunker.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/boostbook_chunker.cpp b/src/boostbook_chunker.cpp
index cda507c..59ad116 100644
--- a/src/boostbook_chunker.cpp
+++ b/src/boostbook_chunker.cpp
@@ -7,7 +7,7 @@ http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
 
 #include "boostbook_chunker.hpp"
-#include <boost/algorithm/string/replace.hpp>
+#include <cctype>
 #include <boost/lexical_cast.hpp>
 #include <boost/unordered_set.hpp>
 
@@ -166,10 +166,32 @@ namespace quickbook
             }
         }
 
+        // Dots separate directories. Characters that can't be used in both file
+        // names and URLs are replaced, and empty names are left out.
         std::string id_to_path(quickbook::string_view id)
         {
-            std::string result(id.begin(), id.end());
-            boost::replace_all(result, ".", "/");
+            std::string result;
+            for (quickbook::string_view::const_iterator it = id.begin();
+                 it != id.end(); ++it) {
+                unsigned char c = static_cast<unsigned char>(*it);
+                if (*it == '.' || *it == '/') {
+                    if (!result.empty() && result[result.size() - 1] != '/') {
+                        result += '/';
+                    }
+                }
+                else if (c >= 0x80 || std::isalnum(c) || *it == '_') {
+                    result += *it;
+                }
+                else {
+                    result += '-';
+                }
+            }
+            if (!result.empty() && result[result.size() - 1] == '/') {
+                result.erase(result.size() - 1);
+            }
+            if (result.empty()) {
+                result = "page";
+            }
             result += ".html";
             return result;
         }
-- 
2.43.0


From 00772f85336dbb4330913b5cb7242876120e58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:07 +0000
Subject: [PATCH 56/67] fix: default directory name wasn't encoded in libraries

---
 src/doc_info_actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 8d3a4b9..82b851b 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -439,10 +439,10 @@ namespace quickbook
                 state.out << doc_info_attribute_output(info.dirname, 106);
             }
             else if (!info.id_.empty()) {
-                state.out << info.id_;
+                detail::print_string(info.id_, state.out.get());
             }
             else if (!info.include_doc_id_.empty()) {
-                state.out << info.include_doc_id_;
+                detail::print_string(info.include_doc_id_, state.out.get());
             }
             else if (!info.doc_title.empty()) {
                 state.out << detail::make_identifier(
-- 
2.43.0


From 6d07c927b643905646ab64510a35a8d60bfa23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:28 +0000
Subject: [PATCH 57/67] fix: empty python callouts took the next line

---
 src/syntax_highlight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index ed3473d..2b3483a 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -445,13 +445,13 @@ namespace quickbook
                     ;
 
                 inline_callout
-                    =   "#<" >> *cl::space_p >>
+                    =   "#<" >> *cl::blank_p >>
                         (*(cl::anychar_p - cl::eol_p))  [mark_text]
                     ;
 
                 line_callout
                     =   cl::confix_p(
-                            "#<<" >> *cl::space_p,
+                            "#<<" >> *cl::blank_p,
                             (*cl::anychar_p)            [mark_text],
                             (cl::eol_p | cl::end_p)
                         )
-- 
2.43.0


From d4f526939ac1f2f3c428c2bb27ae455c5c7673f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:54 +0000
Subject: [PATCH 58/67] fix: numbers of callouts with lists of callouts in them
 in html

---
 src/bb2html.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index a567b63..3191991 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -589,7 +589,11 @@ namespace quickbook
                             .number = ++count;
                     }
                 }
-                number_calloutlist_children(gen, count, it);
+                // A nested list has numbers of its own.
+                if (it->type_ != xml_element::element_node ||
+                    it->name_ != "calloutlist") {
+                    number_calloutlist_children(gen, count, it);
+                }
             }
         }
 
-- 
2.43.0


From b7460db785ca82e6934ec887c3a53a9da4657009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:14 +0000
Subject: [PATCH 59/67] fix: numbers of callouts in footnotes in html

---
 src/bb2html.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 3191991..51b5a9e 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -441,8 +441,6 @@ namespace quickbook
 
         void generate_chunk_body(html_gen& gen, chunk* x)
         {
-            gen.chunk.callout_numbers.clear();
-
             number_callouts(gen, x->title_.root());
             number_callouts(gen, x->info_.root());
             number_callouts(gen, x->contents_.root());
-- 
2.43.0


From 7327abbed48e6343f69eead7a86ec39450cb5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 60/67] fix: sizes of svg images taken from other attributes

---
 src/actions.cpp | 72 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index a1ce082..afb6905 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -893,6 +893,41 @@ namespace quickbook
         }
     }
 
+    // Find the value of an attribute of the first svg element.
+    static bool find_svg_attribute(
+        std::string const& svg, std::string const& name, std::string& value)
+    {
+        char const* space = " \t\r\n";
+
+        std::string::size_type pos = svg.find("<svg");
+        if (pos != std::string::npos) pos = svg.find_first_of(" \t\r\n>", pos);
+
+        for (;;) {
+            std::string::size_type name_start =
+                svg.find_first_not_of(space, pos);
+            std::string::size_type name_end =
+                svg.find_first_of(" \t\r\n=>", name_start);
+            std::string::size_type equals =
+                svg.find_first_not_of(space, name_end);
+            if (equals == std::string::npos || svg[equals] != '=') return false;
+
+            std::string::size_type quote =
+                svg.find_first_not_of(space, equals + 1);
+            if (quote == std::string::npos ||
+                (svg[quote] != '"' && svg[quote] != '\''))
+                return false;
+
+            pos = svg.find(svg[quote], quote + 1);
+            if (pos == std::string::npos) return false;
+
+            if (svg.compare(name_start, name_end - name_start, name) == 0) {
+                value.assign(svg, quote + 1, pos - quote - 1);
+                return true;
+            }
+            ++pos;
+        }
+    }
+
     void image_action(quickbook::state& state, value image)
     {
         write_anchors(state, state.phrase);
@@ -1023,36 +1058,17 @@ namespace quickbook
             }
 
             //
-            // Extract the svg header from the file:
-            //
-            std::string::size_type a, b;
-            a = svg_text.find("<svg");
-            b = svg_text.find('>', a);
-            svg_text =
-                (a == std::string::npos) ? "" : svg_text.substr(a, b - a);
-            //
-            // Now locate the "width" and "height" attributes
-            // and borrow their values:
+            // Now locate the "width" and "height" attributes in the svg
+            // header and borrow their values:
             //
-            a = svg_text.find("width");
-            a = svg_text.find('=', a);
-            a = svg_text.find('\"', a);
-            b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos && b != std::string::npos) {
-                attributes.insert(std::make_pair(
-                    "contentwidth", encoded_value(std::string(
-                                        boost::next(svg_text.begin(), a + 1),
-                                        boost::next(svg_text.begin(), b)))));
+            std::string value;
+            if (find_svg_attribute(svg_text, "width", value)) {
+                attributes.insert(
+                    std::make_pair("contentwidth", encoded_value(value)));
             }
-            a = svg_text.find("height");
-            a = svg_text.find('=', a);
-            a = svg_text.find('\"', a);
-            b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos && b != std::string::npos) {
-                attributes.insert(std::make_pair(
-                    "contentdepth", encoded_value(std::string(
-                                        boost::next(svg_text.begin(), a + 1),
-                                        boost::next(svg_text.begin(), b)))));
+            if (find_svg_attribute(svg_text, "height", value)) {
+                attributes.insert(
+                    std::make_pair("contentdepth", encoded_value(value)));
             }
         }
 
-- 
2.43.0


From 89d8298993a83ddc5c28b49723948e2cc5ee6265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:44 +0000
Subject: [PATCH 61/67] fix: unicode escapes in attribute values were encoded
 twice

---
 src/actions.cpp      | 7 +++++--
 src/actions.hpp      | 6 +++++-
 src/main_grammar.cpp | 5 +++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index afb6905..4880415 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -841,7 +841,7 @@ namespace quickbook
     void escape_unicode_action::operator()(
         parse_iterator first, parse_iterator last) const
     {
-        write_anchors(state, state.phrase);
+        if (!raw) write_anchors(state, state.phrase);
 
         while (first != last && *first == '0')
             ++first;
@@ -868,7 +868,10 @@ namespace quickbook
             return;
         }
 
-        if (hex_digits.size() == 2 && *first > '0' && *first <= '7') {
+        if (raw) {
+            state.phrase << detail::decode_string("&#x" + hex_digits + ";");
+        }
+        else if (hex_digits.size() == 2 && *first > '0' && *first <= '7') {
             using namespace std;
             detail::print_char(
                 (char)strtol(hex_digits.c_str(), 0, 16), state.phrase.get());
diff --git a/src/actions.hpp b/src/actions.hpp
index 7039094..b2130d7 100644
--- a/src/actions.hpp
+++ b/src/actions.hpp
@@ -230,13 +230,17 @@ namespace quickbook
 
     struct escape_unicode_action
     {
-        explicit escape_unicode_action(quickbook::state& state_) : state(state_)
+        // 'raw' is for values that aren't encoded as BoostBook yet.
+        explicit escape_unicode_action(
+            quickbook::state& state_, bool raw_ = false)
+            : state(state_), raw(raw_)
         {
         }
 
         void operator()(parse_iterator first, parse_iterator last) const;
 
         quickbook::state& state;
+        bool raw;
     };
 
     struct break_action
diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 814fa4b..b9ee1d8 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -341,6 +341,7 @@ namespace quickbook
         raw_char_action raw_char(state);
         plain_char_action plain_char(state);
         escape_unicode_action escape_unicode(state);
+        escape_unicode_action raw_escape_unicode(state, true);
 
         simple_phrase_action simple_markup(state);
 
@@ -991,9 +992,9 @@ namespace quickbook
             |   cl::str_p("\\ ")                // ignore an escaped space
             |   '\\' >> cl::punct_p             [raw_char]
             |   "\\u" >> cl::repeat_p(4) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_escape_unicode]
             |   "\\U" >> cl::repeat_p(8) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_escape_unicode]
             |   ('\\' >> cl::anychar_p)         [error("Invalid escape.")]
                                                 [raw_char]
             |   ("'''" >> !eol)                 [error("Boostbook escape invalid here.")]
-- 
2.43.0


From dc2ed0d461ed78352860a6aad5356e5300c68d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:43 +0000
Subject: [PATCH 62/67] fix: anchors at the end of a document were lost

---
 src/actions.cpp          | 5 +++++
 src/actions.hpp          | 3 +++
 src/doc_info_actions.cpp | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 4880415..cc74e17 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -120,6 +120,11 @@ namespace quickbook
         }
     }
 
+    void write_remaining_anchors(quickbook::state& state)
+    {
+        if (!state.anchors.empty()) write_anchors(state, state.out);
+    }
+
     bool quickbook_range::in_range() const
     {
         return qbk_version_n >= lower && qbk_version_n < upper;
diff --git a/src/actions.hpp b/src/actions.hpp
index b2130d7..05b6388 100644
--- a/src/actions.hpp
+++ b/src/actions.hpp
@@ -272,6 +272,9 @@ namespace quickbook
         bool nested_file);
     void post(quickbook::state& state, std::string const& doc_type);
 
+    // Write out any anchors that nothing has followed.
+    void write_remaining_anchors(quickbook::state& state);
+
     struct to_value_scoped_action : scoped_action_base
     {
         to_value_scoped_action(quickbook::state& state_) : state(state_) {}
diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 82b851b..470da81 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -12,6 +12,7 @@
 #include <boost/algorithm/string/join.hpp>
 #include <boost/bind/bind.hpp>
 #include <boost/filesystem/operations.hpp>
+#include "actions.hpp"
 #include "doc_info_tags.hpp"
 #include "document_state.hpp"
 #include "files.hpp"
@@ -607,6 +608,8 @@ namespace quickbook
         // We've finished generating our output. Here's what we'll do
         // *after* everything else.
 
+        if (!doc_type.empty()) write_remaining_anchors(state);
+
         // Close any open sections.
         if (!doc_type.empty() && state.document.section_level() > 1) {
             if (state.strict_mode) {
-- 
2.43.0


From f6fac61dff9a24c3391d4f9294fc48a3e15a0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:47 +0000
Subject: [PATCH 63/67] fix: initialise the saved conditional state of a phrase

cond_phrase_push is copied before it has been started, so that an
indeterminate bool was read.
---
 src/actions.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actions.hpp b/src/actions.hpp
index 05b6388..6cdc12c 100644
--- a/src/actions.hpp
+++ b/src/actions.hpp
@@ -183,7 +183,10 @@ namespace quickbook
 
     struct cond_phrase_push : scoped_action_base
     {
-        cond_phrase_push(quickbook::state& x) : state(x) {}
+        cond_phrase_push(quickbook::state& x)
+            : state(x), saved_conditional(false)
+        {
+        }
 
         bool start();
         void cleanup();
-- 
2.43.0


From 1752a68c845a65fa4521915359b50dfea1baa6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:20 +0000
Subject: [PATCH 64/67] fix: an element that isn't allowed in an attribute
 value is skipped

The error for an element in an attribute value left the brackets to be
parsed as ordinary text, so that the element's content was still
translated. A template that used itself in such an attribute was expanded
many times over at every level, which took time exponential in the depth
that templates are allowed.
---
 src/main_grammar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index b9ee1d8..fc5d446 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1016,7 +1016,7 @@ namespace quickbook
                         >>  (cl::eps_p - (cl::alnum_p | '_'))
                         )
                     )                           [error("Elements not allowed in attribute values.")]
-                >>  local.square_brackets
+                >>  (local.dummy_block | local.square_brackets)
                 |   local.attribute_template
                 |   cl::eps_p(cl::ch_p('['))    [error("Unmatched template in attribute value.")]
                 >>  local.square_brackets
@@ -1039,7 +1039,7 @@ namespace quickbook
                             >>  (cl::eps_p - (cl::alnum_p | '_'))
                             )
                         )                       [error("Elements not allowed in attribute values.")]
-                    >>  local.square_brackets
+                    >>  (local.dummy_block | local.square_brackets)
                     |   local.attribute_template
                     |   cl::eps_p(cl::ch_p('['))[error("Unmatched template in attribute value.")]
                     >>  local.square_brackets
-- 
2.43.0


From 01225cf0456bf71f52515569d7c0514299ee2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:02 +0000
Subject: [PATCH 65/67] fix: the xmlbase of a document can contain any
 character

---
 src/doc_info_actions.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 470da81..a2a9fe8 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -360,7 +360,14 @@ namespace quickbook
         // std::string xmlbase_value;
 
         if (!info.xmlbase.empty()) {
-            path_parameter x = check_xinclude_path(info.xmlbase, state);
+            // The value is encoded for the output, but paths aren't.
+            string_view xmlbase_source = info.xmlbase.get_quickbook();
+            value xmlbase = encoded_qbk_value(
+                info.xmlbase.get_file(), xmlbase_source.begin(),
+                xmlbase_source.end(),
+                detail::decode_string(info.xmlbase.get_encoded()));
+
+            path_parameter x = check_xinclude_path(xmlbase, state);
 
             if (x.type == path_parameter::path) {
                 quickbook_path path = resolve_xinclude_path(x.value, state);
@@ -477,7 +484,9 @@ namespace quickbook
         state.out << "\" \n";
 
         if (!info.xmlbase_value.empty()) {
-            state.out << "    xml:base=\"" << info.xmlbase_value << "\"\n";
+            state.out << "    xml:base=\"";
+            detail::print_string(info.xmlbase_value, state.out.get());
+            state.out << "\"\n";
         }
 
         state.out << "    xmlns:xi=\"http://www.w3.org/2001/XInclude\">\n";
-- 
2.43.0


From 800ea8f70399bedd5f0d4664a16f207e26bc06e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:56 +0000
Subject: [PATCH 66/67] fix: the globs in the dependencies are relative to the
 directory that is searched

---
 src/include_paths.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index ef927d1..65f1dc7 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -195,7 +195,7 @@ namespace quickbook
             // If the path has some glob match characters
             // we do a discovery of all the matches..
             {
-                fs::path current = state.current_file->path.parent_path();
+                fs::path current = state.current_path.file_path.parent_path();
 
                 // Search for the current dir accumulating to the result.
                 state.dependencies.add_glob(current / parameter.value);
-- 
2.43.0


From 0964df2db07b5a60f25e80ffc14d9247840c0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:23 +0000
Subject: [PATCH 67/67] fix: quotes and angle brackets in processing
 instructions don't end or break them

---
 src/xml_parse.cpp | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index f52ed00..0a8db59 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -210,27 +210,10 @@ namespace quickbook
             assert(it == start + 1 && it != end && *it == '?');
             ++it;
 
-            while (true) {
-                read_to_one_of(it, end, "\"'?<>");
-                if (it == end) {
-                    throw xml_parse_error("Invalid tag", start);
-                }
-                switch (*it) {
-                case '"':
-                case '\'':
-                    read_string(it, end);
-                    break;
-                case '?':
-                    if (read(it, end, "?>")) {
-                        return;
-                    }
-                    else {
-                        ++it;
-                    }
-                    break;
-                default:
-                    throw xml_parse_error("Invalid tag", start);
-                }
+            // Quotes and angle brackets have no meaning in a processing
+            // instruction.
+            if (!read_past(it, end, "?>")) {
+                throw xml_parse_error("Invalid tag", start);
             }
         }
 
-- 
2.43.0

