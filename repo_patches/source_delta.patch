From 2be0d237ad35c24db6855b1d6c0e2cadff4acfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 01/49] fix: do not treat a handler that consumed nothing as a
 match (endless loop)

---
 latex2json/parser/tex_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 38e2e41..4e716b9 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -423,6 +423,9 @@ class LatexParser:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
+                if end_pos <= 0:
+                    # nothing was consumed: leave it to the next handler
+                    continue
                 if token:
                     self._process_token(
                         token,
-- 
2.43.0


From 6e5d39ea7e74f81f879ef960e6a8165309e82e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 02/49] fix: unknown command with an unclosed argument no
 longer raises TypeError

---
 latex2json/parser/tex_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 4e716b9..f85726b 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -230,8 +230,13 @@ class LatexParser:
                 inner_content, inner_end_pos = extract_nested_content(
                     content[end_pos - 1 :]
                 )
-                end_pos += inner_end_pos - 1
-                total_content += inner_content + "}"
+                if inner_content is None:
+                    # unclosed brace: keep the bare command, the rest is plain text
+                    end_pos -= 1
+                    total_content = command
+                else:
+                    end_pos += inner_end_pos - 1
+                    total_content += inner_content + "}"
 
             expanded = self._expand_command(total_content)
 
-- 
2.43.0


From d9ddaf36c7a0d0c3fbbe0dd9a5ed46e118d426f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 03/49] fix: unclosed \author/\thanks/\email argument no longer
 raises TypeError

---
 latex2json/parser/handlers/author.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 377c7f0..b49eb86 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -69,8 +69,14 @@ class AuthorHandler(TokenHandler):
         for name, pattern in PATTERNS.items():
             match = pattern.match(content)
             if match:
+                if name == "curraddr":
+                    return None, match.end()
+
                 start_pos = match.end() - 1
                 content, end_pos = extract_nested_content(content[start_pos:])
+                if content is None:
+                    # unclosed brace
+                    return None, match.end()
                 total_pos = start_pos + end_pos
 
                 if name == "thanks":
@@ -88,8 +94,6 @@ class AuthorHandler(TokenHandler):
                         "type": "author",
                         "content": tokens,
                     }, total_pos
-                elif name == "curraddr":
-                    return None, match.end()
                 else:
                     if self.process_content_fn:
                         content = self.process_content_fn(content)
-- 
2.43.0


From b73595bf46835a63c318e56a7be60a4c3007e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 04/49] fix: \hyperref without a label argument no longer
 raises AttributeError

---
 latex2json/parser/handlers/content_command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ef0cc6d..617c7b5 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -181,7 +181,7 @@ class ContentCommandHandler(TokenHandler):
             return {
                 "type": "ref",
                 "title": content,
-                "content": [match.group(1).strip()],
+                "content": [match.group(1).strip()] if match.group(1) else [],
             }
 
         # URLs
-- 
2.43.0


From 1d1815a6874ef674d6aebc851346cb9912d92e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 05/49] fix: unclosed \ensuremath/\hphantom argument no longer
 raises TypeError

---
 latex2json/parser/handlers/formatting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 808ae6b..c01563e 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -415,6 +415,9 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        # unclosed brace
+                        return None, match.end()
                     return {
                         "type": "equation",
                         "content": extracted_content,
@@ -463,6 +466,9 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        # unclosed brace
+                        return None, match.end()
                     # Check if it's hphantom or vphantom
                     if match.group(0).startswith("\\hphantom"):
                         # Horizontal phantom - create spaces matching content width
-- 
2.43.0


From 29fa8b3e693923a8517ac07333b6a3d3dc0ad137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 06/49] fix: unclosed \em{ / \subfloat[ argument no longer
 raises AttributeError

---
 latex2json/parser/handlers/legacy_formatting.py | 3 +++
 latex2json/parser/handlers/text_formatting.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 0826ab0..4b7c154 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -129,6 +129,9 @@ class LegacyFormattingHandler(TokenHandler):
                     # simple \tt{text}
                     next_pos -= 1  # remove the opening brace
                     text, end_pos = extract_nested_content(content[next_pos:])
+                    if text is None:
+                        # unclosed brace: drop the formatting command only
+                        return "", next_pos
                     content_to_format = text.strip()
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 7607fbe..712b489 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -261,6 +261,9 @@ class TextFormattingHandler(TokenHandler):
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
         start_pos = match.end() - 1
         caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
+        if caption is None:
+            # unclosed bracket
+            return None, match.end()
         caption = caption.strip()
 
         total_pos = start_pos + end_pos
-- 
2.43.0


From 95a3fe8c03678ee0b1e13e476cedb9556525ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 07/49] fix: \part and levels below \subsubsection no longer
 abort the build with KeyError

---
 latex2json/structure/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 14439a9..090e949 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -140,6 +140,9 @@ class TokenBuilder:
             return
 
         level = token.get("level", 1)
+        if level not in self.section_numbers:
+            # no counter for this level e.g. \part, \subsubsubsection
+            return
 
         # Reset lower level counters if needed
         if reset_lower_levels:
-- 
2.43.0


From c3b4552f82e5e5308f7830283879f78cc95a39c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 08/49] fix: tokens without an output type inside math envs,
 equations and table cells are skipped, not fatal

---
 latex2json/structure/tokens/base.py     | 8 ++++++--
 latex2json/structure/tokens/equation.py | 4 +++-
 latex2json/structure/tokens/tabular.py  | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 6064cd3..e0e858b 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -90,11 +90,15 @@ class MathEnvToken(BaseToken):
         proof = None
         if "content" in data:
             for item in data["content"]:
-                content.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    content.append(token)
         if "title" in data:
             title = []
             for item in data["title"]:
-                title.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    title.append(token)
         if "proof" in data:
             proof = create_token(data["proof"])
 
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index 8a76244..8481935 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -35,7 +35,9 @@ class EquationToken(BaseToken):
             for k, v in data["placeholders"].items():
                 out = []
                 for item in v:
-                    out.append(create_token(item))
+                    token = create_token(item)
+                    if token is not None:
+                        out.append(token)
                 placeholder_dict[k] = out
 
         return cls(
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 5bc60e5..488c5fa 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -102,7 +102,9 @@ class TabularToken(BaseToken):
         processed_list = []
         for item in nested_list:
             if isinstance(item, dict) and "type" in item:
-                processed_list.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    processed_list.append(token)
             elif isinstance(item, list):
                 processed_list.append(cls._process_nested_list(item, create_token))
             else:
-- 
2.43.0


From 1f829521cb5dd1bcd63de495c780ff0aeff44858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 09/49] fix: process content commands embedded in equations
 like any other (footnote/cite notes broke the build)

---
 latex2json/parser/tex_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index f85726b..a2c01cf 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -394,6 +394,15 @@ class LatexParser:
             elif token["type"] == "citation":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
+            elif token["type"] == "equation":
+                # content commands found inside the math, e.g. \cite, \footnote
+                prev_env = self.current_env
+                for key, block in token.get("placeholders", {}).items():
+                    processed = []
+                    for t in block:
+                        self._process_token(t, processed)
+                    token["placeholders"][key] = processed
+                self.current_env = prev_env
             elif token["type"] == "title":
                 token["content"] = self.parse(token["content"])
             elif token["type"] in ["section", "paragraph"]:
-- 
2.43.0


From 7e1958f3efa2484ec01e7dbe1bcf71e5864e8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 10/49] fix: malformed \ifthenelse no longer aborts the whole
 parse

---
 latex2json/parser/handlers/if_else_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d8aa73..dc2fb56 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -172,7 +172,8 @@ def try_handle_ifthenelse(
             content[start_pos:], "{", "}", max_blocks=3
         )
         if len(blocks) != 3:
-            raise ValueError("Invalid \\ifthenelse structure")
+            # malformed or unclosed \ifthenelse
+            return None, 0
         return {
             "type": "conditional-ifthenelse",
             "condition": blocks[0],
-- 
2.43.0


From e66ed677aab73be2df3e3319d5542dd82c3ab84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 11/49] fix: escape document-supplied names before building
 regexes from them

---
 latex2json/parser/handlers/command_processor.py  | 10 +++++-----
 latex2json/parser/handlers/if_else_statements.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 0fe83da..f59d79d 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -254,7 +254,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + command_name + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -328,7 +328,7 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"(?:true|false)"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
@@ -349,14 +349,14 @@ class CommandProcessor:
             return "", start_pos + end_pos
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": handler,
         }
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
@@ -364,7 +364,7 @@ class CommandProcessor:
     def process_newcounter(self, var_name: str):
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\the" + var_name + r"\b"),
+            "pattern": re.compile(r"\\the" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands["newcounter:" + var_name] = command
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index dc2fb56..3d9be0f 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -201,7 +201,7 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + var_name + r"(?:true|false)?")
+        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?")
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
-- 
2.43.0


From 40139e5db36fedae6b2ac05b5ebf453a80e6469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 12/49] fix: text outside \item in a list environment no longer
 aborts the build

---
 latex2json/structure/tokens/table_figure_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/table_figure_list.py b/latex2json/structure/tokens/table_figure_list.py
index 04cb863..ea3870a 100644
--- a/latex2json/structure/tokens/table_figure_list.py
+++ b/latex2json/structure/tokens/table_figure_list.py
@@ -47,5 +47,6 @@ class ListToken(EnvironmentToken):
     """Represents itemize/enumerate/description environments"""
 
     type: TokenType = TokenType.LIST
-    content: List[ItemToken] = Field(default_factory=list)
+    # usually ItemTokens, but a list body can hold other tokens too e.g. text before the first \item
+    content: List[BaseToken] = Field(default_factory=list)
     depth: int = 1
-- 
2.43.0


From fafb70a9c51316d1054fcffb93034f049ed67261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 13/49] fix: choose main .tex / fallback .bbl in sorted order,
 not file system order

---
 latex2json/parser/bib/bib_parser.py | 4 +++-
 latex2json/tex_file_extractor.py    | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index e8c7323..dfb60d7 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -106,7 +106,9 @@ class BibParser:
                 bib_content = self._open_file(main_bbl)
             else:
                 # Look for any .bbl file
-                bbl_files = [f for f in os.listdir(directory) if f.endswith(".bbl")]
+                bbl_files = sorted(
+                    f for f in os.listdir(directory) if f.endswith(".bbl")
+                )
                 if bbl_files:
                     first_bbl = os.path.join(directory, bbl_files[0])
                     self.logger.info(f"Bib fallback -> Found {bbl_files[0]}")
diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d8ef713..f5b7221 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -45,8 +45,10 @@ class TexFileExtractor:
         Raises:
             FileNotFoundError: If no main TeX file is found
         """
-        for root, _, files in os.walk(folder_path):
-            for file in files:
+        for root, dirs, files in os.walk(folder_path):
+            # fixed order: the order of the file system is arbitrary
+            dirs.sort()
+            for file in sorted(files):
                 if file.endswith(".tex"):
                     full_path = os.path.join(root, file)
                     try:
-- 
2.43.0


From 91969a8284604dfe56e988299f11a2d4b5f2dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 14/49] fix: skip links and special files when extracting tar
 archives (escape from the temp dir)

---
 latex2json/tex_file_extractor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index f5b7221..26c9760 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -132,6 +132,13 @@ class TexFileExtractor:
                                     f"[WARNING] Skipping potentially unsafe path in tar.gz: {member.name}"
                                 )
                                 continue
+                            # A link can point outside temp_dir and redirect later
+                            # members or reads; devices/fifos are never sources
+                            if not (member.isfile() or member.isdir()):
+                                print(
+                                    f"[WARNING] Skipping non-regular member in tar.gz: {member.name}"
+                                )
+                                continue
                             safe_members.append(member)
                         # Extract only safe members (use filter='data' in Python 3.12+ for better security)
                         # For broader compatibility, we extract member by member after checks
-- 
2.43.0


From 01523602c8c9d26062c92f28e787e37412047a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 15/49] fix: remove the extraction directory when extraction or
 processing fails (leaked with cleanup=False)

---
 latex2json/tex_file_extractor.py | 4 +++-
 latex2json/tex_reader.py         | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 26c9760..15d659e 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -82,6 +82,7 @@ class TexFileExtractor:
         main_tex = None
         main_folder_abs = None  # Store the absolute path found by find_main_tex_file
         processed = False
+        handed_over = False  # True once the caller knows about temp_dir
 
         try:
             if compressed_path.endswith(".zip"):
@@ -210,11 +211,12 @@ class TexFileExtractor:
                 )
 
             # Yield the relative path of main_tex from temp_dir and temp_dir itself
+            handed_over = True
             yield main_tex, temp_dir
 
         finally:
             # Clean up temporary directory
-            if cleanup:
+            if cleanup or not handed_over:
                 shutil.rmtree(temp_dir)
 
     @classmethod
diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index cc98317..d1b758c 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -203,7 +203,13 @@ class TexReader:
                     f"Found main TeX file in archive: {main_tex}, {compressed_path}"
                 )
                 file_path = os.path.join(temp_dir, main_tex)
-                output = self.process_file(file_path)
+                try:
+                    output = self.process_file(file_path)
+                except BaseException:
+                    # on failure nobody else will know about temp_dir
+                    if not cleanup:
+                        shutil.rmtree(temp_dir, ignore_errors=True)
+                    raise
                 output.temp_dir = temp_dir
                 return output
         except Exception as e:
-- 
2.43.0


From 13736f1a4756d7d68e740a8491ca2184375c4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 16/49] fix: ProcessingResult.cleanup no longer fails when the
 directory is already removed

---
 latex2json/tex_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index d1b758c..fe9859b 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -28,7 +28,8 @@ class ProcessingResult:
     def cleanup(self):
         """Clean up temporary resources."""
         if self.temp_dir:
-            shutil.rmtree(self.temp_dir)
+            if os.path.exists(self.temp_dir):
+                shutil.rmtree(self.temp_dir)
             self.temp_dir = None
 
 
-- 
2.43.0


From 5a6c1f22acec92a57c24e01b44924214d62c5d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 17/49] fix: decode bibliography files like TeX files, and
 survive encodings Python does not know

---
 latex2json/parser/bib/bib_parser.py | 4 ++--
 latex2json/utils/encoding.py        | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index dfb60d7..14278de 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -9,6 +9,7 @@ from latex2json.parser.bib.bibtex_parser import (
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
+from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
     normalize_whitespace_and_lines,
@@ -67,8 +68,7 @@ class BibParser:
         #     self.logger.warning(f"BibParser: Already parsed {file_path}")
         #     return None
         # self._parsed_files.add(file_path)
-        with open(file_path, "r") as f:
-            return f.read()
+        return read_file(file_path)
 
     def parse_file(self, file_path: str) -> List[BibTexEntry]:
         """Parse a bibliography file and return list of entries.
diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 045f973..aa27b6e 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -54,7 +54,8 @@ def read_file(path):
     try:
         with open(path, "r", encoding=encoding) as f:
             return f.read()
-    except UnicodeDecodeError:
+    except (UnicodeError, LookupError):
+        # wrong guess, or an encoding chardet knows but Python does not
         # First fallback: try utf-8 with error handling
         try:
             with open(path, "r", encoding="utf-8", errors="replace") as f:
-- 
2.43.0


From 376e1fb7dffd9e4a2b11042c7949fae7c0f2b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 18/49] fix: tabular and bibliography tokens keep their labels
 and styles

---
 latex2json/structure/tokens/bibliography.py | 6 +++++-
 latex2json/structure/tokens/tabular.py      | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/bibliography.py b/latex2json/structure/tokens/bibliography.py
index 6739deb..3699417 100644
--- a/latex2json/structure/tokens/bibliography.py
+++ b/latex2json/structure/tokens/bibliography.py
@@ -41,4 +41,8 @@ class BibliographyToken(BaseToken):
                 if isinstance(token, BibItemToken):
                     processed_content.append(token)
 
-        return cls(content=processed_content)
+        return cls(
+            content=processed_content,
+            labels=data.get("labels"),
+            styles=data.get("styles"),
+        )
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 488c5fa..5c4af7e 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -92,7 +92,11 @@ class TabularToken(BaseToken):
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
-        return cls(content=all_cells)
+        return cls(
+            content=all_cells,
+            labels=data.get("labels"),
+            styles=data.get("styles"),
+        )
 
     @classmethod
     def _process_nested_list(
-- 
2.43.0


From 9c214aeede6c1878735e992cdb2bbb8ff8ff840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 19/49] fix: tabular without column spec / unclosed makecell /
 content-less tokens in cells no longer abort

---
 latex2json/parser/handlers/tabular.py | 5 ++++-
 latex2json/utils/tex_utils.py         | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f920e8e..3291ac8 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -112,7 +112,9 @@ def split_cells(row: str) -> List[str]:
         if cell:
             match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
             if match:
-                cell, end_pos = extract_nested_content(cell[match.end() - 1 :])
+                inner, end_pos = extract_nested_content(cell[match.end() - 1 :])
+                if inner is not None:
+                    cell = inner
         out_cells.append(cell)
     return out_cells
 
@@ -320,6 +322,7 @@ class TabularHandler(BaseEnvironmentHandler):
         token = {
             "type": "tabular",
             "environment": env_type,  # Store the specific environment type
+            "content": [],
         }
 
         # Extract column spec using nested content extraction
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5a57707..1ef53dd 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -368,7 +368,8 @@ def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
         elif isinstance(token, dict) and isinstance(token.get("content"), list):
             return flatten_all_to_string(token["content"])
         else:
-            return token["content"]
+            # tokens without text content e.g. unknown commands
+            return token.get("content") or ""
 
     return " ".join(flatten_token(token) for token in tokens)
 
-- 
2.43.0


From 0c2a0d4a18acad97f8264a4c489db2990ac47259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 20/49] fix: unbalanced \\aa ... \\endaa pair in math no longer
 loops forever

---
 latex2json/parser/handlers/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fcd0320..7c4db86 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -126,6 +126,9 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
         start_pos, end_pos, inner_content = extract_nested_content_pattern(
             content, r"\\" + env_name, r"\\end" + env_name
         )
+        if start_pos == -1:
+            # no balanced pair: leave the rest as is
+            break
         inner_content = convert_any_env_pairs_to_begin_end(inner_content)
         inner_content = r"\begin{%s}%s\end{%s}" % (env_name, inner_content, env_name)
         content = content[:start_pos] + inner_content + content[end_pos:]
-- 
2.43.0


From 65e5e4260b3cd69cd689feeeedb22202bba257b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 21/49] fix: escape \\let and \\csname names in usage patterns;
 \\def of a control symbol no longer raises IndexError

---
 latex2json/parser/handlers/new_definition.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 7166b80..e4490f5 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -341,14 +341,14 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "num_args": 0,
                 "defaults": [],
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         else:
             token = {
                 "type": "let",
                 "name": name,
                 "content": content,
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         return token, match.end()
 
@@ -493,10 +493,13 @@ class NewDefinitionHandler(TokenHandler):
                         usage_suffix = USAGE_SUFFIX
                         if add_usage_suffix:
                             _, _, usage_suffix = token["usage_pattern"].partition(
-                                "\\" + first_inner.replace(" ", "")
+                                "\\" + re.escape(first_inner.replace(" ", ""))
                             )
                         inner_csname_regex = (
-                            r"\\csname" + first_inner + r"\\endcsname" + usage_suffix
+                            r"\\csname"
+                            + re.escape(first_inner)
+                            + r"\\endcsname"
+                            + usage_suffix
                         )
                         token["usage_pattern"] = (
                             token["usage_pattern"] + "|" + inner_csname_regex
@@ -560,7 +563,7 @@ class NewDefinitionHandler(TokenHandler):
             parts.append(re.escape(pre_arg))
             # if last char is alpha or @, add negative lookahead
             # this is to avoid matching e.g. \def\foo#1{bar #1} with \fooa \foob \fooxyz etc
-            if pre_arg[-1].isalpha() or pre_arg[-1] == "@":
+            if pre_arg and (pre_arg[-1].isalpha() or pre_arg[-1] == "@"):
                 parts.append(USAGE_SUFFIX)
 
             # then we handle the args #1 ... #2 etc
-- 
2.43.0


From 9262f10b1d79436748631191be2d23c67e8314ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 22/49] fix: ambiguous \\def argument pattern (exponential
 backtracking on escaped braces)

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index e4490f5..16fa4c4 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -572,7 +572,7 @@ class NewDefinitionHandler(TokenHandler):
             # Add the args pattern to capture delimiters and args e.g. {xxx} or x
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
             # Update regex to handle escaped braces and normal braces
-            args_part_pattern = r"\s*(?:\{((?:[^{}]|\\\{|\\\}|{[^{}]*})*)\}|([^\}]+?))"
+            args_part_pattern = r"\s*(?:\{((?:[^{}\\]|\\.|{[^{}]*})*)\}|([^\}]+?))"
 
             current_pos = 0
             for param in re.finditer(r"#(\d+)", args):
-- 
2.43.0


From c3a37bc14cc5de3ab03bfd4b6fed3493228d2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 23/49] fix: body of an empty or unclosed environment is parsed
 too (empty algorithm aborted the build)

---
 latex2json/parser/tex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index a2c01cf..94ec172 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -413,7 +413,7 @@ class LatexParser:
                 token["content"] = self.parse(token["content"])
             elif is_env_type:
                 # algorithmic keep as literal?
-                if token.get("content") and token["type"] not in [
+                if "content" in token and token["type"] not in [
                     "algorithmic",
                     "tabular",
                 ]:
-- 
2.43.0


From b18a0dabe1e304984a17a3e3ef4fc44f64be1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 24/49] fix: saved boxes and cite aliases are per instance, not
 shared between parsers

---
 latex2json/parser/handlers/content_command.py | 4 +++-
 latex2json/parser/packages/boxes.py           | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 617c7b5..b631b09 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -85,7 +85,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 class ContentCommandHandler(TokenHandler):
-    citealias = {}  # key, alias/title
+    def __init__(self, process_content_fn: Optional[Callable] = None):
+        super().__init__(process_content_fn)
+        self.citealias = {}  # key, alias/title
 
     def clear(self):
         self.citealias = {}
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 6dd435a..40f7352 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Tuple, Optional
+from typing import Callable, Dict, List, Tuple, Optional
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
@@ -66,8 +66,10 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 
 
 class BoxHandler(TokenHandler):
-    saved_boxes = {}
-    numbered_boxes = {}  # Add storage for numbered boxes
+    def __init__(self, process_content_fn: Optional[Callable] = None):
+        super().__init__(process_content_fn)
+        self.saved_boxes = {}
+        self.numbered_boxes = {}  # Add storage for numbered boxes
 
     def can_handle(self, content: str) -> bool:
         return bool(
-- 
2.43.0


From 01c2289128797e0f6d315030f3dd8ee763a96974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 25/49] fix: clear() also resets cite aliases and boxes seen
 inside math

---
 latex2json/parser/handlers/equation.py | 1 +
 latex2json/parser/tex_preprocessor.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 9d723df..dc65f84 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -64,6 +64,7 @@ class EquationHandler(TokenHandler):
 
     def clear(self):
         self.box_handler.clear()
+        self.content_command.clear()
 
     def can_handle(self, content: str) -> bool:
         """Check if content contains an equation pattern."""
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5fbc3f3..adbe2c6 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -80,6 +80,7 @@ class LatexPreprocessor:
         self.if_else_block_handler.clear()
         self.command_manager.clear()
         self.sty_parser.clear()
+        self.equation_handler.clear()
 
     def preprocess(self, content: str, file_dir=None) -> tuple[str, list[Dict]]:
         """Main preprocessing pipeline
-- 
2.43.0


From 6ef01cb6dc03caf028a573377efd82517c89e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 26/49] fix: \\usebox returns a copy of the saved box (second
 use repeated later text)

---
 latex2json/parser/packages/boxes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 40f7352..8db6695 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,5 @@
 from typing import Callable, Dict, List, Tuple, Optional
+import copy
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
@@ -173,7 +174,8 @@ class BoxHandler(TokenHandler):
         elif command == "usebox":
             # Return the saved box content if it exists
             if box_name in self.saved_boxes and self.saved_boxes[box_name] is not None:
-                return self.saved_boxes[box_name], match.end()
+                # a copy: the caller goes on to edit what it gets
+                return copy.deepcopy(self.saved_boxes[box_name]), match.end()
 
         return None, match.end()
 
-- 
2.43.0


From 9a17ba83968be0f14c7999dcee966bbfc278ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 27/49] fix: importing the package no longer replaces the root
 logger's handlers

---
 latex2json/parser/sty_parser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index f9672e1..3dafd40 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -9,12 +9,6 @@ sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
 import logging
 
-logging.basicConfig(
-    level=logging.WARNING,
-    format="%(levelname)s: %(message)s",
-    force=True,  # This ensures the config is applied even if another module has configured logging
-)
-
 from latex2json.parser.handlers import (
     IfElseBlockHandler,
 )
-- 
2.43.0


From 297e71648db16dc539416dab5bf9d24248c33236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 28/49] fix: importing the package no longer extends sys.path

---
 latex2json/parser/sty_parser.py       | 1 -
 latex2json/parser/tex_parser.py       | 1 -
 latex2json/parser/tex_preamble.py     | 1 -
 latex2json/parser/tex_preprocessor.py | 1 -
 4 files changed, 4 deletions(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index 3dafd40..e1d30f4 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -4,7 +4,6 @@ from typing import List, Dict, Tuple, Union
 import sys, os
 
 
-sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
 
 import logging
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 94ec172..03dacc2 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -7,7 +7,6 @@ import logging
 from latex2json.parser.bib.bib_parser import BibTexEntry, BibParser
 from latex2json.utils.logger import setup_logger
 
-sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
 
 from latex2json.parser.handlers import (
diff --git a/latex2json/parser/tex_preamble.py b/latex2json/parser/tex_preamble.py
index 930d73a..bb5f955 100644
--- a/latex2json/parser/tex_preamble.py
+++ b/latex2json/parser/tex_preamble.py
@@ -11,7 +11,6 @@ from latex2json.parser.patterns import (
 )
 from latex2json.utils.tex_utils import read_tex_file_content, strip_latex_comments
 
-sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
 from latex2json.parser.handlers import NewDefinitionHandler
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index adbe2c6..050c094 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -12,7 +12,6 @@ from latex2json.parser.patterns import (
     DOCUMENTCLASS_PATTERN,
 )
 
-sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
 from latex2json.parser.handlers.code_block import PATTERNS as VERBATIM_PATTERNS
 
-- 
2.43.0


From b688f3252ae8ba3071f0d8ee382eb30b8e58098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 29/49] fix: a failed included file no longer leaks its
 directory / environment into the including one

---
 latex2json/parser/sty_parser.py | 6 ++++--
 latex2json/parser/tex_parser.py | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index e1d30f4..fba4d80 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -262,12 +262,14 @@ class LatexStyParser:
             content = read_tex_file_content(file_path, extension=extension)
             self.parsed_files.add(file_path)
 
-            tokens = self.parse(content, file_path=file_path)
+            try:
+                tokens = self.parse(content, file_path=file_path)
+            finally:
+                self.current_file_dir = current_file_dir
 
             for token in tokens:
                 token["is_sty"] = True
 
-            self.current_file_dir = current_file_dir
             self.logger.info(f"Finished parsing file: {file_path}")
             return tokens
         except Exception as e:
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 03dacc2..1f1a7a3 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -678,6 +678,7 @@ class LatexParser:
         Returns:
             List[Dict[str, str]]: List of parsed tokens
         """
+        prev_env = self.current_env
         try:
             self.logger.info(f"Parsing file: {file_path}, ext: {extension}")
 
@@ -700,6 +701,8 @@ class LatexParser:
                 f"Failed to parse file: {file_path}, error: {str(e)}", exc_info=True
             )
             self.logger.warning(f"Continuing from failed parse at {file_path}")
+            # the failed file may have left one of its own tokens here
+            self.current_env = prev_env
             return []
 
 
-- 
2.43.0


From 6f7921e193880f2f798a64414f3328148d5f1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 30/49] fix: a file that includes itself (directly or not) is
 not parsed again inside itself

---
 latex2json/parser/tex_parser.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 1f1a7a3..d21ce16 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -54,6 +54,7 @@ class LatexParser:
             None  # Current environment token (used for associating nested labels)
         )
         self.current_file_dir = None
+        self._open_files = []  # files being parsed, outermost first
         self.current_str = ""
 
         # color definitions via \definecolor
@@ -121,6 +122,7 @@ class LatexParser:
         self.colors = {}
         self.current_str = ""
         self.current_file_dir = None
+        self._open_files = []
         self.current_env = None
 
         self.command_manager.clear()
@@ -692,8 +694,18 @@ class LatexParser:
                 self.logger.error(f"File not found: {file_path}", exc_info=True)
                 return []
 
+            if not os.path.isfile(file_abspath):
+                file_abspath += extension
+            if file_abspath in self._open_files:
+                self.logger.error(f"File includes itself, skipping: {file_path}")
+                return []
+
             preprocess = should_preprocess_file(file_path)
-            out = self.parse(content, preprocess=preprocess)
+            self._open_files.append(file_abspath)
+            try:
+                out = self.parse(content, preprocess=preprocess)
+            finally:
+                self._open_files.pop()
             self.logger.info(f"Finished parsing file: {file_path}")
             return out
         except Exception as e:
-- 
2.43.0


From fb2c33e545726d2c239f943f7c908f919b81fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 31/49] fix: \\uD800-\\uDFFF escapes are left alone (lone
 surrogates made the JSON unsaveable)

---
 latex2json/latex_maps/latex_unicode_converter.py | 4 +++-
 latex2json/parser/handlers/environment.py        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/latex_maps/latex_unicode_converter.py b/latex2json/latex_maps/latex_unicode_converter.py
index 045dc3b..1f2919f 100644
--- a/latex2json/latex_maps/latex_unicode_converter.py
+++ b/latex2json/latex_maps/latex_unicode_converter.py
@@ -77,7 +77,9 @@ class LatexUnicodeConverter:
             # Handle Unicode escape sequences
             if pattern_type == "unicode":
                 try:
-                    return chr(int(match.group(1), 16))
+                    char = chr(int(match.group(1), 16))
+                    # surrogates are not characters: they cannot be encoded
+                    return c if "\ud800" <= char <= "\udfff" else char
                 except (ValueError, IndexError):
                     return c
             # Handle regular LaTeX commands
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 7c4db86..3d78c60 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -528,7 +528,7 @@ class EnvironmentHandler(BaseEnvironmentHandler):
         )
         if blocks:
             first_arg = blocks[0].strip()
-            if first_arg.isdigit():
+            if first_arg.isdecimal():
                 token["num_args"] = int(first_arg)
             for block in blocks[1:]:
                 token["optional_args"].append(block.strip())
-- 
2.43.0


From 344b38e74615ce996a3ec718a581e939c5c2d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 32/49] fix: tokens nested in titles and equation placeholders
 keep their own fields in the JSON output

---
 latex2json/structure/tokens/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index e0e858b..5202d5c 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -43,6 +43,13 @@ class BaseToken(BaseModel):
         else:
             result["content"] = self.serialize_value(self.content, **kwargs)
 
+        # Same for the other fields that can hold tokens (title, placeholders, ...):
+        # the default dump keeps only the fields of the declared (base) type
+        for name in result.keys() - {"content"}:
+            value = getattr(self, name)
+            if isinstance(value, (list, dict, BaseToken)):
+                result[name] = self.serialize_value(value, **kwargs)
+
         # Remove None values if exclude_none is True
         if exclude_none:
             result = {k: v for k, v in result.items() if v is not None}
-- 
2.43.0


From c1f5e1249f7e094fcae87bf422b201623abb5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 33/49] fix: \\bysame with a command in the author name no
 longer raises a regex template error

---
 latex2json/parser/bib/bibitem_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 8beaff1..eefd98c 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -44,7 +44,7 @@ class BibItemParser:
                     # Extract author part from previous entry (up to first comma)
                     author_part = previous_content.split(",")[0]
                     if author_part:
-                        item = bysame_pattern.sub(author_part, item)
+                        item = bysame_pattern.sub(lambda _: author_part, item)
 
                 entry = BibTexEntry(
                     citation_key=match.group(2).strip(),
-- 
2.43.0


From aeba5efe44af9b92728c41e353b23a9a76aeec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 34/49] fix: serialise nested-token fields in declaration order

---
 latex2json/structure/tokens/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 5202d5c..d3d7b87 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -45,8 +45,10 @@ class BaseToken(BaseModel):
 
         # Same for the other fields that can hold tokens (title, placeholders, ...):
         # the default dump keeps only the fields of the declared (base) type
-        for name in result.keys() - {"content"}:
+        for name in type(self).model_fields:
             value = getattr(self, name)
+            if name == "content" or name not in result:
+                continue
             if isinstance(value, (list, dict, BaseToken)):
                 result[name] = self.serialize_value(value, **kwargs)
 
-- 
2.43.0


From 19998970df7a2a15c058ba804fc15068562e2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 35/49] fix: do not take a longer command name for the begin or
 end of an environment pair

---
 latex2json/parser/handlers/environment.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 3d78c60..475fcb1 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -116,6 +116,12 @@ def get_env_type(env_name: str) -> str:
     return ENV_TYPES.get(env_name.lower(), "environment")
 
 
+def extract_env_pair(content: str, env_name: str) -> Tuple[int, int, str]:
+    r"""Extract the content between \aa and its matching \endaa"""
+    name = re.escape(env_name) + r"(?![a-zA-Z@])"
+    return extract_nested_content_pattern(content, r"\\" + name, r"\\end" + name)
+
+
 def convert_any_env_pairs_to_begin_end(content: str) -> str:
     r"""Convert any \aa \endaa pairs to \begin{aa} \end{aa}"""
     pattern = re.compile(ENV_PAIR_PATTERN, re.DOTALL)
@@ -123,9 +129,7 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
     match = pattern.search(content)
     while match:
         env_name = match.group(1)
-        start_pos, end_pos, inner_content = extract_nested_content_pattern(
-            content, r"\\" + env_name, r"\\end" + env_name
-        )
+        start_pos, end_pos, inner_content = extract_env_pair(content, env_name)
         if start_pos == -1:
             # no balanced pair: leave the rest as is
             break
@@ -279,9 +283,7 @@ class BaseEnvironmentHandler(TokenHandler):
                     all_str[all_str.rfind("\\end") :].replace("\\end", "").strip()
                 )
 
-                start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\" + env_name, r"\\end" + env_name
-                )
+                start_pos, end_pos, inner_content = extract_env_pair(content, env_name)
                 if env_name == "@float":
                     # e.g. \@float{table} -> \begin{@float}{table} -> \begin{table}
                     inner_match = re.match(
-- 
2.43.0


From 6dfb31f1d521efcbbf9241ba9c8963fac31051de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 36/49] fix: do not use a color model from the document as a
 regular expression

---
 latex2json/parser/handlers/legacy_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 4b7c154..44f2f42 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -211,7 +211,7 @@ class LegacyFormattingHandler(TokenHandler):
 
                     # if exact match detected, we remove it because it acts like a off switch
                     # e.g. \em some italic text ... \em no longer italic
-                    if command and re.match(r"\\" + command, content[total_pos:]):
+                    if command and content.startswith("\\" + command, total_pos):
                         total_pos += len(command) + 1
 
                     return formatted_text, total_pos
-- 
2.43.0


From 2f99a8f452ed0f89c77e32fa4770650c1a5cff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 37/49] fix: importing utils.logger no longer wraps
 stdout/stderr (colorama.init moved into setup_logger)

---
 latex2json/utils/logger.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/utils/logger.py b/latex2json/utils/logger.py
index 7db9fc4..c5fc98f 100644
--- a/latex2json/utils/logger.py
+++ b/latex2json/utils/logger.py
@@ -3,9 +3,6 @@ import colorama
 from colorama import Fore, Style
 import sys
 
-# Initialize colorama for Windows support
-colorama.init()
-
 
 class ColoredFormatter(logging.Formatter):
     """Custom formatter that adds colors to log messages based on level"""
@@ -56,6 +53,9 @@ def setup_logger(
     Returns:
         logging.Logger: Configured logger instance
     """
+    # Initialize colorama for Windows support
+    colorama.init()
+
     logger = logging.getLogger(name)
 
     # Clear any existing handlers
-- 
2.43.0


From 7484719f596aa04135a9129abd997ede2b044c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 38/49] fix: matching \def no longer takes exponential time on
 parameter text without a body (C22)

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 16fa4c4..4dc110f 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -22,7 +22,7 @@ DEF_COMMAND_PREFIX = r"(?:\\long)?\\(?:e|g|x)?def\s*\\"
 LET_COMMAND_PREFIX = r"\\(?:future)?let\s*\\"
 
 DEF_COMMAND_PATTERN = re.compile(
-    r"%s([^\s{#]+)(((?:#\d+|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
+    r"%s([^\s{#]+)(([^{]*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
 )
 LET_COMMAND_PATTERN = re.compile(
     r"%s([^\s{\\]+)\s*(=.*|\\[^\s{]+)" % (LET_COMMAND_PREFIX), re.DOTALL
-- 
2.43.0


From 59802aacd3fa3c6942106d35c3cd059c38f5e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 39/49] fix: blanks around the name in \DeclareMathAlphabet no
 longer bypass the protected command list (C14)

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 4dc110f..fd5c0c2 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -230,7 +230,7 @@ class NewDefinitionHandler(TokenHandler):
         end_pos += start_pos
         if len(blocks) < 1:
             return None, end_pos
-        cmd = blocks[0]
+        cmd = blocks[0].strip()
         token = {
             "type": "newcommand",
             "name": cmd.strip("\\"),
-- 
2.43.0


From f151bb7a68c798a0ebb94ccdf92935ac466be668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 40/49] fix: \def of a protected command with delimiter text
 (\def\section*{..}) is ignored too (C14)

---
 latex2json/parser/handlers/command_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 9c9636d..174449e 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -72,6 +72,12 @@ class CommandManager(TokenHandler):
         if not cmd_name or cmd_name in WHITELISTED_COMMANDS:
             return
 
+        # \def\section*{...} redefines \section, with a delimiter
+        if token["type"] == "def" and "csname" not in token["usage_pattern"]:
+            word = re.match(r"[a-zA-Z@]+", cmd_name)
+            if word and word.group(0) in WHITELISTED_COMMANDS:
+                return
+
         if not self._should_handle_command_type(token["type"]):
             return
 
-- 
2.43.0


From 22affff4507149422fc58de24142dfc0375770b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:34 +0000
Subject: [PATCH 41/49] fix: a bibliography that names itself in an entry is
 not read again inside itself (C13)

---
 latex2json/parser/tex_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index d21ce16..de8a8d8 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -329,6 +329,12 @@ class LatexParser:
                 else path
             )
 
+            file_abspath = os.path.abspath(full_path)
+            if file_abspath in self._open_files:
+                self.logger.error(f"File includes itself, skipping: {full_path}")
+                continue
+
+            self._open_files.append(file_abspath)
             try:
                 entries = self.bib_parser.parse_file(full_path)
                 all_tokens.extend(
@@ -338,6 +344,8 @@ class LatexParser:
                 self.logger.warning(
                     f"Failed to parse bibliography file: {full_path}, error: {str(e)}"
                 )
+            finally:
+                self._open_files.pop()
 
         # check and remove duplicate cite_keys
         cite_keys = set()
-- 
2.43.0


From 289ddabb7faaa178e69bbf8b072136eb37cb933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 42/49] fix: keep the text of etoolbox conditionals, emit no
 token for bool definitions

---
 latex2json/parser/packages/etoolbox.py | 4 ++++
 latex2json/parser/tex_parser.py        | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/latex2json/parser/packages/etoolbox.py b/latex2json/parser/packages/etoolbox.py
index 623ac22..29fb8ae 100644
--- a/latex2json/parser/packages/etoolbox.py
+++ b/latex2json/parser/packages/etoolbox.py
@@ -61,12 +61,16 @@ class EtoolboxHandler(TokenHandler):
         true_code = blocks[0] if not is_not else blocks[1]
         false_code = blocks[1] if not is_not else blocks[0]
 
+        # the branch that applies here (the first one if the bool is not known)
+        value = self.bool_definitions.get(bool_name, not is_not)
+
         token = {
             "type": "bool_conditional",
             "name": bool_name,
             "true_code": true_code,
             "false_code": false_code,
             "is_not": is_not,
+            "content": true_code if value else false_code,
         }
 
         return token, start_pos + end_pos
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index de8a8d8..af64d1f 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -387,6 +387,13 @@ class LatexParser:
                     if input_tokens:
                         tokens.extend(input_tokens)
                 return
+            elif token["type"] in ["bool_definition", "bool_set"]:
+                # only changes the state kept by the handler
+                return
+            elif token["type"] == "bool_conditional":
+                for t in self.parse(token["content"]):
+                    self.add_token(t, tokens)
+                return
             elif token["type"] in ["footnote", "caption"]:
                 # prev_env = self.current_env
                 self.current_env = token
-- 
2.43.0


From 84aea6fe5d0d3c50f5655f74f6287ff89bcc8f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 43/49] fix: an environment named like tabular that
 TabularHandler does not take is an ordinary environment

---
 latex2json/parser/handlers/environment.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 475fcb1..2b0b673 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -79,7 +79,6 @@ ENV_TYPES = {
     "table": "table",
     "subtable": "table",
     "subsubtable": "table",
-    "tabular": "tabular",  # should be handled in tabular handler
     "figure": "figure",
     "subfigure": "subfigure",
     "subfloat": "subfigure",  # another common figure subdivision
-- 
2.43.0


From 03a98920a91548011ca4dbe29c58547acea480e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 44/49] fix: conditionals with brace arguments are not closed
 by \fi

---
 .../parser/handlers/if_else_statements.py     | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d9be0f..75f34bc 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -36,7 +36,20 @@ ifx_pattern = re.compile(
 )
 
 
-IF_PATTERN = re.compile(r"\\(?:@)?if%s" % (default_if_pattern))
+# conditionals that take their branches as {...}{...} arguments, i.e. without \fi
+BRACE_IFS = [
+    "ifthenelse",
+    "IfFileExists",
+    "@ifclassloaded",
+    "@ifpackageloaded",
+    "@ifundefined",
+    "@ifstar",
+    "ifbool",  # see EtoolboxHandler
+]
+
+IF_PATTERN = re.compile(
+    r"\\(?!(?:%s)(?![a-zA-Z@]))(?:@)?if%s" % ("|".join(BRACE_IFS), default_if_pattern)
+)
 ELSE_PATTERN = re.compile(r"\\else\b")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
@@ -153,6 +166,9 @@ def extract_else_elseif_fi(
 
         pos += next_match.end()
 
+    if nesting_level > 0:
+        raise ValueError("Unclosed conditional block")
+
     return (
         "".join(if_content).strip(),
         "".join(else_content).strip(),
@@ -215,6 +231,9 @@ class IfElseBlockHandler(TokenHandler):
             return
         pattern = ""
         for k, v in self.all_ifs:
+            if k in IF_PATTERNS_DEFAULT_LIST and k in [x.lower() for x in BRACE_IFS]:
+                # not closed by \fi
+                continue
             pattern += "|" + v.pattern
         if pattern.startswith("|"):
             pattern = pattern[1:]
@@ -293,6 +312,8 @@ class IfElseBlockHandler(TokenHandler):
                     return self._handle_atif(content, match, name)
                 elif name == "@ifstar":
                     return self._handle_ifstar(content, match)
+                elif name == "iffileexists":
+                    return self._handle_iffileexists(content, match)
                 # elif name == "equal":
                 #     start_pos = match.end() - 1
                 #     blocks, end_pos = extract_nested_content_sequence_blocks(
-- 
2.43.0


From f7547669886ffd9e72c6e9d69e8207706de27288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 45/49] fix: no token for a bibliography command without a file
 name

---
 latex2json/parser/tex_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index af64d1f..e1806f6 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -375,8 +375,9 @@ class LatexParser:
                         self._convert_bibentry_tokens(entry) for entry in entries
                     ]
             elif token["type"] == "bibliography_file":
-                if token["content"]:
-                    token = self._parse_bib_file(token["content"])
+                if not token["content"]:
+                    return
+                token = self._parse_bib_file(token["content"])
             elif token["type"] == "input_file":
                 # open input file
                 if token["content"]:
-- 
2.43.0


From 1303ab51e0f9f031ee3a26b518e76673628d191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:05 +0000
Subject: [PATCH 46/49] fix: labels of text tokens merged into the preceding
 one are kept

---
 latex2json/parser/tex_parser.py | 4 ++++
 latex2json/structure/builder.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index e1806f6..a69ce4d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -208,6 +208,10 @@ class LatexParser:
                         if add_space and not tokens[-1]["content"].endswith(" "):
                             tokens[-1]["content"] += " "
                         tokens[-1]["content"] += token_dict["content"]
+                        if token_dict.get("labels"):
+                            tokens[-1].setdefault("labels", []).extend(
+                                token_dict["labels"]
+                            )
                         return
                 elif typing in ["group", "environment", "list"]:
                     # ignore empty
diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 090e949..2f0f79d 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -222,6 +222,10 @@ class TokenBuilder:
                         current_text_token["content"] += (
                             " " + next_content if add_space else next_content
                         )
+                        if token.get("labels"):
+                            current_text_token["labels"] = (
+                                current_text_token.get("labels") or []
+                            ) + token["labels"]
                     else:
                         concatenated_tokens.append(current_text_token)
                         current_text_token = token
-- 
2.43.0


From 47c60a4972fe5b7c4b8cd8cab7f24eccf16a690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:32 +0000
Subject: [PATCH 47/49] fix: theorem numbers no longer repeat after starred
 sections and in the appendix

---
 latex2json/structure/builder.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 2f0f79d..01c9d14 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -180,10 +180,12 @@ class TokenBuilder:
         self.figure_env_number += 1
         token["numbering"] = str(self.figure_env_number)
 
-    def _update_math_env_numbering(self, token):
+    def _update_math_env_numbering(self, token, in_appendix=False):
         self.math_env_number += 1
-        # Use current section number + sequential counter
+        # Use current section number (letter if in appendix) + sequential counter
         section_prefix = str(self.section_numbers[1])
+        if in_appendix and self.section_numbers[1] > 0:
+            section_prefix = chr(64 + self.section_numbers[1])
         token["numbering"] = f"{section_prefix}.{self.math_env_number}"
 
     def _convert_inline_equations_to_text(self, tokens):
@@ -326,14 +328,14 @@ class TokenBuilder:
         token["content"] = []
         stack.append(token)
 
-    def _check_update_numbering(self, token: Dict[str, any]):
+    def _check_update_numbering(self, token: Dict[str, any], in_appendix=False):
         if token.get("numbered"):
             if token["type"] == "equation":
                 self._update_equation_numbering(token)
             elif token["type"] == "algorithm":
                 self._update_algorithm_numbering(token)
             elif token["type"] == "math_env":
-                self._update_math_env_numbering(token)
+                self._update_math_env_numbering(token, in_appendix)
             elif token["type"] == "table":
                 self._update_table_env_numbering(token)
             elif token["type"] == "figure":
@@ -376,7 +378,7 @@ class TokenBuilder:
                 continue
 
             # Handle token numbering
-            self._check_update_numbering(token)
+            self._check_update_numbering(token, in_appendix)
 
             # Handle list depth
             if token["type"] == "list":
@@ -404,8 +406,8 @@ class TokenBuilder:
                 self._update_section_numbering(
                     token, reset_lower_levels=True, in_appendix=in_appendix
                 )
-                # Reset math environment counter when section changes
-                if token.get("level") == 1:
+                # Reset math environment counter when section number changes
+                if token.get("level") == 1 and token.get("numbered", True):
                     self.math_env_number = 0
 
                 self._manage_stack(token, section_stack, root)
-- 
2.43.0


From 1904bbb97c0508507f246145ca3737bdcada169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:13 +0000
Subject: [PATCH 48/49] fix: \elsif after \else no longer raises IndexError

---
 latex2json/parser/handlers/if_else_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 75f34bc..a0845f9 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -151,7 +151,7 @@ def extract_else_elseif_fi(
             current_content = "".join(current_buffer).strip()
             if current_buffer == if_content:
                 if_content = [current_content]
-            else:
+            elif elsif_branches:
                 # Add the previous elsif branch
                 condition = elsif_branches[-1][0]
                 elsif_branches[-1] = (condition, current_content)
-- 
2.43.0


From 134e90e8221cc0a039aaf4aabe88f7f845884254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:44 +0000
Subject: [PATCH 49/49] fix: table structures nested in other table structures
 are restored

---
 latex2json/parser/handlers/tabular.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 3291ac8..687203d 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -351,7 +351,8 @@ class TabularHandler(BaseEnvironmentHandler):
             flattened_content, reference_map = flatten_tokens(processed_content)
 
             # then set back the table structures to the original content
-            for ref_key, structure in table_structures.items():
+            # (last one first: a structure can hold references to earlier ones)
+            for ref_key, structure in reversed(list(table_structures.items())):
                 flattened_content = flattened_content.replace(
                     ref_key, structure["content"]
                 )
-- 
2.43.0

