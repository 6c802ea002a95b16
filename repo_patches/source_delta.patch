From 4c9bcb04299ea7160e07966a0c67c1290c5b5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:20 +0000
Subject: [PATCH 01/37] fix: do not raise at end of file after a continuation
 or an unclosed block

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..05b9297 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From d9c544829a0df51f886124d2cdd4f667d9a5dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 02/37] fix: treat unreadable and undecodable files as unusable
 input instead of raising

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 05b9297..582b481 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -200,7 +200,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
     """
     try:
         prep_lines = []
-        with open(_file) as i:
+        with open(_file, errors='replace') as i:
             _iter = enumerate(i.readlines())
             nextbuf = ''
             num = 1
@@ -227,7 +227,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
                         _iter, lineOffset, num, nextbuf, negative=negative)
                     num += length
                     prep_lines.append(item)
-    except FileNotFoundError:
+    except OSError:
         pass
     return prep_lines
 
-- 
2.43.0


From e84ab5e2df917bed5a1ee3eee484a177d133cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 03/37] fix: read_file expansion of directories, binary files
 or invalid names yields an empty text

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..7750634 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -800,7 +800,7 @@ class Stash():
                     "file"), spare=spare, seen=seen).strip("'\"")
                 with open(_fullpath) as i:
                     res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+            except (OSError, ValueError):
                 res = ''
         return res
 
-- 
2.43.0


From 9ff5eef2e0ae9178297d091a22ac398f1e1cdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 04/37] fix: record every occurrence of a repeated inline block

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 582b481..1fbcab7 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From eee03a6d14f5a067243a25847dc66fdaf8a48381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 05/37] fix: do not finalize from answers cached before the
 links were closed

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7750634..f04dfa1 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -292,6 +292,9 @@ class Stash():
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
 
+        # the links have changed
+        self._clear_cached()
+
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
                 item.IncludedFrom = v
-- 
2.43.0


From 117c27a507e8cf1dcc1196c92519056c5f759d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 06/37] fix: link an already parsed file to every file that
 includes it

---
 oelint_parser/cls_stash.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f04dfa1..1a12071 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -154,6 +154,20 @@ class Stash():
         self.__get_items_by_file.cache_clear()
         self.__is_linked_to.cache_clear()
 
+    def __link(self, includer: str, _file: str) -> None:
+        """Link a file to the file that includes it
+
+        Args:
+            includer (str): Full path to the including file, if any
+            _file (str): Full path to the included file
+        """
+        if not includer:
+            return
+        if includer not in self.__map:
+            self.__map[includer] = []
+        self.__map[includer].append(_file)
+        self._clear_cached()
+
     def AddFile(self, _file: str, lineOffset: int = 0, forcedLink: str = None) -> List[Item]:
         """Adds a file to the stash
 
@@ -170,8 +184,10 @@ class Stash():
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
         if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
+            self.__link(forcedLink, _file)
             return []
         if _file in self.__seen_classes:
+            self.__link(forcedLink, _file)
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
@@ -185,10 +201,7 @@ class Stash():
                         negative=self.__negative_inline)
         if _file not in self.__map:
             self.__map[_file] = []
-        if forcedLink:
-            if forcedLink not in self.__map:
-                self.__map[forcedLink] = []
-            self.__map[forcedLink].append(_file)
+        self.__link(forcedLink, _file)
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-- 
2.43.0


From 8027c6742115d6d80de34cc21b6b6cd21ebdc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:24 +0000
Subject: [PATCH 07/37] fix: do not parse a file again while it is being parsed

---
 oelint_parser/cls_stash.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1a12071..0926734 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -130,6 +130,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__active_files = set()
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -186,7 +187,7 @@ class Stash():
         if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
             self.__link(forcedLink, _file)
             return []
-        if _file in self.__seen_classes:
+        if _file in self.__seen_classes or _file in self.__active_files:
             self.__link(forcedLink, _file)
             return []
         if not self.__quiet:
@@ -194,11 +195,15 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        self.__active_files.add(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__active_files.discard(_file)
         if _file not in self.__map:
             self.__map[_file] = []
         self.__link(forcedLink, _file)
-- 
2.43.0


From fb18e72821b42876f9ec23567c23d51a1a051e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 08/37] fix: clear the caches of GetBBClasses,
 GetPackagesDynamic and IsDynamicPackage

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0926734..62ae945 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -141,13 +141,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 0573c75be2aacc07e5b0979d1e034b25bee4b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 09/37] fix: do not let results depend on hash seed, addresses
 or directory order

---
 oelint_parser/cls_item.py  |  5 +++--
 oelint_parser/cls_stash.py | 10 +++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..c2b1990 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -258,7 +258,8 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        attr = {k: sorted(v) if isinstance(v, set) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=attr)
 
 
 class Variable(Item):
@@ -1254,7 +1255,7 @@ class Inherit(Item):
         super().__init__(*args, **kwargs)
         self.__Class = classes
         self.__Statement = statement
-        self.__FilePaths = inherit_file_paths or {}
+        self.__FilePaths = inherit_file_paths or set()
 
     @property
     def Class(self) -> str:
diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 62ae945..df40aaa 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -296,10 +296,10 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in glob.glob(os.path.join(_root, "conf", "distro", "*.conf")):
+            for conf in sorted(glob.glob(os.path.join(_root, "conf", "distro", "*.conf"))):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in glob.glob(os.path.join(_root, "conf", "machine", "*.conf")):
+            for conf in sorted(glob.glob(os.path.join(_root, "conf", "machine", "*.conf"))):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
@@ -355,7 +355,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -409,7 +409,7 @@ class Stash():
         """
         if not filename:
             return []
-        return [x.Origin for x in self.__get_items_by_file(frozenset(self.__list), filename) if x.Origin != filename]
+        return [x.Origin for x in self.__get_items_by_file(tuple(self.__list), filename) if x.Origin != filename]
 
     def Reduce(self,
                in_list: Iterable[Item],
@@ -446,7 +446,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue))
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From 54997ea8a4e8f6d94694420f0b26c22cd739aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 10/37] fix: only put back inline code that could not be
 resolved

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index df40aaa..0578e16 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -749,8 +749,9 @@ class Stash():
 
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
-        for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+        for block, replacement in varref.InlineBlocks:
+            if replacement == INLINE_BLOCK:
+                res = res.replace(INLINE_BLOCK, block, 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
-- 
2.43.0


From 3717635424e04ae2ebf7cef381c0144b1a4c7bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:34 +0000
Subject: [PATCH 11/37] fix: ExpandVar applies every operator regardless of
 white space and of inline code

---
 oelint_parser/cls_stash.py | 51 ++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0578e16..0d56923 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -497,7 +497,8 @@ class Stash():
                                 nolink=nolink)
 
         _res += self.GetItemsFor(filename=filename,
-                                 classifier=Unset.CLASSIFIER)
+                                 classifier=Unset.CLASSIFIER,
+                                 nolink=nolink)
 
         if filename is None:
             if _res:
@@ -519,69 +520,65 @@ class Stash():
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
+            value = self._ReverseInlineBlock(item)
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
-                _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
-                _exp[name] = item.VarValueStripped
-            elif varop == " ?= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
-            elif varop == " ??= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
-            elif varop == " += ":
+            if varop in ["=", ":="]:
+                _exp[name] = value
+            elif varop == "?=" and _exp[name] is None:
+                _exp[name] = value
+            elif varop == "??=" and _exp[name] is None:
+                _exp[name] = value
+            elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
-            elif varop == " =+ ":
+                _exp[name] += " " + value
+            elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
-            elif varop in [" .= "]:
+                _exp[name] = value + " " + _exp[name]
+            elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
-            elif varop in [" =. "]:
+                _exp[name] += value
+            elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            value = self._ReverseInlineBlock(item)
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
+            if "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
-            elif "append" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for the run with remove
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            value = self._ReverseInlineBlock(item)
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _exp[name] = _exp[name].replace(value, "")
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From ff22d245918675794578a01665a85795f4afc690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 12/37] fix: ignore blank and invalid dynamic package patterns

---
 oelint_parser/cls_stash.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0d56923..2d09961 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -933,8 +933,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped, objref=i)) if x)
 
         return packages_dynamic
 
@@ -951,7 +951,10 @@ class Stash():
         """
         expanded = self.ExpandTerm(_file, name)
         for pattern in self.GetPackagesDynamic(_file):
-            if RegexRpl.match(pattern, expanded):
-                return True
+            try:
+                if RegexRpl.match(pattern, expanded):
+                    return True
+            except regex.error:
+                continue
 
         return False
-- 
2.43.0


From c4a25d106abfae6d4332538bcf8f2d9399451075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:23 +0000
Subject: [PATCH 13/37] fix: no inline block placeholder in package and
 resource names

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 2d09961..ea03d79 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -848,7 +848,7 @@ class Stash():
             res.update(["{recipe}-{pkg}".format(recipe=_pn, pkg=x)
                         for x in ["src", "dbg", "staticdev", "dev", "doc", "locale"]])
             for item in _comp:
-                for pkg in [x for x in self.SafeLineSplit(self.ExpandTerm(_file, item.VarValueStripped, spare=["PN"])) if x]:
+                for pkg in [x for x in self.SafeLineSplit(self.ExpandTerm(_file, item.VarValueStripped, spare=["PN"], objref=item)) if x]:
                     if not strippn:
                         _pkg = pkg.replace("${PN}", _pn)
                     else:
@@ -872,7 +872,7 @@ class Stash():
         _recipe_name = self.GuessRecipeName(_file)
         res.add(_recipe_name)
         for item in _comp:
-            for name in [x for x in self.SafeLineSplit(item.VarValueStripped) if x]:
+            for name in [x for x in self.SafeLineSplit(self._ReverseInlineBlock(item)) if x]:
                 _url = self.GetScrComponents(name)
                 if "name" in _url["options"]:
                     res.add(_url["options"]["name"].replace(
-- 
2.43.0


From ca0803cb4af8cdf23d09840ae4f89ca858b3062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 14/37] fix: keep spared variables unexpanded in nested
 expansions

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index ea03d79..265abf4 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -785,7 +785,7 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -794,7 +794,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
-- 
2.43.0


From e048ea7daba2c96dfde1d14bbae06b607c2fb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 15/37] fix: RegexRpl honours flags in match and the timeout in
 finditer

---
 oelint_parser/parser.py    | 2 +-
 oelint_parser/rpl_regex.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1fbcab7..c10fdea 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -289,7 +289,7 @@ def get_items(stash: object,
             'realraw': line['realraw'],
         }
         for k, v in _order.items():
-            m = RegexRpl.match(v, line["cnt"], regex.regex.MULTILINE)
+            m = RegexRpl.match(v, line["cnt"])
             if m:
                 if k == "python":
                     parameter['name'] = m.group("funcname")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..d0176a2 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -61,7 +61,7 @@ class RegexRpl():
             Match: Match object or None
         """
         try:
-            return regex.match(pattern, string, timeout=timeout, **kwargs)
+            return regex.match(pattern, string, flags=flags, timeout=timeout, **kwargs)
         except TimeoutError:
             return default
 
@@ -101,6 +101,6 @@ class RegexRpl():
             Scanner: Scanner object or None
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
-            return default
+            return default or iter([])
-- 
2.43.0


From 14028bc98705e06cca4bdba77a55164e7a07bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 16/37] fix: FunctionExports.ATTR_FUNCNAME names the existing
 attribute

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index c2b1990..ab9347b 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -878,7 +878,7 @@ class FlagAssignment(Item):
 class FunctionExports(Item):
     """Items representing EXPORT_FUNCTIONS in bitbake."""
 
-    ATTR_FUNCNAME = "FuncName"
+    ATTR_FUNCNAME = "FuncNames"
     CLASSIFIER = "FunctionExports"
 
     def __init__(self,
-- 
2.43.0


From eb2524040e5d469a59dba472091a2abb8628ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:53 +0000
Subject: [PATCH 17/37] fix: StashList bulk operations accept result lists and
 keep the list type

---
 oelint_parser/cls_stash.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 265abf4..d4ba7a2 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -45,7 +45,8 @@ class Stash():
             self.data[index] = item
 
         def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+            self.data.__iadd__(__value)
+            return self
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
@@ -62,8 +63,8 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.append(_item)
             else:
                 self.data.append(item)
@@ -74,8 +75,9 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            if isinstance(other, type(Stash.StashList)):
-                self.data.extend(other.data)
+            if isinstance(other, Stash.StashList):
+                other = other.data
+            self.data.extend(other)
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
@@ -83,8 +85,8 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.remove(_item)
             else:
                 self.data.remove(item)
-- 
2.43.0


From 9e67324cbf93323df60f1477540dc75b1e4e640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:20 +0000
Subject: [PATCH 18/37] fix: StashList owns its items, and can be added to
 itself

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d4ba7a2..30b8cd6 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -39,13 +39,13 @@ class Stash():
             """
             self._stash = stash
             super().__init__()
-            self.data = items
+            self.data = list(items)
 
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
         def __iadd__(self, __value: Iterable) -> List[Item]:
-            self.data.__iadd__(__value)
+            self.extend(__value)
             return self
 
         def insert(self, index: int, item: Item) -> None:
-- 
2.43.0


From 3b6a8f9060251b59448508744da1da4c6e570002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 19/37] fix: match bbappends by name only and alike in both
 orders

---
 oelint_parser/cls_stash.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 30b8cd6..7c97e67 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -174,6 +174,21 @@ class Stash():
         self.__map[includer].append(_file)
         self._clear_cached()
 
+    def __append_matches(self, append: str, recipe: str) -> bool:
+        """Check if a bbappend applies to a recipe
+
+        Args:
+            append (str): path to the bbappend
+            recipe (str): path to the recipe
+
+        Returns:
+            bool: True if the names match, with % standing for any text
+        """
+        _append, _ = os.path.splitext(os.path.basename(append))
+        _recipe, _ = os.path.splitext(os.path.basename(recipe))
+        _pattern = "(?s:.*)".join(regex.escape(x) for x in _append.split("%"))
+        return RegexRpl.match(_pattern + r"\Z", _recipe) is not None
+
     def AddFile(self, _file: str, lineOffset: int = 0, forcedLink: str = None) -> List[Item]:
         """Adds a file to the stash
 
@@ -215,11 +230,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if x.endswith(".bb") and self.__append_matches(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -227,17 +240,16 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
-            for item in self.__list:
-                if not item.Origin.endswith(".bbappend"):
+            for x in self.__map:
+                if not x.endswith(".bbappend"):
                     continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
-                    self.__map[_file].append(item.Origin)
-                    # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+                if self.__append_matches(x, _file):
+                    self.__map[_file].append(x)
+                    for item in self.__list:
+                        if item.Origin == x:
+                            # pretend that we are adding that bbappend to the end of this recipe
+                            item.Line = max(item.Line, item.InFileLine + _maxline)
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
-- 
2.43.0


From 3f65208869b6882ddc6cd3844218b4801063ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:59 +0000
Subject: [PATCH 20/37] fix: constants share no storage with their callers

---
 oelint_parser/constants.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..544ade3 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -39,7 +40,7 @@ class Constants():
         data = self.__db
         for _, value in enumerate(paths):
             data = data.get(value, {})
-        return data
+        return copy.deepcopy(data)
 
     def AddConstants(self, _dict: dict) -> None:
         """Add constants to the existing
@@ -56,7 +57,7 @@ class Constants():
                 else:
                     a[k] += v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -73,7 +74,7 @@ class Constants():
                 else:
                     a[k] = [x for x in a[k] if x not in v]
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     def OverrideConstants(self, _dict: dict) -> None:
         """Override constants in the existing db
@@ -90,7 +91,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From ea85d164d42d55b71d289cb8941bc2223c4e805d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:13 +0000
Subject: [PATCH 21/37] fix: unusable constant databases are empty, paths below
 an entry too

---
 oelint_parser/constants.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 544ade3..e6e72ca 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -22,10 +22,13 @@ class Constants():
     def __load_db(self, path: str) -> dict:
         try:
             with open(path) as _in:
-                return json.load(_in)
-        except (OSError, json.JSONDecodeError):
-            sys.stderr.write('Cannot load constant database\n')
-            return {}
+                _db = json.load(_in)
+            if isinstance(_db, dict):
+                return _db
+        except (OSError, ValueError):
+            pass
+        sys.stderr.write('Cannot load constant database\n')
+        return {}
 
     def GetByPath(self, path: str) -> Union[Dict, List]:
         """Get constant from path
@@ -39,6 +42,8 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
+            if not isinstance(data, dict):
+                return {}
             data = data.get(value, {})
         return copy.deepcopy(data)
 
-- 
2.43.0


From 2c727a81c718e0fa30aeadeec65c99ddab3ea672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:26 +0000
Subject: [PATCH 22/37] fix: adding and removing constants keeps the kind of
 the entry

---
 oelint_parser/constants.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index e6e72ca..f8cc5ca 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -59,8 +59,10 @@ class Constants():
                     a[k] = v
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
-                else:
+                elif isinstance(a[k], list):
                     a[k] += v
+                else:
+                    a[k] = v
             return a
         self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
@@ -76,8 +78,12 @@ class Constants():
                     pass
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
-                else:
+                elif isinstance(a[k], list):
                     a[k] = [x for x in a[k] if x not in v]
+                elif isinstance(a[k], dict):
+                    a[k] = {x: y for x, y in a[k].items() if x not in v}
+                elif a[k] == v:
+                    del a[k]
             return a
         self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
-- 
2.43.0


From edacb0ea054df30f59a0bd6085209a6c5bc61599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 23/37] fix: results of cached queries belong to the caller

---
 oelint_parser/cls_stash.py | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7c97e67..f4d422a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1,9 +1,10 @@
+import copy
 import functools
 import glob
 import hashlib
 import os
 from collections import UserList
-from typing import Iterable, List, Set, Union
+from typing import Callable, Iterable, List, Set, Union
 from urllib.parse import urlparse
 
 import regex
@@ -24,6 +25,25 @@ __oe_utils_read_file_regex__ = regex.compile(
     r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
 
 
+def _cached(func: Callable) -> Callable:
+    """functools.cache for methods whose result belongs to the caller
+
+    Args:
+        func (Callable): method to cache
+
+    Returns:
+        Callable: cached method handing out copies of the cached result
+    """
+    cached = functools.cache(func)
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs) -> object:
+        return copy.deepcopy(cached(*args, **kwargs))
+
+    wrapper.cache_clear = cached.cache_clear
+    return wrapper
+
+
 class Stash():
     """The Stash object is the central storage for extracting the bitbake information."""
 
@@ -337,7 +357,7 @@ class Stash():
         # Reset caches
         self._clear_cached()
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetRecipes(self) -> None:
         """Get bb files in stash
 
@@ -346,7 +366,7 @@ class Stash():
         """
         return sorted({x for x in self.__map if x.endswith(".bb")})
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetLoneAppends(self) -> List[str]:
         """Get bbappend without a matching bb
 
@@ -362,7 +382,7 @@ class Stash():
                     x for x in v if x.endswith('.bbappend'))
         return sorted({x for x in __appends if x not in __linked_appends})
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetConfFiles(self) -> List[str]:
         """Get configurations files
 
@@ -371,7 +391,7 @@ class Stash():
         """
         return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetBBClasses(self) -> List[str]:
         """Get bbclass files
 
@@ -411,7 +431,7 @@ class Stash():
 
         return [x for x in items if _filter(x, attname, attvalue)]
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetLinksForFile(self, filename: str) -> List[str]:
         """Get file which this file is linked against
 
@@ -603,7 +623,7 @@ class Stash():
                 self.ExpandTerm(filename, v or ""))
         return _finalexp
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetFiles(self, _file: str, pattern: str) -> List[str]:
         """Get files matching SRC_URI entries
 
@@ -678,7 +698,7 @@ class Stash():
             _in = _in.replace(k, v)
         return _in
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetScrComponents(self, string: str) -> dict:
         """Return SRC_URI components
 
@@ -703,7 +723,7 @@ class Stash():
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-    @functools.cache  # noqa: B019
+    @_cached
     def SafeLineSplit(self, string: str) -> List[str]:
         """Split line in a safe manner
 
@@ -840,7 +860,7 @@ class Stash():
                 res = ''
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetValidPackageNames(self, _file: str, strippn: bool = False) -> List[str]:
         """Get known valid names for packages
 
@@ -870,7 +890,7 @@ class Stash():
                     res.add(_pkg)
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetValidNamedResources(self, _file: str) -> List[str]:
         """Get list of valid SRCREV resource names
 
@@ -931,7 +951,7 @@ class Stash():
             filename=_file, classifier=Inherit.CLASSIFIER)
         return any(x for x in _inherits if "packagegroup" in x.get_items())
 
-    @functools.cache  # noqa: B019
+    @_cached
     def GetPackagesDynamic(self, _file: str) -> Set[str]:
         """returns set of dynamic package patterns defined for _file
 
-- 
2.43.0


From 851599d976612a5056463ccf573a32615fbe462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:20 +0000
Subject: [PATCH 24/37] fix: ignore and find inherited classes one by one,
 whatever white space separates them

---
 oelint_parser/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index c10fdea..67bf086 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -330,7 +330,8 @@ def get_items(stash: object,
                 elif k == "inherit":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_name in Item.safe_linesplit(inhname):
+                        inh_item = inh_name
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -341,7 +342,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if inh_name in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
@@ -357,7 +358,8 @@ def get_items(stash: object,
                 elif k == "inherit_glob":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_name in Item.safe_linesplit(inhname):
+                        inh_item = inh_name
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -368,7 +370,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if inh_name in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-- 
2.43.0


From ad28166942a7ac241fecd6e2cb7ab382b82786ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 25/37] fix: unset items carry the whole variable name

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 67bf086..8f0ae14 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])*")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From 94f374184541385fe676f510dfbdce70e863fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 26/37] fix: export with a single quoted value has a name and a
 value

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 8f0ae14..b813dd1 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*(\"|')(?P<value>.*)(\"|')")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 2dfadc688b1afb1221b15471ef3f30f0fcb3228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 27/37] fix: constants given as one object at several places
 are separate entries

---
 oelint_parser/constants.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index f8cc5ca..e9a3fb0 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -2,7 +2,7 @@ import copy
 import json
 import os
 import sys
-from typing import Dict, List, Union
+from typing import Any, Dict, List, Union
 
 DEFAULT_DB = os.path.join(os.path.dirname(
     __file__), 'data', 'const-default.json')
@@ -17,7 +17,17 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = self.__copy(file_) if isinstance(file_, dict) else self.__load_db(file_)
+
+    @classmethod
+    def __copy(cls, value: Any) -> Any:
+        # one copy per place, as even an object that is found at several
+        # places of the input stands for separate entries
+        if isinstance(value, dict):
+            return {k: cls.__copy(v) for k, v in value.items()}
+        if isinstance(value, list):
+            return [cls.__copy(x) for x in value]
+        return copy.deepcopy(value)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -64,7 +74,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
+        self.__db = dict_merge(self.__db, self.__copy(_dict))
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -85,7 +95,7 @@ class Constants():
                 elif a[k] == v:
                     del a[k]
             return a
-        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
+        self.__db = dict_merge(self.__db, self.__copy(_dict))
 
     def OverrideConstants(self, _dict: dict) -> None:
         """Override constants in the existing db
@@ -102,7 +112,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
+        self.__db = dict_merge(self.__db, self.__copy(_dict))
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From 5190cbf63338161fe7ff3527eff42b2485723911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:24 +0000
Subject: [PATCH 28/37] fix: commas and blanks around quoted arguments of
 inline helpers

---
 oelint_parser/inlinerep.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..47e5ec4 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -3,27 +3,27 @@ import regex
 from oelint_parser.rpl_regex import RegexRpl
 
 __bb_utils_filter_regex__ = regex.compile(
-    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?),.*?,.*?\)')
+    r"""(.*)bb\.utils\.filter\(\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,.*?,.*?\)""")
 __bb_utils_contains_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    r"""(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*,\s*.\)""")
 __bb_utils_contains_any_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    r"""(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*,\s*.\)""")
 __oe_utils_conditional_regex__ = regex.compile(
-    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.*?\)")
+    r"""(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*,\s*.*?\)""")
 __oe_utils_ifelse_regex__ = regex.compile(
-    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
+    r"""(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*\)""")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    r"""(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*(,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*)*)*\)""")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    r"""(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*(,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*)*)*\)""")
 __oe_utils_vartrue_regex__ = regex.compile(
-    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    r"""(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*,.*?\)""")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    r"""(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*,.*?\)""")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    r"""(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,\s*(?P<falseval>'[^']*'|"[^"]*"|.*?)\s*,.*?\)""")
 __oe_utils_both_contain_regex__ = regex.compile(
-    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
+    r"""(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>'[^']*'|"[^"]*"|.*?)\s*,.*?\)""")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
 
 
-- 
2.43.0


From 8f37ea0f2c57db198a11921a476951048f6af4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:30 +0000
Subject: [PATCH 29/37] fix: a layer root is found from files directly in it

---
 oelint_parser/cls_stash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f4d422a..3ef4ebe 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -658,11 +658,11 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
+            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
+                return _curdir
             if _curdir == "/":
                 break
             _curdir = os.path.dirname(_curdir)
-            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                return _curdir
         return ""
 
     @functools.cache  # noqa: B019
@@ -680,14 +680,14 @@ class Stash():
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 if os.path.exists(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
+            if _curdir == "/":
+                break
+            _curdir = os.path.dirname(_curdir)
         return ""
 
     def _replace_with_known_mirrors(self, _in: dict) -> dict:
-- 
2.43.0


From d9953fae7bd2fa945a1ab1dfea31bba8e5c5c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 30/37] fix: include names may hold the characters +, @, ~, %,
 , and =

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index b813dd1..a9901e5 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}+@~%,=]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From 41d99adf6cf54d3637349e8a53a30c8afdd0f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:02 +0000
Subject: [PATCH 31/37] fix: python and fakeroot are markers of a function only
 as whole words

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index a9901e5..b5b4bc0 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -31,7 +31,7 @@ INLINE_BLOCK = "!!!inlineblock!!!"
 __regex_var = regex.compile(
     r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
-    r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
+    r"^((?P<py>python)(?=[\s(])\s*|(?P<fr>fakeroot(?=[\s(])\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-- 
2.43.0


From 14117458381be2806e705a3de36a4382317b0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 32/37] fix: task names may hold the words before and after

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index b5b4bc0..9bc39b5 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}+@~%,=]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before(?!\S)\s*(?P<before>(([^#\n]*(?=\safter\s))|([^#\n]*)))\s*)|(after(?!\S)\s*(?P<after>(([^#\n]*(?=\sbefore\s))|([^#\n]*)))\s*))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From 8a8c65cdc4e7687148b3e9406eee3e07f6e727c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:29 +0000
Subject: [PATCH 33/37] fix: the value of an export may hold a quoted
 assignment

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 9bc39b5..a54b82d 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*(\"|')(?P<value>.*)(\"|')")
+    r"^\s*?export(\s+|\t+)(?P<name>.+?)\s*=\s*(\"|')(?P<value>.*)(\"|')")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From c819417187b9dd51523d17a3c920c2296709622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:35 +0000
Subject: [PATCH 34/37] fix: the raw body of a function starts behind its name

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index ab9347b..a12e464 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -631,7 +631,7 @@ class Function(Item):
             self.OverrideDelimiter) if x]
         self.__FuncBody = body
         self.__FuncBodyRaw = textwrap.dedent(
-            self.Raw[self.Raw.find("{") + 1:].rstrip().rstrip("}"))
+            self.Raw[self.Raw.find("{", max(self.Raw.find("("), 0)) + 1:].rstrip().rstrip("}"))
 
     @property
     def IsPython(self) -> bool:
-- 
2.43.0


From 3efb17d1b494c7c4618c09da21a1eb572f731694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:54 +0000
Subject: [PATCH 35/37] fix: comments and assignments holding the head of a
 function do not start one

---
 oelint_parser/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index a54b82d..a16ae8f 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -61,6 +61,8 @@ __regex_addfragments = regex.compile(
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+__no_func_regexp__ = regex.compile(
+    r"^\s*(#|def\s|export\s|([A-Z0-9a-z_.-]|\$|\{|\}|:)+(\[[^\]]*\])?(\s|\t)*(\+|\?|\:|\.)*=)")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
 
@@ -118,7 +120,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
                 res += line
                 _, line = next(_iter, (0, ''))
             res += line
-        elif RegexRpl.match(__func_start_regexp__, res):
+        elif RegexRpl.match(__func_start_regexp__, res) and not RegexRpl.match(__no_func_regexp__, res):
             _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
-- 
2.43.0


From d9a193705b8bbac589febede84d1a1c93ef1923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:26 +0000
Subject: [PATCH 36/37] fix: paths and variables of addpylib and addfragments
 end at the first blank

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index a16ae8f..ced1099 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,11 +53,11 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/\S+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
     r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])*")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
+    r"addfragments\s+(?P<path>\S+)\s+(?P<variable>\S+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
-- 
2.43.0


From 10018aa220fae78c9d1cbb933b6114bedfbabc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:39 +0000
Subject: [PATCH 37/37] fix: paths starting with two slashes do not make the
 search for a layer endless

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 3ef4ebe..a6334cd 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -660,7 +660,7 @@ class Stash():
         while os.path.isdir(_curdir):
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 return _curdir
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
                 break
             _curdir = os.path.dirname(_curdir)
         return ""
@@ -685,7 +685,7 @@ class Stash():
                     return os.path.join(_curdir, name)
                 else:
                     break
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
                 break
             _curdir = os.path.dirname(_curdir)
         return ""
-- 
2.43.0

