From cc3bed475301b699e6d052440256f4b7a5a28fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:08 +0000
Subject: [PATCH 01/37] fix: slice operators on a list of lvalues ([a b c]H2)
 no longer ignore the slice

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index d1c0b2b..a6e8905 100644
--- a/execution.py
+++ b/execution.py
@@ -4346,7 +4346,11 @@ class Lval:
             # original
             self.sliceList = base.sliceList[:]
             if sliceValue is not None:
-                self.sliceList.append(sliceValue)
+                if isinstance(self.base, List):
+                    # Indexing or slicing a list of lvals selects from it
+                    self.base = self.base[sliceValue]
+                else:
+                    self.sliceList.append(sliceValue)
             self.evaluated = base.evaluated
         else:
             if isinstance(base, List):
-- 
2.43.0


From 4503349c16b4160cd292f16c10021326784c4139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 02/37] fix: variables no longer share mutable values with
 other variables, arguments or constants

---
 execution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index a6e8905..51f2da2 100644
--- a/execution.py
+++ b/execution.py
@@ -353,7 +353,9 @@ class ProgramState:
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
-            varTable[base] = rval
+            # Store a copy, since values are mutable (see below) and rval may
+            # also be an item of another value or a constant in the parse tree
+            varTable[base] = rval.copy()
             return
         elif base not in varTable:
             # If there is a slicelist, the variable must exist
@@ -388,7 +390,7 @@ class ProgramState:
             # Test for this case and warning message TODO?
             index = lval.sliceList[-1]
             try:
-                currentVal[index] = rval
+                currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
             #!print(f"After assign, variable {base!r} is", varTable[base])
@@ -616,7 +618,7 @@ class ProgramState:
             }
         self.vars["\\g"] = List(self.args)
         for name, arg in zip("abcde", self.args):
-            self.vars["\\" + name] = arg
+            self.vars["\\" + name] = arg.copy()
         if self.mainFunction is not None:
             self.vars["\\f"] = self.mainFunction
         else:
@@ -4388,7 +4390,7 @@ class LocalScope:
         self.vars = {}
         if self.argList is not None:
             for name, arg in zip("abcde", argList):
-                self.vars[name] = arg
+                self.vars[name] = arg.copy()
             self.vars["f"] = function
             self.vars["g"] = List(argList)
 
-- 
2.43.0


From 5503dc002e3a0bb667bed81ef4d6f99aac4c487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 03/37] fix: a fatal error inside a function no longer leaves
 the REPL in that function's scope

---
 execution.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/execution.py b/execution.py
index 51f2da2..ab38c83 100644
--- a/execution.py
+++ b/execution.py
@@ -405,18 +405,22 @@ class ProgramState:
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-        for statement in function.getStatements():
-            statementValue = self.executeStatement(statement)
-            # If the statement was actually an expression, store its
-            # value in the history variables ($_ etc.)
-            if statementValue is not None:
-                self.updateHistoryVars(statementValue)
-        returnExpr = function.getReturnExpr()
-        if returnExpr is not None:
-            returnVal = self.getRval(returnExpr)
-        else:
-            returnVal = nil
-        self.closeScope()
+        try:
+            for statement in function.getStatements():
+                statementValue = self.executeStatement(statement)
+                # If the statement was actually an expression, store its
+                # value in the history variables ($_ etc.)
+                if statementValue is not None:
+                    self.updateHistoryVars(statementValue)
+            returnExpr = function.getReturnExpr()
+            if returnExpr is not None:
+                returnVal = self.getRval(returnExpr)
+            else:
+                returnVal = nil
+        finally:
+            # Return to the caller's scope even if there was a fatal error,
+            # so that the REPL can continue from there
+            self.closeScope()
         return returnVal
 
     def openScope(self, function, argList):
-- 
2.43.0


From e979d9f97c16cd88fbc8fb20a46b789456f6729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 04/37] fix: Python errors during execution are reported as
 fatal errors instead of crashing the interpreter

---
 pip.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pip.py b/pip.py
index 80b5c11..963dcf7 100644
--- a/pip.py
+++ b/pip.py
@@ -295,9 +295,10 @@ def pip(code=None, argv=None, interactive=True):
             parsed_arg = arg_parse_tree[0]
             try:
                 program_args.append(state.evaluate(parsed_arg))
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
+            except Exception as err:
+                # Anything other than a FatalError is a Python error from
+                # something the operators don't guard against, such as
+                # exceeding Python's max recursion depth
                 print(f"Fatal error while evaluating argument {arg!r}:",
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
@@ -314,9 +315,10 @@ def pip(code=None, argv=None, interactive=True):
         print("Executing...")
     try:
         state.executeProgram(parse_tree, program_args)
-    except (FatalError, RuntimeError) as err:
-        # RuntimeError probably means we exceeded Python's max
-        # recursion depth
+    except Exception as err:
+        # Anything other than a FatalError is a Python error from something
+        # the operators don't guard against, such as an invalid regex or
+        # exceeding Python's max recursion depth
         print("Fatal error during execution:", err, file=sys.stderr)
         print("Program terminated.", file=sys.stderr)
         raise FatalError(str(err))
@@ -384,9 +386,10 @@ def repl(list_format=None, warnings=False):
                     if result is not None:
                         state.PRINT(state.REPR(result))
                         state.updateHistoryVars(result)
-            except (FatalError, RuntimeError) as err:
-                # RuntimeError probably means we exceeded Python's
-                # max recursion depth
+            except Exception as err:
+                # Anything other than a FatalError is a Python error from
+                # something the operators don't guard against, such as an
+                # invalid regex or exceeding Python's max recursion depth
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-- 
2.43.0


From 9088c9a206118b0725f5919921dae575a044db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 05/37] fix: -x passes the values of its arguments to the
 program, not lvalues

---
 pip.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pip.py b/pip.py
index 963dcf7..dfaea8c 100644
--- a/pip.py
+++ b/pip.py
@@ -7,7 +7,7 @@ import pprint
 import version
 from scanning import scan, addSpaces
 from parsing import parse
-from ptypes import Scalar
+from ptypes import Scalar, nil
 from execution import ProgramState
 from errors import FatalError, BadSyntax, IncompleteSyntax
 
@@ -292,9 +292,12 @@ def pip(code=None, argv=None, interactive=True):
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise
-            parsed_arg = arg_parse_tree[0]
             try:
-                program_args.append(state.evaluate(parsed_arg))
+                if arg_parse_tree:
+                    program_args.append(state.getRval(arg_parse_tree[0]))
+                else:
+                    # Nothing but whitespace and comments
+                    program_args.append(nil)
             except Exception as err:
                 # Anything other than a FatalError is a Python error from
                 # something the operators don't guard against, such as
-- 
2.43.0


From e07f1a9e27c5e03f973d2bf850d7e58205c8dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 06/37] fix: end of input at the REPL prompt exits the REPL
 cleanly

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index dfaea8c..09e8ddd 100644
--- a/pip.py
+++ b/pip.py
@@ -396,7 +396,7 @@ def repl(list_format=None, warnings=False):
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-    except KeyboardInterrupt:
+    except (KeyboardInterrupt, EOFError):
         pass
     print("Bye!")
 
-- 
2.43.0


From 9ecc36dd17cff9db70ba686df0aee83fe8c81471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 07/37] fix: code nested too deeply to parse is reported as a
 fatal error instead of crashing

---
 pip.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pip.py b/pip.py
index 09e8ddd..2827f3e 100644
--- a/pip.py
+++ b/pip.py
@@ -257,10 +257,10 @@ def pip(code=None, argv=None, interactive=True):
         print()
     try:
         parse_tree = parse(tokens)
-    except FatalError as err:
+    except (FatalError, RecursionError) as err:
         print("Fatal error while parsing:", err, file=sys.stderr)
         print("Execution aborted.", file=sys.stderr)
-        raise
+        raise FatalError(str(err))
     if options.verbose:
         pprint.pprint(parse_tree)
         print()
@@ -287,11 +287,11 @@ def pip(code=None, argv=None, interactive=True):
                 raise
             try:
                 arg_parse_tree = parse(arg_tokens)
-            except FatalError as err:
+            except (FatalError, RecursionError) as err:
                 print(f"Fatal error while parsing argument {arg!r}:",
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
-                raise
+                raise FatalError(str(err))
             try:
                 if arg_parse_tree:
                     program_args.append(state.getRval(arg_parse_tree[0]))
@@ -349,10 +349,11 @@ def repl(list_format=None, warnings=False):
                         # incomplete string/expression/command; read
                         # another line, add it to the code, and try again
                         code += input(".. ") + "\n"
-            except BadSyntax as err:
+            except (BadSyntax, RecursionError) as err:
                 # Error while scanning or parsing that cannot be
-                # resolved by adding more code to the end; give up
-                # on this code and start over
+                # resolved by adding more code to the end (or the
+                # code is nested too deeply to parse); give up on
+                # this code and start over
                 print("Syntax error:", err, file=sys.stderr)
                 continue
             # Some Pip comments are used as repl commands
-- 
2.43.0


From e33883d0f13d07580fae37282b3149a3966f5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 08/37] fix: undefined names in three warning messages

---
 execution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index ab38c83..f761fdd 100644
--- a/execution.py
+++ b/execution.py
@@ -378,7 +378,8 @@ class ProgramState:
                 try:
                     currentVal = currentVal[index]
                 except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                    self.err.warn(f"Invalid index into {currentVal!r}: "
+                                  f"{index}")
                     return
                 
             # Final level--do the assignment
@@ -2260,7 +2261,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
@@ -4314,7 +4315,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From 7a38aa57437cab073988d19154cdec372060ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:24 +0000
Subject: [PATCH 09/37] fix: assigning to an item of a Range inside a List
 converts the Range instead of dying

---
 execution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index f761fdd..014316d 100644
--- a/execution.py
+++ b/execution.py
@@ -376,11 +376,17 @@ class ProgramState:
             # and each index is a single number
             for index in lval.sliceList[:-1]:
                 try:
-                    currentVal = currentVal[index]
+                    item = currentVal[index]
                 except IndexError:
                     self.err.warn(f"Invalid index into {currentVal!r}: "
                                   f"{index}")
                     return
+                if isinstance(item, Range):
+                    # As above, a Range has to become a List
+                    item = List(item)
+                    if isinstance(currentVal, List) and isinstance(index, int):
+                        currentVal[index] = item
+                currentVal = item
                 
             # Final level--do the assignment
             # We can use item-mutation syntax directly because these
-- 
2.43.0


From 4935a258e3cc72ceab85632b3722c38f79a0f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 10/37] fix: source code of a function ending in '; or '  no
 longer loses that character

---
 parsing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parsing.py b/parsing.py
index ab910da..c8319d8 100644
--- a/parsing.py
+++ b/parsing.py
@@ -325,6 +325,7 @@ def parseOperand(tokenList):
 
 def unparse(tree, statementSep=""):
     "Convert parse tree back to string of code."
+    separator = "; " + statementSep
     code = ""
     for statement in tree:
         if isinstance(statement, list):
@@ -345,9 +346,10 @@ def unparse(tree, statementSep=""):
         else:
             # Not a parse tree, probably a literal or name
             code += unparseExpr(statement, statementSep)
-        code += "; "
-        code += statementSep
-    return code.strip("; " + statementSep)
+        code += separator
+    # Remove the last separator (but not any characters of the code itself,
+    # such as the semicolon in '; )
+    return code.removesuffix(separator)
 
 def unparseExpr(tree, statementSep):
     "Convert parse tree of expression back to string of code."
-- 
2.43.0


From 0a0d438165f1dd98ef37e8248266293986cb3293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 11/37] fix: source code of an LR loop separates its two
 expressions

---
 parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsing.py b/parsing.py
index c8319d8..0e66c3d 100644
--- a/parsing.py
+++ b/parsing.py
@@ -341,6 +341,9 @@ def unparse(tree, statementSep=""):
                         argtype = "CODE"
                     if argtype == "LOOPVAR" or argtype == "EXPR":
                         code += " " + unparseExpr(arg, statementSep)
+                        if argtype == statement[0].argtypes[i+1] == "EXPR":
+                            # Don't let two expressions run together
+                            code += ";"
                     elif argtype == "CODE":
                         code += " {" + unparse(arg, statementSep) + "}"
         else:
-- 
2.43.0


From 698ccca67b08648db21d89b96f1d235d6e232f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 12/37] fix: source code of a function parenthesizes embedded
 values that start with an operator

---
 parsing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsing.py b/parsing.py
index 0e66c3d..49a9df2 100644
--- a/parsing.py
+++ b/parsing.py
@@ -380,6 +380,11 @@ def unparseExpr(tree, statementSep):
                             and item[0] not in ["PAREN", "BLOCK",
                                                 "SEND", "LIST"]):
                         operand = "(" + operand + ")"
+                    elif (not isinstance(item, (list, tokens.Token))
+                            and operand[0] in "-,.A"):
+                        # The repr of a negative number or a Pattern with
+                        # flags starts with an operator
+                        operand = "(" + operand + ")"
                     operands.append(operand)
             if op == "CHAIN":
                 code = " ".join(operands)
-- 
2.43.0


From 88b544f89f222002e5d875508e751921b308a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 13/37] fix: folding or scanning functions with an operator
 builds valid functions

---
 execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/execution.py b/execution.py
index 014316d..7a82033 100644
--- a/execution.py
+++ b/execution.py
@@ -643,6 +643,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.fold = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
@@ -709,6 +710,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.scan = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
-- 
2.43.0


From e0b5ec75023fb270770a670a8fe96d99b60e5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 14/37] fix: functions that differ only in meta-operators are
 not equal

---
 operators.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/operators.py b/operators.py
index b739261..e43f83e 100644
--- a/operators.py
+++ b/operators.py
@@ -55,6 +55,19 @@ class Operator(tokens.Token):
             opString += ":"
         return opString
 
+    def __eq__(self, rhs):
+        if isinstance(rhs, Operator):
+            # Operators with different meta-operators are different
+            return (self._text == rhs._text
+                    and self.arity == rhs.arity
+                    and self.assign == rhs.assign
+                    and self.fold == rhs.fold
+                    and self.scan == rhs.scan
+                    and self.map == rhs.map)
+        return super().__eq__(rhs)
+
+    __hash__ = tokens.Token.__hash__
+
     def __repr__(self):
         return (f"Operator({self},{self.function},{self.arity},"
                 f"{self.precedence},{self.associativity})")
-- 
2.43.0


From 7586ebb8709dc5a13071683013fc44c6f9c43e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 15/37] fix: an escaped backslash before a letter in an escaped
 string is not an interpolation

---
 parsing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parsing.py b/parsing.py
index 49a9df2..0ada3fb 100644
--- a/parsing.py
+++ b/parsing.py
@@ -213,7 +213,15 @@ def parseOperand(tokenList):
         # Strip off \" delimiters
         rawText = token[2:-2]
         # Parse any interpolation sequences (for now, just names)
-        litOrInterpolation = re.split(r"\\([a-z_]|[A-Z]{1,2})", rawText)
+        # An escaped backslash (\\) doesn't start an interpolation
+        litOrInterpolation = []
+        start = 0
+        for match in re.finditer(r"\\(?:\\|([a-z_]|[A-Z]{1,2}))", rawText):
+            if match.group(1):
+                litOrInterpolation.append(rawText[start:match.start()])
+                litOrInterpolation.append(match.group(1))
+                start = match.end()
+        litOrInterpolation.append(rawText[start:])
         if len(litOrInterpolation) == 1:
             # No interpolations--return the token unchanged
             return token
-- 
2.43.0


From 36078332ef220334d579258eb6a19c99be82aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 16/37] fix: repr of a Pattern containing an escaped backtick
 is a valid Pattern literal

---
 ptypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ptypes.py b/ptypes.py
index cd42463..a1dbd66 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -274,7 +274,9 @@ class Pattern(PipType):
             flags += ","
         if self._flags & re.DOTALL:
             flags += "."
-        return flags + "`" + self._raw.replace("`", r"\`") + "`"
+        # Escape backticks that aren't already escaped
+        escaped = re.sub(r"(?<!\\)((?:\\\\)*)`", r"\1\\`", self._raw)
+        return flags + "`" + escaped + "`"
 
     def __bool__(self):
         """A Pattern is false iff it is empty."""
-- 
2.43.0


From a5f7ce65980e2807ddd8a0553099530e34f59245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 17/37] fix: inclusive range with an invalid upper bound
 returns nil

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 7a82033..2f936ab 100644
--- a/execution.py
+++ b/execution.py
@@ -1908,7 +1908,7 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
             elif rhs is nil:
-- 
2.43.0


From 1490aa965727473eb8fe4bfd83e5a619c12c44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 18/37] fix: stripping a Pattern with alternatives or flags
 strips only at the ends and respects the flags

---
 execution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index 2f936ab..d833728 100644
--- a/execution.py
+++ b/execution.py
@@ -2157,7 +2157,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})", extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3462,7 +3462,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3786,12 +3786,12 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})", extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
                     newString = beginning.sub("", oldString)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
-- 
2.43.0


From 39692ee39ab13b80dc78d471238bae916191eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 19/37] fix: splitting on a Pattern with an unmatched group
 gives nil for the group, not the string None

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index d833728..5b2e384 100644
--- a/execution.py
+++ b/execution.py
@@ -3637,8 +3637,8 @@ class ProgramState:
                     result = (Scalar(char) for char in str(string))
                 else:
                     sep = sep.asSeparator()
-                    result = (Scalar(substr)
-                              for substr in sep.split(str(string)))
+                    # A capture group that didn't match becomes nil
+                    result = map(ptypes.toPipType, sep.split(str(string)))
             else:
                 result = (Scalar(substr) for substr in str(string).split(sep))
             return List(result)
-- 
2.43.0


From 03aa07619aa2dc8d18fa22f2a07c6601ce0f7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 20/37] fix: HV and HU are exact for large integers

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 5b2e384..b604eef 100644
--- a/execution.py
+++ b/execution.py
@@ -1833,7 +1833,7 @@ class ProgramState:
     def HALVE(self, rhs):
         """Halve and round down."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.floor(rhs.toNumber() / 2))
+            return Scalar(math.floor(rhs.toNumber() // 2))
         else:
             self.err.warn("Unimplemented argtype for HALVE:",
                           type(rhs))
@@ -1842,7 +1842,7 @@ class ProgramState:
     def HALVEUP(self, rhs):
         """Halve and round up."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.ceil(rhs.toNumber() / 2))
+            return Scalar(-math.floor(-rhs.toNumber() // 2))
         else:
             self.err.warn("Unimplemented argtype for HALVEUP:",
                           type(rhs))
-- 
2.43.0


From af2b5b3c501efa19d1ee8693e6f945323c12517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 21/37] fix: rounding to a multiple is exact for large integers

---
 execution.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/execution.py b/execution.py
index b604eef..618dbbc 100644
--- a/execution.py
+++ b/execution.py
@@ -1066,6 +1066,9 @@ class ProgramState:
                 return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Don't use floats, which lose precision for large numbers
+                    return Scalar(-(-lhs // precision) * precision)
                 return Scalar(math.ceil(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -1715,6 +1718,9 @@ class ProgramState:
                 return Scalar(math.floor(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Don't use floats, which lose precision for large numbers
+                    return Scalar(lhs // precision * precision)
                 return Scalar(math.floor(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -3401,6 +3407,14 @@ class ProgramState:
                     return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Don't use floats, which lose precision for large numbers
+                    quotient, remainder = divmod(lhs, precision)
+                    if (remainder * 2 > precision
+                            or remainder * 2 == precision and quotient % 2):
+                        # Round up (ties go to the even multiple)
+                        quotient += 1
+                    return Scalar(quotient * precision)
                 return Scalar(lhs - math.remainder(lhs, precision))
         else:
             if rhs is None:
@@ -3427,6 +3441,11 @@ class ProgramState:
                 return Scalar(math.trunc(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Don't use floats, which lose precision for large numbers
+                    remainder = abs(lhs) % precision
+                    return Scalar(lhs - remainder if lhs > 0
+                                  else lhs + remainder)
                 return Scalar(math.trunc(lhs / precision) * precision)
         else:
             if rhs is None:
-- 
2.43.0


From 25f06a3f08e7b93e92fb8e3cce0486f682acdc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:02 +0000
Subject: [PATCH 22/37] fix: adding to and subtracting from a Range handles
 infinite Ranges and non-integers

---
 execution.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/execution.py b/execution.py
index 618dbbc..8c5ddb0 100644
--- a/execution.py
+++ b/execution.py
@@ -795,6 +795,8 @@ class ProgramState:
                 lower += int(lhs)
                 if upper is not None:
                     upper += int(lhs)
+                else:
+                    upper = nil
                 return Range(lower, upper)
             else:
                 return List(self.ADD(lhs, item) for item in rhs)
@@ -3889,12 +3891,17 @@ class ProgramState:
             result = lhs.toNumber() - rhs.toNumber()
             return Scalar(result)
         elif isinstance(lhs, Range) and isinstance(rhs, Scalar):
-            lower = lhs.getLower() or 0
-            upper = lhs.getUpper()
-            lower -= int(rhs)
-            if upper is not None:
-                upper -= int(rhs)
-            return Range(lower, upper)
+            if rhs.toNumber() == int(rhs):
+                lower = lhs.getLower() or 0
+                upper = lhs.getUpper()
+                lower -= int(rhs)
+                if upper is not None:
+                    upper -= int(rhs)
+                else:
+                    upper = nil
+                return Range(lower, upper)
+            else:
+                return List(self.SUB(item, rhs) for item in lhs)
         elif isinstance(lhs, Scalar) and isinstance(rhs, Range):
             return List(self.SUB(lhs, item) for item in rhs)
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-- 
2.43.0


From 4578e194b4c5ad5a36adad553b78a65a8719775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 23/37] fix: RA can replace items of a Range

---
 execution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/execution.py b/execution.py
index 8c5ddb0..c4723d6 100644
--- a/execution.py
+++ b/execution.py
@@ -3288,6 +3288,9 @@ class ProgramState:
                     index = int(index)
                 elif isinstance(index, Range):
                     index = index.toSlice()
+                if isinstance(result, Range):
+                    # Can't modify a Range
+                    result = List(result)
                 result[index] = new
                 return result
         elif index is nil:
-- 
2.43.0


From 4ca06747f213a3a31096858e523786507030a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 24/37] fix: unary WV of an invalid type returns nil

---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index c4723d6..7cfebcd 100644
--- a/execution.py
+++ b/execution.py
@@ -4252,6 +4252,10 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                self.err.warn("Unimplemented argtype for WEAVE:",
+                              type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
-- 
2.43.0


From fca82a2811994f84fb5d3a76c3a7338827923b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 25/37] fix: Ranges that start at 0 explicitly and implicitly
 are equal

---
 ptypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index a1dbd66..43052bc 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -542,11 +542,13 @@ class Range(PipIterable):
         return not self.isEmpty()
 
     def __eq__(self, rhs):
+        # A lower value of None is the same as 0
         return (type(self) is type(rhs)
-                and self._lower == rhs._lower
+                and (self._lower or 0) == (rhs._lower or 0)
                 and self._upper == rhs._upper)
 
-    __hash__ = PipIterable.__hash__
+    def __hash__(self):
+        return hash((self._lower or 0, self._upper))
 
     def __len__(self):
         lower = self._lower or 0
-- 
2.43.0


From a5eec3154e38a101070ff529d25e6b5b33dcf164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 26/37] fix: NI is the opposite of N for haystacks that are not
 iterable

---
 execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 7cfebcd..822f436 100644
--- a/execution.py
+++ b/execution.py
@@ -2480,8 +2480,11 @@ class ProgramState:
         elif isinstance(needle, Pattern) and isinstance(haystack, Scalar):
             matchExists = needle.asRegex().search(str(haystack))
             return Scalar(not matchExists)
-        else:
+        elif isinstance(haystack, PipIterable):
             return Scalar(needle not in haystack)
+        else:
+            # If it's not one of those types, it's automatically true
+            return SCALAR_ONE
 
     def NUMCMP(self, lhs, rhs):
         # Equivalent to Python2's cmp() function: return -1 if lhs < rhs,
-- 
2.43.0


From 2d4784378777f01f64bd6044df33a5767f3cdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:36 +0000
Subject: [PATCH 27/37] fix: NE is the opposite of Q for Patterns

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 822f436..89c3b82 100644
--- a/execution.py
+++ b/execution.py
@@ -3882,7 +3882,8 @@ class ProgramState:
             return nil
 
     def STRNOTEQUAL(self, lhs, rhs):
-        if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
+        if (isinstance(lhs, (Scalar, Pattern))
+                and isinstance(rhs, (Scalar, Pattern))):
             result = str(lhs) != str(rhs)
         elif isinstance(lhs, List) and isinstance(rhs, List):
             result = (len(lhs) != len(rhs)
-- 
2.43.0


From cc750a7dd949b634c379433d93aba379123b2044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 28/37] fix: trimming more characters than the string has gives
 the empty string

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 89c3b82..37a3c4e 100644
--- a/execution.py
+++ b/execution.py
@@ -4140,7 +4140,7 @@ class ProgramState:
             front = max(front, 0)
             back = max(back, 0)
             string = str(string)
-            return Scalar(string[front:len(string)-back])
+            return Scalar(string[front:max(len(string)-back, 0)])
         else:
             self.err.warn("Unimplemented argtype for lhs of TRIM:",
                           type(string))
-- 
2.43.0


From 1646354f478623591c5e7f2270bbf7b81324f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 29/37] fix: Lists containing equal Ranges have equal hashes

---
 ptypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ptypes.py b/ptypes.py
index 43052bc..ce51360 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -384,7 +384,8 @@ class List(PipIterable):
     def __eq__(self, rhs):
         return type(rhs) == type(self) and self._value == rhs._value
 
-    __hash__ = PipIterable.__hash__
+    def __hash__(self):
+        return hash(tuple(self._value))
 
     def __len__(self):
         return len(self._value)
-- 
2.43.0


From 6aac634fbaf95bb3ec87e2c1a7da65a095622c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 30/37] fix: CB with an extremely large size gives an empty
 List

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 37a3c4e..3436500 100644
--- a/execution.py
+++ b/execution.py
@@ -1151,7 +1151,11 @@ class ProgramState:
     def COMBINATIONS(self, iterable, num):
         """Return List of all ways to choose num items from iterable."""
         if isinstance(iterable, PipIterable) and isinstance(num, Scalar):
-            result = itertools.combinations(iterable, int(num))
+            items = list(iterable)
+            # Python can't handle a size that's extremely large, but all sizes
+            # greater than the number of items give the same (empty) result
+            result = itertools.combinations(items, min(int(num),
+                                                       len(items) + 1))
             if isinstance(iterable, Scalar):
                 return List(self.JOIN(comb) for comb in result)
             else:
-- 
2.43.0


From 78ca93d61c8cd529c9bf385d099f56604e865370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 31/37] fix: a negative number to a large fractional power is
 nil instead of an error

---
 execution.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/execution.py b/execution.py
index 3436500..8343030 100644
--- a/execution.py
+++ b/execution.py
@@ -2960,17 +2960,17 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             lhs = lhs.toNumber()
             rhs = rhs.toNumber()
-            try:
-                result = lhs ** rhs
-            except ZeroDivisionError:
-                self.err.warn("Can't raise zero to negative power")
-                return nil
             if lhs < 0 and int(rhs) != rhs:
                 # Negative number to fractional power would be a complex
                 # number; for now, return nil
                 self.err.warn("Can't raise negative number to "
                               "fractional power")
                 return nil
+            try:
+                result = lhs ** rhs
+            except ZeroDivisionError:
+                self.err.warn("Can't raise zero to negative power")
+                return nil
             return Scalar(result)
         else:
             self.err.warn("Unimplemented argtypes for POW:",
-- 
2.43.0


From 62c2818c480a46d56d804186c8473a6a50bedd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 32/37] fix: a Pattern literal can contain an escaped newline

---
 scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanning.py b/scanning.py
index 881ff16..c288ad4 100644
--- a/scanning.py
+++ b/scanning.py
@@ -14,7 +14,7 @@ nameRgx = re.compile(r"[A-Z]+"
                      r"|\$_{1,3}"
                      r"|\\[a-g]")
 stringRgx = re.compile(r'"[^"]*"')
-patternRgx = re.compile(r'`([^`\\]|\\.)*`')
+patternRgx = re.compile(r'`([^`\\]|\\.|\\\n)*`')
 charRgx = re.compile(r"'(.|\n)")
 escStringRgx = re.compile(r'\\"(\\[^"]|[^\\])*\\"')
 numberRgx = re.compile(r'\d+(\.\d+)?')
-- 
2.43.0


From abe7e3c2314ef65cf0dec92d53dbe2ab50dbc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 33/37] fix: assigning to a slice of an empty slice no longer
 changes the original

---
 ptypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index ce51360..ae32528 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -119,8 +119,8 @@ class Scalar(PipIterable):
                 return Scalar(self._value[index])
         elif isinstance(index, slice):
             if self._value == "":
-                # Slicing the empty string gives empty string
-                return self
+                # Slicing the empty string gives (a copy of the) empty string
+                return Scalar("")
             length = len(self._value)
             repString = self._value
             start = index.start if index.start is not None else 0
@@ -413,8 +413,8 @@ class List(PipIterable):
                 return self._value[index]
         elif isinstance(index, slice):
             if self._value == []:
-                # Slicing the empty list gives empty list
-                return self
+                # Slicing the empty list gives (a copy of the) empty list
+                return List([])
             length = len(self._value)
             repList = self._value[:]  # Shallow copy so as not to change _value
             start = index.start if index.start is not None else 0
-- 
2.43.0


From f650f259262ce7aa7ad23a88b521884a7a0883e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:18 +0000
Subject: [PATCH 34/37] fix: the source of an assignment with the : operator
 keeps its meaning

---
 operators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operators.py b/operators.py
index e43f83e..bbea90d 100644
--- a/operators.py
+++ b/operators.py
@@ -52,7 +52,12 @@ class Operator(tokens.Token):
             else:
                 opString += "*"
         if self.assign:
-            opString += ":"
+            if opString.endswith(":"):
+                # Add a space to the assign version of : to prevent
+                # ambiguity with the :: operator
+                opString += " :"
+            else:
+                opString += ":"
         return opString
 
     def __eq__(self, rhs):
-- 
2.43.0


From 31c94e82755b29bb3c5c2af2332d358fe859e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:36 +0000
Subject: [PATCH 35/37] fix: the notation of a Scalar like -007 gives the same
 Scalar back

---
 ptypes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ptypes.py b/ptypes.py
index ae32528..b4d6b30 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -55,7 +55,7 @@ class Scalar(PipIterable):
 
     def __repr__(self):
         m = pipFloatRgx.match(self._value) or intRgx.match(self._value)
-        if m and m.end() == len(self._value):
+        if m and m.end() == len(self._value) and self._negatesToItself():
             # Scalars that match the format of Pip numeric literals
             # can be displayed without quotes
             return self._value
@@ -69,6 +69,19 @@ class Scalar(PipIterable):
                 # Use normal string format
                 return f'"{self._value}"'
 
+    def _negatesToItself(self):
+        """Does the numeric literal for this Scalar give this Scalar back?
+
+        A leading minus sign is not part of a numeric literal but an
+        operator, the result of which may be a different Scalar: -007
+        """
+        try:
+            return (not self._value.startswith("-")
+                    or str(Scalar(self.toNumber())) == self._value)
+        except ValueError:
+            # Too many digits for Python to convert
+            return False
+
     def __int__(self):
         if m := intRgx.match(self._value.lstrip()):
             return int(m.group())
-- 
2.43.0


From 28e043aed8a54a452a5bf4e0ae9f8d59910aa893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 36/37] fix: assigning to an item of a nil, Pattern or other
 non-subscriptable item is a warning

---
 execution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/execution.py b/execution.py
index 8343030..09d97fb 100644
--- a/execution.py
+++ b/execution.py
@@ -381,6 +381,9 @@ class ProgramState:
                     self.err.warn(f"Invalid index into {currentVal!r}: "
                                   f"{index}")
                     return
+                except TypeError:
+                    self.err.warn("Cannot index into", type(currentVal))
+                    return
                 if isinstance(item, Range):
                     # As above, a Range has to become a List
                     item = List(item)
@@ -400,6 +403,10 @@ class ProgramState:
                 currentVal[index] = rval.copy()
             except (IndexError, ZeroDivisionError):
                 self.err.warn(f"Invalid index into {currentVal!r}:", index)
+            except TypeError:
+                # Not a subscriptable type, or not assignable to a slice
+                self.err.warn(f"Cannot assign {type(rval)} at index/slice of",
+                              type(currentVal))
             #!print(f"After assign, variable {base!r} is", varTable[base])
         else:
             # Not a subscriptable type
-- 
2.43.0


From 5c3e6eaa431c8fce0e915b4a7906323d7258f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:21 +0000
Subject: [PATCH 37/37] fix: CH gives exactly the number of slices asked for

---
 execution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 09d97fb..f206da3 100644
--- a/execution.py
+++ b/execution.py
@@ -1,4 +1,5 @@
 
+from fractions import Fraction
 import itertools
 import math
 import random
@@ -1119,7 +1120,9 @@ class ProgramState:
             chunks = rhs.toNumber()
             if chunks > 0:
                 index = 0
-                jump = len(iterable) / chunks
+                # Use exact fractions: adding up floats drifts, which could
+                # give an extra slice or misplace a boundary
+                jump = Fraction(len(iterable)) / Fraction(chunks)
                 while index < len(iterable):
                     endIndex = min(index + jump, len(iterable))
                     chunk = iterable[math.floor(index):math.floor(endIndex)]
@@ -1129,7 +1132,7 @@ class ProgramState:
             elif chunks < 0:
                 # With a negative chunk number, chop from right to left
                 index = len(iterable)
-                jump = len(iterable) / chunks
+                jump = Fraction(len(iterable)) / Fraction(chunks)
                 while index > 0:
                     startIndex = max(index + jump, 0)
                     chunk = iterable[math.ceil(startIndex):math.ceil(index)]
-- 
2.43.0

