From 3d586eeb9888efa6cec738ff77ffae46cba48998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 01/52] fix: call on_finish instead of on_model when a lua
 solve call finishes

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6d2269b..20fd653 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -1820,7 +1820,7 @@ struct SolveHandle : Object<SolveHandle> {
         return 1;
     }
     static int on_finish_(lua_State *L) {
-        lua_pushstring(L, "on_model");
+        lua_pushstring(L, "on_finish");
         lua_rawget(L, 1);
         auto x = static_cast<clingo_solve_mode_bitset_t *>(lua_touserdata(L, 2));
         SolveResult::new_(L, *x);
-- 
2.43.0


From a70f79cad955c6f42fb6ddbea9024420495164e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 02/52] fix: do not drop unsatisfiable assumptions in the lua
 solve call

---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 20fd653..c53b710 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3441,6 +3441,9 @@ struct ControlWrap : Object<ControlWrap> {
                 if (auto *lits = luaToLits(L, -1, atoms, false, false)) { // +1/+0
                     handle->ass->swap(*lits);
                     lua_pop(L, 1); // -1
+                } else {
+                    // one of the assumptions is false
+                    PROTECT(handle->ass->assign({1, -1}));
                 }
             }
             lua_pop(L, 1); // -1
-- 
2.43.0


From 94bf5d3e305b1ed24bbe9a556b932f1670426590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 03/52] fix: respect the freeze argument of
 PropagateInit:add_literal in lua

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index c53b710..92ef176 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2538,7 +2538,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int addLiteral(lua_State *L) {
         auto &self = get_self(L);
-        bool freeze = lua_isnoneornil(L, 1) || lua_toboolean(L, 1);
+        bool freeze = lua_isnoneornil(L, 2) || lua_toboolean(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_add_literal, self.init, freeze));
         return 1;
     }
-- 
2.43.0


From 187e862485e0bbddfb79b7e0f277c8a0b0e9b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 04/52] fix: report an error if lua values cannot be converted
 to strings

---
 libluaclingo/luaclingo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 92ef176..e337a2b 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -369,6 +369,9 @@ void luaToCpp(lua_State *L, int index, bool &x) { x = lua_toboolean(L, index) !=
 
 void luaToCpp(lua_State *L, int index, std::string &x) {
     char const *str = lua_tostring(L, index);
+    if (!str) {
+        luaL_error(L, "string expected");
+    }
     PROTECT(x = str);
 }
 
-- 
2.43.0


From 14ef648723d850d969e2867f3a5fed1fcdecb158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 05/52] fix: do not use error messages as format strings in lua

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index e337a2b..b8cdbcd 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -43,7 +43,7 @@ template <typename T> auto protect(lua_State *L, T f) -> decltype(f()) {
     try {
         return f();
     } catch (std::exception const &e) {
-        luaL_error(L, e.what());
+        luaL_error(L, "%s", e.what());
     } catch (...) {
         luaL_error(L, "unknown error");
     }
@@ -58,7 +58,7 @@ void handle_c_error(lua_State *L, bool ret) {
         if (!msg) {
             msg = "no message";
         }
-        luaL_error(L, msg);
+        luaL_error(L, "%s", msg);
     }
 }
 
-- 
2.43.0


From 14cae7f4f8e2afd2713072e8147ccac312ea4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 06/52] fix: call the existing C function to set strings in
 StrSequence

---
 libpyclingo/clingo/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index bd02538..9e4d0c0 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -851,7 +851,7 @@ class StrSequence(abc.MutableSequence):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
         _handle_error(
-            _lib.clingo_str_attribute_set_string_at(
+            _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
             )
         )
-- 
2.43.0


From d586d0f013dd61902dc9ad4604a3ff353a4aec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 07/52] fix: check and normalize indices when modifying ast
 sequences

---
 libpyclingo/clingo/ast.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 9e4d0c0..5223024 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -757,6 +757,11 @@ class ASTSequence(abc.MutableSequence):
     def __setitem__(self, index, ast):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_ast_at(
                 self._rep, self._attribute, index, ast._rep
@@ -776,6 +781,10 @@ class ASTSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_ast_at(
                 self._rep, self._attribute, index, value._rep
@@ -850,6 +859,11 @@ class StrSequence(abc.MutableSequence):
     def __setitem__(self, index, value):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
@@ -871,6 +885,10 @@ class StrSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_string_at(
                 self._rep, self._attribute, index, value.encode()
-- 
2.43.0


From 5e393c4cdb8bd2906355cde21d61837cccac9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 08/52] fix: do not ignore grounding contexts that evaluate to
 false

---
 libpyclingo/clingo/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 4cc7ef7..00c0371 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -548,8 +548,8 @@ class Control:
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
         data = _CBData(context, self._error)
-        c_data = _ffi.new_handle(data) if context else _ffi.NULL
-        c_cb = _lib.pyclingo_ground_callback if context else _ffi.NULL
+        c_data = _ffi.new_handle(data) if context is not None else _ffi.NULL
+        c_cb = _lib.pyclingo_ground_callback if context is not None else _ffi.NULL
 
         c_mem = []
         c_parts = _ffi.new("clingo_part_t[]", len(parts))
-- 
2.43.0


From 0702a33dda5ef41242c822cec810e13836629726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 09/52] fix: re-raise the original exception of a callback

---
 libpyclingo/clingo/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 40ddfd8..244fe03 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -74,7 +74,7 @@ def _handle_error(ret: bool, handler=None):
             and handler is not None
             and handler.error is not None
         ):
-            raise handler.error[0](handler.error[1]).with_traceback(handler.error[2])
+            raise handler.error[1].with_traceback(handler.error[2])
         msg = _ffi.string(_lib.clingo_error_message()).decode()
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
-- 
2.43.0


From 7e39b5ff2ab08b0265581c4f4f180127ca40b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 10/52] fix: do not overwrite elements when inserting into
 slices of ast sequences

---
 libpyclingo/clingo/util.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/util.py b/libpyclingo/clingo/util.py
index 54054e8..3f7b0d5 100644
--- a/libpyclingo/clingo/util.py
+++ b/libpyclingo/clingo/util.py
@@ -92,4 +92,14 @@ class SlicedMutableSequence(SlicedSequence, abc.MutableSequence):
         del self._mut_seq[self._rng[index]]
 
     def insert(self, index, value):
-        self._mut_seq[self._rng[index]] = value
+        rng = self._rng
+        size = len(rng)
+        if index < 0:
+            index = max(index + size, 0)
+        if index < size:
+            pos = rng[index]
+        elif size > 0:
+            pos = rng[-1] + 1
+        else:
+            pos = rng.start
+        self._mut_seq.insert(pos, value)
-- 
2.43.0


From 69bc4714bb7bb5931e232f2c88dd6aec84b03d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 11/52] fix: keep the first error raised by callbacks

---
 libpyclingo/clingo/_internal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 244fe03..077f8e8 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -137,7 +137,8 @@ class _Error:
         This function is thread-safe.
         """
         # pylint: disable=protected-access
-        self._error = value
+        if self._error is None:
+            self._error = value
 
 
 class _CBData:
-- 
2.43.0


From bb9e17c83e90adae6fd17777b4bb94941473a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 12/52] fix: accept octal numbers with zero digits

---
 libgringo/src/input/groundtermlexer.xh | 2 +-
 libgringo/src/input/nongroundlexer.xch | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/input/groundtermlexer.xh b/libgringo/src/input/groundtermlexer.xh
index 41e37f3..2a5fb63 100644
--- a/libgringo/src/input/groundtermlexer.xh
+++ b/libgringo/src/input/groundtermlexer.xh
@@ -32,7 +32,7 @@
 /*!re2c
     DEC        = "0"|([1-9][0-9]*);
     HEX        = "0x"([0-9A-Fa-f]+);
-    OCT        = "0o"([1-7]+);
+    OCT        = "0o"([0-7]+);
     BIN        = "0b"([0-1]+);
     NUMBER     = DEC | HEX | OCT | BIN;
     ANY        = [\000-\377];
diff --git a/libgringo/src/input/nongroundlexer.xch b/libgringo/src/input/nongroundlexer.xch
index af5ae76..96bdc3c 100644
--- a/libgringo/src/input/nongroundlexer.xch
+++ b/libgringo/src/input/nongroundlexer.xch
@@ -37,7 +37,7 @@
 
     DEC        = "0"|([1-9][0-9]*);
     HEX        = "0x"([0-9A-Fa-f]+);
-    OCT        = "0o"([1-7]+);
+    OCT        = "0o"([0-7]+);
     BIN        = "0b"([0-1]+);
     NUMBER     = DEC | HEX | OCT | BIN;
     ANY        = [\000-\377];
-- 
2.43.0


From 5f0d153a842d2416f136c250175c9629cea1a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 13/52] fix: treat unknown atoms in assumptions as false

---
 libpyclingo/clingo/control.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 00c0371..b8c1509 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -1042,18 +1042,22 @@ class Control:
         self._handler = _ffi.new_handle(data)
 
         p_ass = _ffi.NULL
+        lits = []
         if assumptions:
             atoms = None
-            p_ass = _ffi.new("clingo_literal_t[]", len(assumptions))
-            for i, lit in enumerate(assumptions):
+            for lit in assumptions:
                 if isinstance(lit, int):
-                    p_ass[i] = lit
+                    lits.append(lit)
                 else:
                     if atoms is None:
                         atoms = self.symbolic_atoms
-                    atom = self.symbolic_atoms[lit[0]]
-                    slit = -1 if atom is None else atom.literal
-                    p_ass[i] = slit if lit[1] else -slit
+                    atom = atoms[lit[0]]
+                    if atom is not None:
+                        lits.append(atom.literal if lit[1] else -atom.literal)
+                    elif lit[1]:
+                        # atoms not in the program are false
+                        lits.extend((1, -1))
+            p_ass = _ffi.new("clingo_literal_t[]", lits)
 
         mode = 0
         if yield_:
@@ -1068,7 +1072,7 @@ class Control:
                 self._rep,
                 mode,
                 p_ass,
-                len(assumptions),
+                len(lits),
                 _lib.pyclingo_solve_event_callback,
                 self._handler,
                 handler=data,
-- 
2.43.0


From 5d28e248f12dd29ff583a8c1e4c2449f90293dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:43 +0000
Subject: [PATCH 14/52] fix: treat unknown atoms in clauses added during
 solving as false

---
 libpyclingo/clingo/solving.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/libpyclingo/clingo/solving.py b/libpyclingo/clingo/solving.py
index 963f118..6ce04d8 100644
--- a/libpyclingo/clingo/solving.py
+++ b/libpyclingo/clingo/solving.py
@@ -172,20 +172,21 @@ class SolveControl:
         when using a `SolveHandle`.
         """
         atoms = self.symbolic_atoms
-        p_lits = _ffi.new("clingo_literal_t[]", len(literals))
-        for i, lit in enumerate(literals):
+        lits = []
+        for lit in literals:
             if isinstance(lit, int):
-                p_lits[i] = lit
+                lits.append(lit)
             else:
                 atom = atoms[lit[0]]
                 if atom is not None:
-                    slit = atom.literal
-                else:
-                    slit = -1
-                p_lits[i] = slit if lit[1] else -slit
+                    lits.append(atom.literal if lit[1] else -atom.literal)
+                elif not lit[1]:
+                    # atoms not in the program are false and the clause satisfied
+                    return
+        p_lits = _ffi.new("clingo_literal_t[]", lits)
 
         _handle_error(
-            _lib.clingo_solve_control_add_clause(self._rep, p_lits, len(literals))
+            _lib.clingo_solve_control_add_clause(self._rep, p_lits, len(lits))
         )
 
     def _invert(
-- 
2.43.0


From d00b20005ad66e42d640e1b96eb689cc42d300ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 15/52] fix: pass the syntax tree and not the address of its
 wrapper when constructing nodes

---
 libclingo/clingo.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1dd6e70..1a1cab6 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3572,7 +3572,8 @@ template <size_t j> struct construct_ast {
         if (cons.size <= i || cons.arguments[i].type != clingo_ast_attribute_type_optional_ast) { // NOLINT
             throw std::runtime_error("invalid argument");
         }
-        return construct_ast<j - 1>::template construct<i + 1>(type, cons, std::forward<Args>(args)..., arg.get());
+        return construct_ast<j - 1>::template construct<i + 1>(
+            type, cons, std::forward<Args>(args)..., arg ? arg.get()->to_c() : static_cast<clingo_ast_t *>(nullptr));
     }
     template <size_t i, class... Args>
     static clingo_ast_t *construct(clingo_ast_type_t type, clingo_ast_constructor_t const &cons,
-- 
2.43.0


From 4e32805aa6164356e88c1617b215ee0687e6ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 16/52] fix: report errors when constructing syntax tree nodes

---
 libclingo/clingo.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 1a1cab6..e8048aa 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3602,7 +3602,7 @@ template <> struct construct_ast<0> {
             throw std::runtime_error("invalid argument");
         }
         clingo_ast_t *ret = nullptr;
-        clingo_ast_build(type, &ret, std::forward<Args>(args)...);
+        Detail::handle_error(clingo_ast_build(type, &ret, std::forward<Args>(args)...));
         return ret;
     }
 };
-- 
2.43.0


From 39b385b1f638f5ebf1c4a87f29e37d1849a498b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 17/52] fix: assign sequences from other attributes of the same
 syntax tree

---
 libclingo/clingo.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index e8048aa..8f16d5a 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2202,6 +2202,7 @@ class NodeVector {
     Node const &ast() const;
 
   private:
+    friend class Node;
     Node ast_;
     clingo_ast_attribute_t attr_;
 };
@@ -2247,6 +2248,7 @@ class StringVector {
     Node const &ast() const;
 
   private:
+    friend class Node;
     Node ast_;
     clingo_ast_attribute_t attr_;
 };
@@ -3783,7 +3785,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<StringVector>();
             auto &b = value.get<StringVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attr_ != b.attr_) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
@@ -3795,7 +3797,7 @@ inline void Node::set(Attribute attribute, NodeValue value) {
             auto val = get(attribute);
             auto &a = val.get<NodeVector>();
             auto &b = value.get<NodeVector>();
-            if (a.ast().to_c() != b.ast().to_c()) {
+            if (a.ast().to_c() != b.ast().to_c() || a.attr_ != b.attr_) {
                 a.clear();
                 for (auto x : b) {
                     a.push_back(x);
-- 
2.43.0


From 9b43fd9bf103a46ce84d0ee1021ef6f2a0d6371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 18/52] fix: pass control objects on when parsing syntax trees

---
 libclingo/clingo.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 8f16d5a..d9347e6 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4129,7 +4129,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
@@ -4153,7 +4153,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_TRY { d.first(Node{ast}); }
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
-                             &data, nullptr,
+                             &data, control,
                              [](clingo_warning_t code, char const *msg, void *data) {
                                  try {
                                      (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-- 
2.43.0


From 0b7febe1de6ba282d04a3ce43761de28d8ce9cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:03 +0000
Subject: [PATCH 19/52] fix: keep the value when assigning an optional to
 itself

---
 libclingo/clingo.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index d9347e6..216b6d2 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -191,7 +191,6 @@ template <class T> class Optional {
         return *this;
     }
     Optional &operator=(Optional const &opt) {
-        clear();
         data_.reset(opt ? new T(*opt) : nullptr);
         return *this;
     }
-- 
2.43.0


From df9e886d726fb42c54f3402f1668dc3f223a462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 20/52] fix: report messages on stderr if no logger is given

---
 libclingo/clingo.hh | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 216b6d2..a9e354a 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4120,6 +4120,12 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                          unsigned message_limit) {
     using Data = std::pair<Callback, std::exception_ptr>;
     auto data = Data(std::forward<Callback>(cb), nullptr);
+    clingo_logger_t c_logger = [](clingo_warning_t code, char const *msg, void *data) {
+        try {
+            (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
+        } catch (...) {
+        } // NOLINT
+    };
     Detail::handle_error(clingo_ast_parse_string(
                              program,
                              [](clingo_ast_t *ast, void *data) -> bool {
@@ -4129,13 +4135,7 @@ inline void parse_string(char const *program, Callback &&cb, clingo_control_t *c
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
                              &data, control,
-                             [](clingo_warning_t code, char const *msg, void *data) {
-                                 try {
-                                     (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-                                 } catch (...) {
-                                 } // NOLINT
-                             },
-                             &logger, message_limit),
+                             logger ? c_logger : nullptr, logger ? &logger : nullptr, message_limit),
                          data.second);
 }
 
@@ -4144,6 +4144,12 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                         unsigned message_limit) {
     using Data = std::pair<Callback, std::exception_ptr>;
     auto data = Data(std::forward<Callback>(cb), nullptr);
+    clingo_logger_t c_logger = [](clingo_warning_t code, char const *msg, void *data) {
+        try {
+            (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
+        } catch (...) {
+        } // NOLINT
+    };
     Detail::handle_error(clingo_ast_parse_files(
                              files.begin(), files.size(),
                              [](clingo_ast_t *ast, void *data) -> bool {
@@ -4153,13 +4159,7 @@ inline void parse_files(StringSpan files, Callback &&cb, clingo_control_t *contr
                                  CLINGO_CALLBACK_CATCH(d.second);
                              },
                              &data, control,
-                             [](clingo_warning_t code, char const *msg, void *data) {
-                                 try {
-                                     (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-                                 } catch (...) {
-                                 } // NOLINT
-                             },
-                             &logger, message_limit),
+                             logger ? c_logger : nullptr, logger ? &logger : nullptr, message_limit),
                          data.second);
 }
 
@@ -4782,15 +4782,14 @@ inline static bool g_validate_options(void *adata) {
 
 inline Symbol parse_term(char const *str, Logger logger, unsigned message_limit) {
     clingo_symbol_t ret = 0;
-    Detail::handle_error(clingo_parse_term(
-        str,
-        [](clingo_warning_t code, char const *msg, void *data) {
-            try {
-                (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
-            } catch (...) {
-            } // NOLINT(bugprone-empty-catch)
-        },
-        &logger, message_limit, &ret));
+    clingo_logger_t c_logger = [](clingo_warning_t code, char const *msg, void *data) {
+        try {
+            (*static_cast<Logger *>(data))(static_cast<WarningCode>(code), msg);
+        } catch (...) {
+        } // NOLINT(bugprone-empty-catch)
+    };
+    Detail::handle_error(
+        clingo_parse_term(str, logger ? c_logger : nullptr, logger ? &logger : nullptr, message_limit, &ret));
     return Symbol(ret);
 }
 
-- 
2.43.0


From 17c3c537e02ee6eaea717a6b07b92d59ba6e0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 21/52] fix: copy optional children in deep copies of syntax
 trees

---
 libclingo/src/astv2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingo/src/astv2.cc b/libclingo/src/astv2.cc
index e7e1759..f596260 100644
--- a/libclingo/src/astv2.cc
+++ b/libclingo/src/astv2.cc
@@ -32,6 +32,9 @@ namespace {
 struct Deepcopy {
     template <typename T> AST::Value operator()(T const &val) { return val; }
     AST::Value operator()(SAST &ast) { return ast->deepcopy(); }
+    AST::Value operator()(OAST &ast) {
+        return OAST{ast.ast.get() != nullptr ? ast.ast->deepcopy() : SAST{nullptr}};
+    }
     AST::Value operator()(AST::ASTVec &asts) {
         AST::ASTVec ret;
         ret.reserve(asts.size());
-- 
2.43.0


From c4a3b1119ce1345b57015e871ab179bc826773a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 22/52] fix: define the function to set strings in string
 vectors

---
 libclingo/clingo.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index a9e354a..ca8bd98 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4057,6 +4057,10 @@ inline StringVector::iterator StringVector::erase(iterator it) {
     return it;
 }
 
+inline void StringVector::set(iterator it, char const *str) {
+    Detail::handle_error(clingo_ast_attribute_set_string_at(ast_.to_c(), attr_, it - begin(), str));
+}
+
 inline StringRef StringVector::operator[](size_t idx) { return {this, idx}; }
 
 inline ValuePointer<StringRef> StringVector::at(size_t idx) { return operator[](idx); }
-- 
2.43.0


From 5b4e9e1d8ab30c98b38bc99f1222cec761a67867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:02 +0000
Subject: [PATCH 23/52] fix: Lua control objects that could not be created
 crash the garbage collector

---
 libluaclingo/luaclingo.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index b8cdbcd..8c98f87 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3604,7 +3604,7 @@ struct ControlWrap : Object<ControlWrap> {
         for (auto &arg : *args) {
             protect(L, [&arg, &cargs]() { cargs->push_back(arg.c_str()); });
         }
-        return new_(L, [&](void *mem) {
+        return new_(L, [&](ControlWrap &self) {
             lua_State *T = nullptr;
             if (has_logger) {
                 lua_pushstring(L, "logger");
@@ -3613,19 +3613,21 @@ struct ControlWrap : Object<ControlWrap> {
                 lua_xmove(L, T, 1);
                 lua_rawset(L, -3);
             }
-            new (mem) ControlWrap(call_c(L, clingo_control_new, cargs->data(), cargs->size(),
-                                         has_logger ? logger_callback : nullptr, T, message_limit),
-                                  true);
+            self.ctl = call_c(L, clingo_control_new, cargs->data(), cargs->size(),
+                              has_logger ? logger_callback : nullptr, T, message_limit);
+            self.free = true;
         });
     }
     template <class F> static int new_(lua_State *L, F f) {
         lua_newtable(L);                                                    // +1
         auto self = (ControlWrap *)lua_newuserdata(L, sizeof(ControlWrap)); // +1
+        // the object has to be valid when collected even if creating the control object fails below
+        new (self) ControlWrap(nullptr, false);
         // see: https://stackoverflow.com/questions/27426704/lua-5-1-workaround-for-gc-metamethod-for-tables
         luaL_getmetatable(L, typeNameI); // +1
         lua_setmetatable(L, -2);         // -1
         lua_rawseti(L, -2, 1);           // -1
-        protect(L, [self, f]() { f(self); });
+        protect(L, [self, f]() { f(*self); });
         luaL_getmetatable(L, typeName); // +1
         lua_setmetatable(L, -2);        // -1
         return 1;
@@ -3757,7 +3759,7 @@ luaL_Reg ControlWrap::metaI[] = {{"__gc", gc}, {nullptr, nullptr}};
 int luaMain(lua_State *L) {
     auto ctl = (clingo_control_t *)lua_touserdata(L, 1);
     lua_getglobal(L, "main");
-    ControlWrap::new_(L, [ctl](void *mem) { new (mem) ControlWrap(ctl, false); });
+    ControlWrap::new_(L, [ctl](ControlWrap &self) { self.ctl = ctl; });
     lua_call(L, 1, 0);
     return 0;
 }
-- 
2.43.0


From 0aca5debdca03979e0c6bc14222ff74002998c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 24/52] fix: statistics read before the first solve call hide
 those of that call (Python)

---
 libpyclingo/clingo/control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index b8c1509..3486e7d 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -1037,6 +1037,8 @@ class Control:
         """
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
+        # statistics read before the first call carry the same call number
+        self._statistics = None
         handler = _SolveEventHandler(on_model, on_unsat, on_statistics, on_finish)
         data = _CBData(handler, self._error)
         self._handler = _ffi.new_handle(data)
-- 
2.43.0


From 4d613be0016fdac5ab9bc12b25f03b90c4d02a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 25/52] fix: report Lua error objects that are not strings

A callback failing with a table (or nil) made the error handler print a null
pointer, so that the reported error had no message at all.
---
 libluaclingo/luaclingo.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 8c98f87..1b84ca9 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -72,7 +72,8 @@ bool handle_lua_error(lua_State *L, char const *loc, char const *desc, int code)
                 char const *s = lua_tostring(L, -1);
                 std::ostringstream msg;
                 msg << loc << ": " << "error: " << desc << ":\n"
-                    << (code == LUA_ERRSYNTAX ? "  SyntaxError: " : "  RuntimeError: ") << s << "\n";
+                    << (code == LUA_ERRSYNTAX ? "  SyntaxError: " : "  RuntimeError: ") << (s != nullptr ? s : "no message")
+                    << "\n";
                 clingo_set_error(clingo_error_runtime, msg.str().c_str());
                 lua_pop(L, 1);
                 return false;
@@ -132,7 +133,12 @@ static auto call_c(lua_State *L, F f, Args... args) -> decltype(call_c_(static_c
 
 static int luaTraceback(lua_State *L) {
     if (!lua_isstring(L, 1)) {
-        return 1;
+        // error objects that are not strings still have to be reported
+        if (!luaL_callmeta(L, 1, "__tostring") || !lua_isstring(L, -1)) {
+            lua_pushfstring(L, "(error object is a %s value)", luaL_typename(L, 1));
+        }
+        lua_replace(L, 1);
+        lua_settop(L, 1);
     }
     lua_getglobal(L, "debug");
     if (!lua_istable(L, -1)) {
-- 
2.43.0


From 50af3f2cf800c8ec2c4b0a7cd6b30f50c3366d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 26/52] fix: exceptions in Propagator.undo are silently lost in
 Python

The documentation says that they lead to program termination. The callback
cannot report errors to the solver, so that the search just continued.
---
 libpyclingo/clingo/propagator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/propagator.py b/libpyclingo/clingo/propagator.py
index dcd3de1..c45c9d4 100644
--- a/libpyclingo/clingo/propagator.py
+++ b/libpyclingo/clingo/propagator.py
@@ -40,7 +40,14 @@ SAT
 from abc import ABCMeta
 from typing import Iterable, Iterator, Optional, Sequence, Tuple
 
-from ._internal import _c_call, _cb_error_handler, _ffi, _handle_error, _lib
+from ._internal import (
+    _c_call,
+    _cb_error_handler,
+    _cb_error_panic,
+    _ffi,
+    _handle_error,
+    _lib,
+)
 from .core import OrderedEnum
 from .symbolic_atoms import SymbolicAtoms
 from .theory_atoms import TheoryAtom
@@ -927,7 +934,7 @@ def _pyclingo_propagator_propagate(control, changes, size, data):
     return True
 
 
-@_ffi.def_extern(onerror=_cb_error_handler("data"), name="pyclingo_propagator_undo")
+@_ffi.def_extern(onerror=_cb_error_panic, name="pyclingo_propagator_undo")
 def _pyclingo_propagator_undo(control, changes, size, data):
     propagator = _ffi.from_handle(data).data
     py_changes = [changes[i] for i in range(size)]
-- 
2.43.0


From 172c36dc609449c49b45e8bffb57dae715748e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 27/52] fix: exceptions whose message cannot be encoded are
 replaced in Python

The error handler itself failed in this case so that the failing operation
reported an unrelated error message.
---
 libpyclingo/clingo/_internal.py | 3 ++-
 libpyclingo/clingo/script.py    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index 077f8e8..a6958e5 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -86,7 +86,8 @@ def _cb_error_handler(param: str):
         if traceback is not None:
             handler = _ffi.from_handle(traceback.tb_frame.f_locals[param])
             handler.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            msg = str(exc_value).encode(errors="backslashreplace")
+            _lib.clingo_set_error(_lib.clingo_error_unknown, msg)
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
diff --git a/libpyclingo/clingo/script.py b/libpyclingo/clingo/script.py
index 7f8b225..916df01 100644
--- a/libpyclingo/clingo/script.py
+++ b/libpyclingo/clingo/script.py
@@ -64,7 +64,9 @@ __all__ = ["Script", "enable_python", "register_script"]
 
 def _cb_error_top_level(exception, exc_value, traceback):
     msg = "".join(format_exception(exception, exc_value, traceback))
-    _lib.clingo_set_error(_lib.clingo_error_runtime, msg.encode())
+    _lib.clingo_set_error(
+        _lib.clingo_error_runtime, msg.encode(errors="backslashreplace")
+    )
     return False
 
 
-- 
2.43.0


From dbb5416f50a6656ff97d9dead2b4ade2ea5ad788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 28/52] fix: backend methods lose the exceptions of observers
 in Python

Only some of the methods passed the error handler, so that exceptions raised
in observers called back by the other ones turned into runtime errors.
---
 libpyclingo/clingo/backend.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/libpyclingo/clingo/backend.py b/libpyclingo/clingo/backend.py
index db78e2d..e2f71c8 100644
--- a/libpyclingo/clingo/backend.py
+++ b/libpyclingo/clingo/backend.py
@@ -609,7 +609,8 @@ class Backend(ContextManager["Backend"]):
         _handle_error(
             _lib.clingo_backend_acyc_edge(
                 self._rep, node_u, node_v, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_assume(self, literals: Sequence[int]) -> None:
@@ -621,7 +622,10 @@ class Backend(ContextManager["Backend"]):
         literals
             The list of literals to assume true.
         """
-        _handle_error(_lib.clingo_backend_assume(self._rep, literals, len(literals)))
+        _handle_error(
+            _lib.clingo_backend_assume(self._rep, literals, len(literals)),
+            handler=self._error,
+        )
 
     def add_atom(self, symbol: Optional[Symbol] = None) -> int:
         """
@@ -668,7 +672,10 @@ class Backend(ContextManager["Backend"]):
         -----
         Can also be used to release an external atom using `TruthValue.Release`.
         """
-        _handle_error(_lib.clingo_backend_external(self._rep, atom, value.value))
+        _handle_error(
+            _lib.clingo_backend_external(self._rep, atom, value.value),
+            handler=self._error,
+        )
 
     def add_heuristic(
         self,
@@ -697,7 +704,8 @@ class Backend(ContextManager["Backend"]):
         _handle_error(
             _lib.clingo_backend_heuristic(
                 self._rep, atom, type_.value, bias, priority, condition, len(condition)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_minimize(self, priority: int, literals: Sequence[Tuple[int, int]]) -> None:
@@ -712,7 +720,8 @@ class Backend(ContextManager["Backend"]):
             List of pairs of program literals and weights.
         """
         _handle_error(
-            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals))
+            _lib.clingo_backend_minimize(self._rep, priority, literals, len(literals)),
+            handler=self._error,
         )
 
     def add_project(self, atoms: Sequence[int]) -> None:
@@ -724,7 +733,10 @@ class Backend(ContextManager["Backend"]):
         atoms
             List of program atoms to project on.
         """
-        _handle_error(_lib.clingo_backend_project(self._rep, atoms, len(atoms)))
+        _handle_error(
+            _lib.clingo_backend_project(self._rep, atoms, len(atoms)),
+            handler=self._error,
+        )
 
     def add_rule(
         self, head: Sequence[int], body: Sequence[int] = [], choice: bool = False
@@ -750,7 +762,8 @@ class Backend(ContextManager["Backend"]):
         _handle_error(
             _lib.clingo_backend_rule(
                 self._rep, choice, head, len(head), body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_weight_rule(
@@ -779,7 +792,8 @@ class Backend(ContextManager["Backend"]):
         _handle_error(
             _lib.clingo_backend_weight_rule(
                 self._rep, choice, head, len(head), lower, body, len(body)
-            )
+            ),
+            handler=self._error,
         )
 
     def add_theory_term_number(self, number: int) -> int:
-- 
2.43.0


From f9c38862e44cc895a97b01d4ddd6eef7583a27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 29/52] fix: exceptions in C++ callbacks leave a stale error
 message behind

If a callback failed, the library and operations that do not have access to
the recorded exception (like those of the backend) reported whatever error
had been set before.
---
 libclingo/clingo.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index ca8bd98..be1ecf2 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2358,6 +2358,7 @@ inline int clingo_main(Application &application, StringSpan arguments);
 #define CLINGO_CALLBACK_CATCH(ref)                                                                                     \
     catch (...) {                                                                                                      \
         (ref) = std::current_exception();                                                                              \
+        Detail::handle_cxx_error();                                                                                    \
         return false;                                                                                                  \
     }                                                                                                                  \
     return true // NOLINT
-- 
2.43.0


From 64fb55221c1801acf7407a1de6dac25fe8e878aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 30/52] fix: exit with clingo's exit code when run as python -m
 clingo

---
 libpyclingo/clingo/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/__main__.py b/libpyclingo/clingo/__main__.py
index 8087018..6bc0e4c 100644
--- a/libpyclingo/clingo/__main__.py
+++ b/libpyclingo/clingo/__main__.py
@@ -2,6 +2,8 @@
 Module providing the clingo-like pyclingo application.
 """
 
+import sys
+
 from clingo.application import Application, ApplicationOptions, Flag, clingo_main
 from clingo.script import enable_python
 
@@ -39,4 +41,4 @@ class PyClingoApplication(Application):
 
 
 if __name__ == "__main__":
-    clingo_main(PyClingoApplication())
+    sys.exit(clingo_main(PyClingoApplication()))
-- 
2.43.0


From 6f2619274e268c7229ae5790f3f1a1ba19f49d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 31/52] fix: C++ interface reports failures of symbolic and
 theory atom queries

The C++ wrappers of clingo_symbolic_atoms_symbol, _literal, _is_fact,
_is_external, _signatures_size, and clingo_control_theory_atoms ignored the
result of the call. Upon failure, they returned a default value or a null
object which was dereferenced later.
---
 libclingo/clingo.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index be1ecf2..d87d00f 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -2605,25 +2605,25 @@ inline bool operator>=(Symbol a, Symbol b) { return !clingo_symbol_is_less_than(
 
 inline Symbol SymbolicAtom::symbol() const {
     clingo_symbol_t ret = 0;
-    clingo_symbolic_atoms_symbol(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_symbol(atoms_, range_, &ret));
     return Symbol(ret);
 }
 
 inline clingo_literal_t SymbolicAtom::literal() const {
     clingo_literal_t ret = 0;
-    clingo_symbolic_atoms_literal(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_literal(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_fact() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_fact(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_fact(atoms_, range_, &ret));
     return ret;
 }
 
 inline bool SymbolicAtom::is_external() const {
     bool ret = false;
-    clingo_symbolic_atoms_is_external(atoms_, range_, &ret);
+    Detail::handle_error(clingo_symbolic_atoms_is_external(atoms_, range_, &ret));
     return ret;
 }
 
@@ -2676,7 +2676,7 @@ inline SymbolicAtomIterator SymbolicAtoms::find(Symbol atom) const {
 
 inline std::vector<Signature> SymbolicAtoms::signatures() const {
     size_t n = 0;
-    clingo_symbolic_atoms_signatures_size(atoms_, &n);
+    Detail::handle_error(clingo_symbolic_atoms_signatures_size(atoms_, &n));
     Signature sig("", 0);
     std::vector<Signature> ret;
     ret.resize(n, sig);
@@ -4384,7 +4384,7 @@ inline SymbolicAtoms Control::symbolic_atoms() const {
 
 inline TheoryAtoms Control::theory_atoms() const {
     clingo_theory_atoms_t const *ret = nullptr;
-    clingo_control_theory_atoms(*impl_, &ret);
+    Detail::handle_error(clingo_control_theory_atoms(*impl_, &ret));
     return TheoryAtoms{ret};
 }
 
-- 
2.43.0


From 2f1e0c3e2266325801506108cfcc68d27c3b0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 32/52] fix: C++ control constructor frees its implementation
 upon failure

If clingo_control_new failed, the constructor threw and the implementation
object, including the logger, was leaked.
---
 libclingo/clingo.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index d87d00f..3927a8e 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -4225,8 +4225,12 @@ inline Clingo::Control::Control(StringSpan args, Logger logger, unsigned message
         } catch (...) {
         } // NOLINT(bugprone-empty-catch)
     };
-    Detail::handle_error(clingo_control_new(args.begin(), args.size(), impl_->logger ? f : nullptr,
-                                            impl_->logger ? &impl_->logger : nullptr, message_limit, &impl_->ctl));
+    if (!clingo_control_new(args.begin(), args.size(), impl_->logger ? f : nullptr,
+                            impl_->logger ? &impl_->logger : nullptr, message_limit, &impl_->ctl)) {
+        delete impl_;
+        impl_ = nullptr;
+        Detail::handle_error(false);
+    }
 }
 
 inline Control::Control(clingo_control_t *ctl, bool owns) : impl_(new Impl(ctl, owns)) {}
-- 
2.43.0


From d7aa4dc8b217ef9d186d3ca274bd00676da9c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 33/52] fix: copying a moved-from C++ AST node no longer
 dereferences null

The copy and move assignments handle such nodes but the copy constructor
acquired the null pointer.
---
 libclingo/clingo.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 3927a8e..852372f 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -3647,7 +3647,11 @@ Node::Node(Type type, Args &&...args)
           g_clingo_ast_constructors.constructors[static_cast<size_t>(type)], // NOLINT
           std::forward<Args>(args)...)} {}
 
-inline Node::Node(Node const &ast) : ast_{ast.ast_} { clingo_ast_acquire(ast_); }
+inline Node::Node(Node const &ast) : ast_{ast.ast_} {
+    if (ast_ != nullptr) {
+        clingo_ast_acquire(ast_);
+    }
+}
 
 inline Node::Node(Node &&ast) noexcept : ast_{ast.ast_} { ast.ast_ = nullptr; }
 
-- 
2.43.0


From d8ca1dbea9ca8aeb7643aa199501641ff78d0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 34/52] fix: C++ Optional can be assigned from its own value
 and emplaced

Assigning a value freed the current one before copying or moving from the
argument, which may refer to (a part of) the current value. Function emplace
did not compile when instantiated.
---
 libclingo/clingo.hh | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 852372f..2cc063e 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -172,17 +172,14 @@ template <class T> class Optional {
     Optional(Optional &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional(Optional const &opt) : data_(opt ? new T(*opt) : nullptr) {}
     Optional &operator=(T const &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &x) {
-        clear();
         data_.reset(new T(x));
         return *this;
     }
     Optional &operator=(T &&x) {
-        clear();
         data_.reset(new T(std::move(x)));
         return *this;
     }
@@ -203,8 +200,7 @@ template <class T> class Optional {
     T &&operator*() && { return std::move(*get()); }
     T const &&operator*() const && { return std::move(*get()); }
     template <class... Args> void emplace(Args &&...x) {
-        clear();
-        data_(new T{std::forward<Args>(x)...});
+        data_.reset(new T{std::forward<Args>(x)...});
     }
     void clear() { data_.reset(nullptr); }
     explicit operator bool() const { return data_ != nullptr; }
-- 
2.43.0


From 919ba3ba0381cfeb8b88a2d6d9c8c90b94996d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 35/52] fix: Lua propagators without an init method crashed in
 their other callbacks

---
 libluaclingo/luaclingo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 1b84ca9..e95faa9 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -3677,7 +3677,7 @@ struct ControlWrap : Object<ControlWrap> {
         lua_newtable(T);
 
         clingo_propagator_t propagator = {
-            hasField(L, "init", 2) ? Propagator::init : nullptr,
+            Propagator::init, // also sets up the threads for the other callbacks
             hasField(L, "propagate", 2) ? Propagator::propagate : nullptr,
             hasField(L, "undo", 2) ? Propagator::undo : nullptr,
             hasField(L, "check", 2) ? Propagator::check : nullptr,
-- 
2.43.0


From ebf3e13a323dfa0abf37cff37ba4274f29ec706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 36/52] fix: Lua trails check the lower bound of indices

---
 libluaclingo/luaclingo.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index e95faa9..6a60977 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -2238,7 +2238,7 @@ struct Trail : Object<Trail> {
     static int pairs_iter_(lua_State *L) {
         auto &self = get_self(L);
         auto idx = numeric_cast<int32_t>(luaL_checkinteger(L, 2));
-        if (idx < self.size_(L)) {
+        if (0 <= idx && idx < self.size_(L)) {
             lua_pushinteger(L, idx + 1);
             lua_pushnumber(L, self.at_(L, idx));
             return 2;
@@ -2275,7 +2275,7 @@ struct Trail : Object<Trail> {
     static int at(lua_State *L) {
         auto &self = get_self(L);
         auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
-        if (index < self.size_(L)) {
+        if (0 <= index && index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
         }
-- 
2.43.0


From 429fb955cd22b4d66ea32160f67a8d4a439fffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 37/52] fix: Python theory rewriting hands exceptions of the
 callback back to the caller

---
 libpyclingo/clingo/theory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index c78325c..5074ad1 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -140,7 +140,8 @@ class Theory:
         if traceback is not None:
             cb_data = self._ffi.from_handle(traceback.tb_frame.f_locals["data"])
             cb_data.error = (exception, exc_value, traceback)
-            _lib.clingo_set_error(_lib.clingo_error_unknown, str(exc_value).encode())
+            msg = str(exc_value).encode(errors="backslashreplace")
+            _lib.clingo_set_error(_lib.clingo_error_unknown, msg)
         else:
             _lib.clingo_set_error(
                 _lib.clingo_error_runtime, "error in callback".encode()
@@ -166,11 +167,11 @@ class Theory:
         """
         return self.__get(c_fun)(*args)
 
-    def __call0(self, c_fun, *args):
+    def __call0(self, c_fun, *args, handler=None):
         """
         Helper to simplify calling C functions without a return value.
         """
-        _handle_error(self.__call(c_fun, *args))
+        _handle_error(self.__call(c_fun, *args), handler)
 
     def __call1(self, c_type, c_fun, *args):
         """
@@ -269,6 +270,7 @@ class Theory:
             self._ffi.cast("clingo_ast_t*", stm._rep),
             self.__get("rewrite", "py"),
             handle,
+            handler=cb_data,
         )
 
     def register_options(self, options: ApplicationOptions) -> None:
-- 
2.43.0


From 1a16f22e6a49ada94091a0ad1249c7f3bfd6380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 38/52] fix: Lua numbers that do not fit the integers of clingo
 are reported instead of truncated

---
 libluaclingo/luaclingo.cc | 60 +++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/libluaclingo/luaclingo.cc b/libluaclingo/luaclingo.cc
index 6a60977..d049563 100644
--- a/libluaclingo/luaclingo.cc
+++ b/libluaclingo/luaclingo.cc
@@ -325,6 +325,16 @@ template <class T, class S> inline T numeric_cast(S s) {
     return static_cast<T>(s);
 }
 
+// Get an integer from the Lua stack that has to be representable by the given type.
+template <class T> inline T check_integer(lua_State *L, int index) {
+    auto num = luaL_checkinteger(L, index);
+    auto ret = static_cast<T>(num);
+    if (static_cast<lua_Integer>(ret) != num || (ret < 0) != (num < 0)) {
+        luaL_error(L, "integer out of range");
+    }
+    return ret;
+}
+
 clingo_symbol_t luaToVal(lua_State *L, int idx);
 
 #if LUA_VERSION_NUM < 502
@@ -386,7 +396,7 @@ void luaToCpp(lua_State *L, int index, T &x, typename std::enable_if<std::is_int
     if (lua_type(L, index) != LUA_TNUMBER) {
         luaL_error(L, "number expected");
     }
-    x = numeric_cast<T>(lua_tointeger(L, index));
+    x = check_integer<T>(L, index);
 }
 
 struct symbol_wrapper {
@@ -984,7 +994,7 @@ struct Term : Object<Term> {
     }
     static int newNumber(lua_State *L) {
         clingo_symbol_t sym;
-        clingo_symbol_create_number(numeric_cast<int>(luaL_checkinteger(L, 1)), &sym);
+        clingo_symbol_create_number(check_integer<int>(L, 1), &sym);
         return Term::new_(L, sym);
     }
     static int newString(lua_State *L) {
@@ -1106,7 +1116,7 @@ clingo_symbol_t luaToVal(lua_State *L, int idx) {
         }
         case LUA_TNUMBER: {
             clingo_symbol_t ret;
-            clingo_symbol_create_number(numeric_cast<int>(lua_tointeger(L, idx)), &ret);
+            clingo_symbol_create_number(check_integer<int>(L, idx), &ret);
             return ret;
         }
         case LUA_TUSERDATA: {
@@ -1301,7 +1311,7 @@ struct SymbolicAtoms : Object<SymbolicAtoms> {
     static int by_signature(lua_State *L) {
         auto &self = get_self(L);
         char const *name = luaL_checkstring(L, 2);
-        int arity = numeric_cast<int>(luaL_checkinteger(L, 3));
+        int arity = check_integer<int>(L, 3);
         bool positive = lua_isnone(L, 4) || lua_toboolean(L, 4);
         clingo_signature_t sig = call_c(L, clingo_signature_create, name, arity, positive);
         auto range = call_c(L, clingo_symbolic_atoms_begin, self.atoms, &sig);
@@ -2223,21 +2233,21 @@ struct Trail : Object<Trail> {
 
     static int begin(lua_State *L) {
         auto &self = get_self(L);
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = check_integer<uint32_t>(L, 2);
         lua_pushnumber(L, call_c(L, clingo_assignment_trail_begin, self.ass, level) + 1);
         return 1;
     }
 
     static int end(lua_State *L) {
         auto &self = get_self(L);
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = check_integer<uint32_t>(L, 2);
         lua_pushnumber(L, call_c(L, clingo_assignment_trail_end, self.ass, level));
         return 1;
     }
 
     static int pairs_iter_(lua_State *L) {
         auto &self = get_self(L);
-        auto idx = numeric_cast<int32_t>(luaL_checkinteger(L, 2));
+        auto idx = check_integer<int32_t>(L, 2);
         if (0 <= idx && idx < self.size_(L)) {
             lua_pushinteger(L, idx + 1);
             lua_pushnumber(L, self.at_(L, idx));
@@ -2274,7 +2284,7 @@ struct Trail : Object<Trail> {
 
     static int at(lua_State *L) {
         auto &self = get_self(L);
-        auto index = numeric_cast<int32_t>(luaL_checkinteger(L, 2)) - 1;
+        auto index = check_integer<int32_t>(L, 2) - 1;
         if (0 <= index && index < self.size_(L)) {
             lua_pushnumber(L, self.at_(L, index));
             return 1;
@@ -2322,38 +2332,38 @@ struct Assignment : Object<Assignment> {
     }
 
     static int hasLit(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         lua_pushboolean(L, clingo_assignment_has_literal(get_self(L).ass, lit));
         return 1;
     }
 
     static int level(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_assignment_level, get_self(L).ass, lit));
         return 1;
     }
 
     static int decision(lua_State *L) {
-        auto level = numeric_cast<uint32_t>(luaL_checkinteger(L, 2));
+        auto level = check_integer<uint32_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_assignment_decision, get_self(L).ass, level));
         return 1;
     }
 
     static int isFixed(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_fixed, get_self(L).ass, lit));
         return 1;
     }
 
     static int isTrue(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_true, get_self(L).ass, lit));
         return 1;
     }
 
     static int value(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         auto val = call_c(L, clingo_assignment_truth_value, self.ass, lit);
         if (val == clingo_truth_value_free) {
             lua_pushnil(L);
@@ -2364,7 +2374,7 @@ struct Assignment : Object<Assignment> {
     }
 
     static int isFalse(lua_State *L) {
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         lua_pushboolean(L, call_c(L, clingo_assignment_is_false, get_self(L).ass, lit));
         return 1;
     }
@@ -2385,7 +2395,7 @@ struct Assignment : Object<Assignment> {
 
     static int pairs_iter_(lua_State *L) {
         auto &self = get_self(L);
-        auto idx = numeric_cast<std::make_signed<size_t>::type>(luaL_checkinteger(L, 2));
+        auto idx = check_integer<std::make_signed<size_t>::type>(L, 2);
         if (0 <= idx && idx < self.size_()) {
             lua_pushinteger(L, idx + 1);
             lua_pushnumber(L, self.at_(L, idx));
@@ -2421,7 +2431,7 @@ struct Assignment : Object<Assignment> {
     }
 
     static int at(lua_State *L) {
-        auto idx = numeric_cast<std::make_signed<size_t>::type>(luaL_checkinteger(L, 2)) - 1;
+        auto idx = check_integer<std::make_signed<size_t>::type>(L, 2) - 1;
         auto &self = get_self(L);
         if (0 <= idx && idx < self.size_()) {
             lua_pushnumber(L, self.at_(L, idx));
@@ -2523,7 +2533,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int mapLit(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         lua_pushinteger(L, call_c(L, clingo_propagate_init_solver_literal, self.init, lit));
         return 1;
     }
@@ -2535,11 +2545,11 @@ struct PropagateInit : Object<PropagateInit> {
     }
     static int addWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         if (lua_isnone(L, 3) || lua_isnil(L, 3)) {
             handle_c_error(L, clingo_propagate_init_add_watch(self.init, lit));
         } else {
-            auto thread_id = numeric_cast<uint32_t>(luaL_checkinteger(L, 3));
+            auto thread_id = check_integer<uint32_t>(L, 3);
             handle_c_error(L, clingo_propagate_init_add_watch_to_thread(self.init, lit, thread_id - 1));
         }
         return 0;
@@ -2658,7 +2668,7 @@ struct PropagateInit : Object<PropagateInit> {
 
     static int setState(lua_State *L) {
         auto &self = get_self(L);
-        auto id = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto id = check_integer<clingo_literal_t>(L, 2);
         luaL_checkany(L, 3);
         if (id < 1 || id > (int)clingo_propagate_init_number_of_threads(self.init)) {
             luaL_error(L, "invalid solver thread id %d", id);
@@ -2710,7 +2720,7 @@ struct PropagateControl : Object<PropagateControl> {
         auto lits = AnyWrap::new_<std::vector<clingo_literal_t>>(L);             // +1
         lua_pushnil(L);                                                          // +1
         while (lua_next(L, -3)) {                                                // -1
-            auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, -1)); // +0
+            auto lit = check_integer<clingo_literal_t>(L, -1); // +0
             PROTECT(lits->emplace_back(lit));
             lua_pop(L, 1);
         }
@@ -2745,21 +2755,21 @@ struct PropagateControl : Object<PropagateControl> {
 
     static int addWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         handle_c_error(L, clingo_propagate_control_add_watch(self.ctl, lit));
         return 0;
     }
 
     static int removeWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         clingo_propagate_control_remove_watch(self.ctl, lit);
         return 0;
     }
 
     static int hasWatch(lua_State *L) {
         auto &self = get_self(L);
-        auto lit = numeric_cast<clingo_literal_t>(luaL_checkinteger(L, 2));
+        auto lit = check_integer<clingo_literal_t>(L, 2);
         lua_pushboolean(L, clingo_propagate_control_has_watch(self.ctl, lit));
         return 1;
     }
-- 
2.43.0


From 9718f074f1cf2548b693cdf6de3ea9f09f2ac607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 39/52] fix: Python theories are destroyed when dropped

---
 libpyclingo/clingo/theory.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/libpyclingo/clingo/theory.py b/libpyclingo/clingo/theory.py
index 5074ad1..2d1460b 100644
--- a/libpyclingo/clingo/theory.py
+++ b/libpyclingo/clingo/theory.py
@@ -127,6 +127,7 @@ class Theory:
         self._pre = prefix
         self._lib = lib
         self._ffi = ffi
+        self._theory = None
         self._theory = self.__call1(self.__pre("theory_t*"), "create")
         self._rewrite = self.__define_rewrite()
 
@@ -136,24 +137,26 @@ class Theory:
     def __get(self, name, extra=""):
         return getattr(self._lib, self.__pre(name, extra))
 
-    def __error_handler(self, exception, exc_value, traceback) -> bool:
-        if traceback is not None:
-            cb_data = self._ffi.from_handle(traceback.tb_frame.f_locals["data"])
-            cb_data.error = (exception, exc_value, traceback)
-            msg = str(exc_value).encode(errors="backslashreplace")
-            _lib.clingo_set_error(_lib.clingo_error_unknown, msg)
-        else:
-            _lib.clingo_set_error(
-                _lib.clingo_error_runtime, "error in callback".encode()
-            )
-        return False
-
     def __define_rewrite(self):
-        @self._ffi.def_extern(
-            name=self.__pre("rewrite", "py"), onerror=self.__error_handler
-        )
+        # Note: the handler must not refer to self because it stays registered
+        # with the library and would keep the theory alive.
+        ffi = self._ffi
+
+        def error_handler(exception, exc_value, traceback) -> bool:
+            if traceback is not None:
+                cb_data = ffi.from_handle(traceback.tb_frame.f_locals["data"])
+                cb_data.error = (exception, exc_value, traceback)
+                msg = str(exc_value).encode(errors="backslashreplace")
+                _lib.clingo_set_error(_lib.clingo_error_unknown, msg)
+            else:
+                _lib.clingo_set_error(
+                    _lib.clingo_error_runtime, "error in callback".encode()
+                )
+            return False
+
+        @ffi.def_extern(name=self.__pre("rewrite", "py"), onerror=error_handler)
         def rewrite(ast, data):
-            add = self._ffi.from_handle(data).data
+            add = ffi.from_handle(data).data
             ast = _ffi.cast("clingo_ast_t*", ast)
             _lib.clingo_ast_acquire(ast)
             add(AST(ast))
-- 
2.43.0


From 0eb34c88cea66ccedbeed3d37da4cb54080d94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 40/52] fix: Python messages that quote parts of characters
 ended the process

---
 libpyclingo/clingo/_internal.py   | 7 ++++++-
 libpyclingo/clingo/application.py | 3 ++-
 libpyclingo/clingo/core.py        | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libpyclingo/clingo/_internal.py b/libpyclingo/clingo/_internal.py
index a6958e5..2e6ddf2 100644
--- a/libpyclingo/clingo/_internal.py
+++ b/libpyclingo/clingo/_internal.py
@@ -66,6 +66,11 @@ def _to_str(c_str) -> str:
     return _ffi.string(c_str).decode()
 
 
+def _to_msg(c_str) -> str:
+    # messages quote parts of programs, which might not be valid UTF-8
+    return _ffi.string(c_str).decode(errors="backslashreplace")
+
+
 def _handle_error(ret: bool, handler=None):
     if not ret:
         code = _lib.clingo_error_code()
@@ -75,7 +80,7 @@ def _handle_error(ret: bool, handler=None):
             and handler.error is not None
         ):
             raise handler.error[1].with_traceback(handler.error[2])
-        msg = _ffi.string(_lib.clingo_error_message()).decode()
+        msg = _to_msg(_lib.clingo_error_message())
         if code == _lib.clingo_error_bad_alloc:
             raise MemoryError(msg)
         raise RuntimeError(msg)
diff --git a/libpyclingo/clingo/application.py b/libpyclingo/clingo/application.py
index 955fe01..5886f65 100644
--- a/libpyclingo/clingo/application.py
+++ b/libpyclingo/clingo/application.py
@@ -34,6 +34,7 @@ from ._internal import (
     _handle_error,
     _lib,
     _overwritten,
+    _to_msg,
     _to_str,
 )
 from .control import Control
@@ -368,7 +369,7 @@ def _pyclingo_application_message_limit(data):
 @_ffi.def_extern(onerror=_cb_error_panic, name="pyclingo_application_logger")
 def _pyclingo_application_logger(code, message, data):
     app = _ffi.from_handle(data)[0]
-    return app.logger(MessageCode(code), _to_str(message))
+    return app.logger(MessageCode(code), _to_msg(message))
 
 
 @_ffi.def_extern(onerror=_cb_error_print, name="pyclingo_application_main")
diff --git a/libpyclingo/clingo/core.py b/libpyclingo/clingo/core.py
index a16ede5..a65f701 100644
--- a/libpyclingo/clingo/core.py
+++ b/libpyclingo/clingo/core.py
@@ -5,7 +5,7 @@ Core functionality used throught the clingo package.
 from enum import Enum
 from typing import Callable, Tuple
 
-from ._internal import _cb_error_panic, _ffi, _lib, _to_str
+from ._internal import _cb_error_panic, _ffi, _lib, _to_msg
 
 __all__ = ["Logger", "MessageCode", "OrderedEnum", "TruthValue", "version"]
 
@@ -92,7 +92,7 @@ def _pyclingo_logger_callback(code, message, data):
     Low-level logger callback.
     """
     handler = _ffi.from_handle(data)
-    handler(MessageCode(code), _to_str(message))
+    handler(MessageCode(code), _to_msg(message))
 
 
 class TruthValue(OrderedEnum):
-- 
2.43.0


From 2ac62480bb0cb454c1ec0c2709567158ce59f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 41/52] fix: do not access elements of the interning sets after
 unlocking

The reference returned by UniqueConstruct::construct was dereferenced without
holding the lock while other threads may move the elements of the set.
---
 libgringo/src/symbol.cc | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/libgringo/src/symbol.cc b/libgringo/src/symbol.cc
index 0da667d..3d79f3e 100644
--- a/libgringo/src/symbol.cc
+++ b/libgringo/src/symbol.cc
@@ -81,15 +81,17 @@ template <class T> struct UniqueConstruct {
   public:
     using Set = hash_set<T, typename T::Hash, typename T::EqualTo>;
 
-    template <class U> static T const &construct(U &&x) {
+    // Note: elements of the set can be moved by insertions in other threads;
+    // only their stable representations may be accessed after unlocking
+    template <class U> static auto construct(U &&x) -> decltype(std::declval<T const &>().value()) {
         // TODO: in C++17 this can use a read/write lock to not block reading threads
         size_t hash = typename T::Hash{}(x);
         std::lock_guard<std::mutex> g(mutex_);
         auto it = set_.find(x, hash);
         if (it != set_.end()) {
-            return *it;
+            return it->value();
         }
-        return *set_.insert(T{std::forward<U>(x), hash}).first;
+        return set_.insert(T{std::forward<U>(x), hash}).first->value();
     }
 
   private:
@@ -101,7 +103,7 @@ template <class T> typename UniqueConstruct<T>::Set UniqueConstruct<T>::set_; //
 
 template <class T> typename std::mutex UniqueConstruct<T>::mutex_; // NOLINT
 
-template <class T, class U> T const &construct_unique(U &&x) {
+template <class T, class U> auto construct_unique(U &&x) -> decltype(std::declval<T const &>().value()) {
     return UniqueConstruct<T>::construct(std::forward<U>(x));
 }
 
@@ -124,7 +126,7 @@ class MSig {
 
     explicit MSig(Cons const &cons, size_t hash) : sig_{cons.first, cons.second}, hash_{hash} {}
 
-    Cons const &as_sig() const { return sig_; }
+    Cons const *value() const { return &sig_; }
 
   private:
     static String name(MSig const &a) { return a.sig_.first; }
@@ -144,7 +146,7 @@ uint64_t encodeSig(String name, uint32_t arity, bool sign) {
     return arity < upperMax ? combine(arity, String::toRep(name), isign)
                             : combine(upperMax,
                                       reinterpret_cast<uintptr_t>(
-                                          &construct_unique<MSig>(std::make_pair(name, arity)).as_sig()), // NOLINT
+                                          construct_unique<MSig>(std::make_pair(name, arity))), // NOLINT
                                       isign);
 }
 
@@ -219,7 +221,7 @@ class MFun {
         }
     }
 
-    Fun const &as_fun() const { return *fun_; }
+    Fun const *value() const { return fun_; }
 
   private:
     static Sig sig(MFun const &a) { return a.fun_->sig(); }
@@ -291,13 +293,13 @@ class String::Impl::MString {
     };
     struct EqualTo {
         using is_transparent = void;
-        bool operator()(MString const &a, char const *b) const { return std::strcmp(a.as_impl()->str(), b) == 0; }
+        bool operator()(MString const &a, char const *b) const { return std::strcmp(a.value()->str(), b) == 0; }
         bool operator()(MString const &a, StringSpan const &span_b) const {
-            auto const *str_a = a.as_impl()->str();
+            auto const *str_a = a.value()->str();
             StringSpan span_a = {str_a, std::strlen(str_a)};
             return span_a.size == span_b.size && std::equal(begin(span_a), end(span_a), begin(span_b));
         }
-        bool operator()(MString const &a, MString const &b) const { return operator()(a, b.as_impl()->str()); }
+        bool operator()(MString const &a, MString const &b) const { return operator()(a, b.value()->str()); }
         bool operator()(char const *a, MString const &b) const { return operator()(b, a); }
         bool operator()(StringSpan const &a, MString const &b) const { return operator()(b, a); }
     };
@@ -318,15 +320,15 @@ class String::Impl::MString {
         }
     }
 
-    Impl *as_impl() const { return str_; }
+    Impl *value() const { return str_; }
 
   private:
     String::Impl *str_ = nullptr;
 };
 
-String::String(char const *str) : str_(construct_unique<Impl::MString>(str).as_impl()) {}
+String::String(char const *str) : str_(construct_unique<Impl::MString>(str)) {}
 
-String::String(StringSpan str) : str_(construct_unique<Impl::MString>(str).as_impl()) {}
+String::String(StringSpan str) : str_(construct_unique<Impl::MString>(str)) {}
 
 String::String(uintptr_t r) noexcept : str_(reinterpret_cast<Impl *>(r)) {} // NOLINT
 
@@ -422,9 +424,8 @@ Symbol Symbol::createFun(String name, SymSpan args, bool sign) {
     return args.size != 0
                ? Symbol(combine(static_cast<uint16_t>(SymbolType_::Fun),
                                 reinterpret_cast<uintptr_t>(
-                                    &construct_unique<MFun>(
-                                         std::make_pair(Sig(name, numeric_cast<uint32_t>(args.size), sign), args))
-                                         .as_fun()), // NOLINT
+                                    construct_unique<MFun>(
+                                        std::make_pair(Sig(name, numeric_cast<uint32_t>(args.size), sign), args))), // NOLINT
                                 0))
                : createId(name, sign);
 }
-- 
2.43.0


From 68c1a632b2d284e2ba72c8606e072f4ff8ef3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 42/52] fix: keep signatures with large arities valid when more
 of them are added

---
 libgringo/src/symbol.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libgringo/src/symbol.cc b/libgringo/src/symbol.cc
index 3d79f3e..38039e4 100644
--- a/libgringo/src/symbol.cc
+++ b/libgringo/src/symbol.cc
@@ -124,20 +124,21 @@ class MSig {
         }
     };
 
-    explicit MSig(Cons const &cons, size_t hash) : sig_{cons.first, cons.second}, hash_{hash} {}
+    explicit MSig(Cons const &cons, size_t hash) : sig_{new Cons{cons}}, hash_{hash} {}
 
-    Cons const *value() const { return &sig_; }
+    Cons const *value() const { return sig_.get(); }
 
   private:
-    static String name(MSig const &a) { return a.sig_.first; }
+    static String name(MSig const &a) { return a.sig_->first; }
 
     static String name(Cons const &a) { return a.first; }
 
-    static uint32_t arity(MSig const &a) { return a.sig_.second; }
+    static uint32_t arity(MSig const &a) { return a.sig_->second; }
 
     static uint32_t arity(Cons const &a) { return a.second; }
 
-    std::pair<String, uint32_t> sig_;
+    // Note: signatures refer to this pair, which must not move when the set grows
+    std::unique_ptr<Cons> sig_;
     size_t hash_;
 };
 
-- 
2.43.0


From 2c7e0247a990f6467bad4a27ad5430d0fa583ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 43/52] fix: do not add empty intervals when intersecting sets
 of intervals

---
 libgringo/gringo/intervals.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgringo/gringo/intervals.hh b/libgringo/gringo/intervals.hh
index d304e10..405d893 100644
--- a/libgringo/gringo/intervals.hh
+++ b/libgringo/gringo/intervals.hh
@@ -198,7 +198,9 @@ template <class T> class IntervalSet {
             for (; it != vec_.end() && it->right < x.left; ++it) {
             }
             for (; it != vec_.end() && it->right <= x.right; ++it) {
-                intersection.vec_.emplace_back(Interval{std::max(it->left, x.left), it->right});
+                if (x.left < it->right) {
+                    intersection.vec_.emplace_back(Interval{std::max(it->left, x.left), it->right});
+                }
             }
             if (it != vec_.end() && it->left < x.right) {
                 intersection.vec_.emplace_back(Interval{std::max(it->left, x.left), x.right});
-- 
2.43.0


From b4403ae09eb04228af5faae5bf75898ab2eb2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 44/52] fix: do not assume that gaps between bounds of min/max
 aggregates contain elements

---
 libgringo/src/output/aggregates.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/output/aggregates.cc b/libgringo/src/output/aggregates.cc
index 3587414..63ee06a 100644
--- a/libgringo/src/output/aggregates.cc
+++ b/libgringo/src/output/aggregates.cc
@@ -258,7 +258,10 @@ LiteralId translateMinMax(DomainData &data, Translator &x, AggregateAnalyzer &re
             }
         }
         if (hasAntecedent) {
-            assert(!antecedent.empty());
+            if (antecedent.empty()) {
+                // there is no element in the gap
+                continue;
+            }
             if (consequent.empty()) {
                 for (auto &lit : antecedent) {
                     conjunction.emplace_back(lit.negate());
-- 
2.43.0


From 5428dbda4b8988dafa09fb85736437886e9559ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 45/52] fix: negative differences of theory atom iterators

---
 libclingo/clingo.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo/clingo.hh b/libclingo/clingo.hh
index 2cc063e..0e14e1a 100644
--- a/libclingo/clingo.hh
+++ b/libclingo/clingo.hh
@@ -891,7 +891,9 @@ class TheoryAtomIterator : private TheoryAtom {
     friend TheoryAtomIterator operator-(TheoryAtomIterator it, difference_type n) {
         return TheoryAtomIterator{it.atoms(), clingo_id_t(it.id() - n)};
     }
-    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) { return a.id() - b.id(); }
+    friend difference_type operator-(TheoryAtomIterator a, TheoryAtomIterator b) {
+        return static_cast<difference_type>(a.id()) - static_cast<difference_type>(b.id());
+    }
     TheoryAtom operator*() { return *this; }
     TheoryAtom *operator->() { return this; }
     friend void swap(TheoryAtomIterator &lhs, TheoryAtomIterator &rhs) noexcept {
-- 
2.43.0


From d74f99522cb6b556ee034e3bdea565bb0c555a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 46/52] fix: lex integers without undefined overflows

---
 libgringo/gringo/lexerstate.hh | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/libgringo/gringo/lexerstate.hh b/libgringo/gringo/lexerstate.hh
index 463ef99..baa859e 100644
--- a/libgringo/gringo/lexerstate.hh
+++ b/libgringo/gringo/lexerstate.hh
@@ -255,20 +255,20 @@ template <class T> void LexerState<T>::step(char s) {
 template <class T> void LexerState<T>::step() { state().step(); }
 
 template <class T> int32_t LexerState<T>::signed_integer() const {
-    int32_t r = 0;
-    int32_t s = 1;
+    uint32_t r = 0;
+    bool neg = false;
     char *i = state().start;
     if (i != state().cursor && *i == '-') {
-        s = -1;
+        neg = true;
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
         ++i;
     }
     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     for (; i != state().cursor; i++) {
         r *= 10;
-        r += *i - '0';
+        r += static_cast<uint32_t>(*i - '0');
     }
-    return s * r;
+    return static_cast<int32_t>(neg ? 0U - r : r);
 }
 
 template <class T> uint32_t LexerState<T>::unsigned_integer() const {
@@ -296,19 +296,20 @@ template <class T> int LexerState<T>::clingo_number() const {
             s = 2;
         }
     }
-    int r = 0;
+    // Note: numbers that do not fit wrap around
+    unsigned r = 0;
     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     for (char *i = state().start + s; i != state().cursor; i++) {
-        r *= base;
+        r *= static_cast<unsigned>(base);
         if (*i <= '9') {
-            r += *i - '0';
+            r += static_cast<unsigned>(*i - '0');
         } else if (*i <= 'F') {
-            r += *i - 'A' + 10;
+            r += static_cast<unsigned>(*i - 'A' + 10);
         } else {
-            r += *i - 'a' + 10;
+            r += static_cast<unsigned>(*i - 'a' + 10);
         }
     }
-    return r;
+    return static_cast<int>(r);
 }
 
 template <class T> int LexerState<T>::line() const { return state().line; }
-- 
2.43.0


From 04ea0d294c8a0228ee0ef489e26eb226f9df7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 47/52] fix: terminate intervals ending at the largest integer

---
 libgringo/src/ground/literals.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libgringo/src/ground/literals.cc b/libgringo/src/ground/literals.cc
index 3c376df..9332e87 100644
--- a/libgringo/src/ground/literals.cc
+++ b/libgringo/src/ground/literals.cc
@@ -63,7 +63,7 @@ class RangeBinder : public Binder {
     bool next() override {
         // Note: if assign does not match it is not a variable and will not match at all
         //       if assign is just a number, then this is handled in the corresponding Binder
-        return current_ <= end_ && assign_->match(Symbol::createNum(current_++));
+        return current_ <= end_ && assign_->match(Symbol::createNum(static_cast<int>(current_++)));
     }
 
     void print(std::ostream &out) const override { out << *assign_ << "=" << *range_.first << ".." << *range_.second; }
@@ -71,8 +71,8 @@ class RangeBinder : public Binder {
   private:
     UTerm assign_;
     RangeLiteralShared &range_;
-    int current_ = 0;
-    int end_ = 0;
+    int64_t current_ = 0; // the value after the largest integer has to be representable
+    int64_t end_ = 0;
 };
 
 // }}}
-- 
2.43.0


From 69713a8bacbdc5400e0deddafc91f491c50e693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 48/52] fix: modulo by zero and undefined powers in ground
 terms

---
 libgringo/src/input/groundtermparser.cc | 35 +++++++++++++++----------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/libgringo/src/input/groundtermparser.cc b/libgringo/src/input/groundtermparser.cc
index ae6667a..e51de23 100644
--- a/libgringo/src/input/groundtermparser.cc
+++ b/libgringo/src/input/groundtermparser.cc
@@ -29,6 +29,25 @@
 namespace Gringo {
 namespace Input {
 
+namespace {
+
+bool isDefined(BinOp op, int a, int b) {
+    switch (op) {
+        case BinOp::DIV:
+        case BinOp::MOD: {
+            return b != 0;
+        }
+        case BinOp::POW: {
+            return a != 0 || b >= 0;
+        }
+        default: {
+            return true;
+        }
+    }
+}
+
+} // namespace
+
 Symbol GroundTermParser::parse(std::string const &str, Logger &log) {
     log_ = &log;
     undefined_ = false;
@@ -42,7 +61,7 @@ Symbol GroundTermParser::parse(std::string const &str, Logger &log) {
 }
 
 Symbol GroundTermParser::term(BinOp op, Symbol a, Symbol b) {
-    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num && (op != BinOp::DIV || b.num() != 0)) {
+    if (a.type() == SymbolType::Num && b.type() == SymbolType::Num && isDefined(op, a.num(), b.num())) {
         return Symbol::createNum(Gringo::eval(op, a.num(), b.num()));
     }
     undefined_ = true;
@@ -51,19 +70,7 @@ Symbol GroundTermParser::term(BinOp op, Symbol a, Symbol b) {
 
 Symbol GroundTermParser::term(UnOp op, Symbol a) {
     if (a.type() == SymbolType::Num) {
-        int num = a.num();
-        switch (op) {
-            case UnOp::NEG: {
-                return Symbol::createNum(-num);
-            }
-            case UnOp::ABS: {
-                return Symbol::createNum(std::abs(num));
-            }
-            case UnOp::NOT: {
-                return Symbol::createNum(~num);
-            }
-        }
-        assert(false);
+        return Symbol::createNum(Gringo::eval(op, a.num()));
     } else if (op == UnOp::NEG && a.type() == SymbolType::Fun) {
         return a.flipSign();
     }
-- 
2.43.0


From c5ced5c7e518e06c6b655dc066d014b4b6c24868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 49/52] fix: wrap integers instead of overflowing in arithmetic
 terms

---
 libgringo/gringo/term.hh |  2 +
 libgringo/src/symbol.cc  |  2 +-
 libgringo/src/term.cc    | 91 ++++++++++++++++++++++------------------
 3 files changed, 54 insertions(+), 41 deletions(-)

diff --git a/libgringo/gringo/term.hh b/libgringo/gringo/term.hh
index b811f04..c442ab4 100644
--- a/libgringo/gringo/term.hh
+++ b/libgringo/gringo/term.hh
@@ -760,6 +760,8 @@ class LinearTerm : public Term {
     UVarTerm toVar();
     void invert();
     void add(int c);
+    //! Check if the coefficient does not overflow if multiplied with c.
+    bool canMul(int c) const;
     void mul(int c);
 
     bool addToLinearTerm(IETermVec &terms) const override;
diff --git a/libgringo/src/symbol.cc b/libgringo/src/symbol.cc
index 38039e4..a8e9a18 100644
--- a/libgringo/src/symbol.cc
+++ b/libgringo/src/symbol.cc
@@ -523,7 +523,7 @@ Symbol Symbol::flipSign() const {
     assert(type() == SymbolType::Fun || type() == SymbolType::Num);
     switch (symbolType_(rep_)) {
         case SymbolType_::Num: {
-            return Symbol::createNum(-num());
+            return Symbol::createNum(static_cast<int>(0U - static_cast<unsigned>(num())));
         }
         case SymbolType_::IdP: {
             return Symbol(setUpper(static_cast<uint16_t>(SymbolType_::IdN), rep_));
diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 156391e..9b135ec 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -24,6 +24,7 @@
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 
 #include <math/wide_integer/uintwide_t.h>
 
@@ -36,6 +37,25 @@
 
 namespace Gringo {
 
+namespace {
+
+// Note: Integer operations wrap around. The operations below are performed on
+// unsigned integers because overflows of signed integers are undefined.
+
+int wrapAdd(int a, int b) { return static_cast<int>(static_cast<unsigned>(a) + static_cast<unsigned>(b)); }
+
+int wrapSub(int a, int b) { return static_cast<int>(static_cast<unsigned>(a) - static_cast<unsigned>(b)); }
+
+int wrapMul(int a, int b) { return static_cast<int>(static_cast<unsigned>(a) * static_cast<unsigned>(b)); }
+
+int wrapNeg(int a) { return wrapSub(0, a); }
+
+int wrapDiv(int a, int b) { return b == -1 ? wrapNeg(a) : a / b; }
+
+int wrapMod(int a, int b) { return b == -1 ? 0 : a % b; }
+
+} // namespace
+
 using slack_t = math::wide_integer::int128_t;
 
 // {{{ definition of Defines
@@ -637,12 +657,11 @@ bool GLinearTerm::match(Symbol const &x) {
     if (x.type() != SymbolType::Num) {
         return false;
     }
-    int y = x.num();
-    y -= n_;
-    if (y % m_ != 0) {
+    int y = wrapSub(x.num(), n_);
+    if (wrapMod(y, m_) != 0) {
         return false;
     }
-    y /= m_;
+    y = wrapDiv(y, m_);
     if (*ref_) {
         return ref_->match(Symbol::createNum(y));
     }
@@ -740,10 +759,10 @@ bool GVarTerm::unify(GVarTerm &x) {
 int eval(UnOp op, int x) {
     switch (op) {
         case UnOp::NEG: {
-            return -x;
+            return wrapNeg(x);
         }
         case UnOp::ABS: {
-            return std::abs(x);
+            return x < 0 ? wrapNeg(x) : x;
         }
         case UnOp::NOT: {
             return ~x;
@@ -780,10 +799,10 @@ inline int ipow(int a, int b) {
     int r = 1;
     while (b > 0) {
         if ((b & 1) != 0) {
-            r *= a;
+            r = wrapMul(r, a);
         }
         b >>= 1;
-        a *= a;
+        a = wrapMul(a, a);
     }
     return r;
 }
@@ -826,24 +845,24 @@ int eval(BinOp op, int x, int y) {
             return x & y;
         }
         case BinOp::ADD: {
-            return x + y;
+            return wrapAdd(x, y);
         }
         case BinOp::SUB: {
-            return x - y;
+            return wrapSub(x, y);
         }
         case BinOp::MUL: {
-            return x * y;
+            return wrapMul(x, y);
         }
         case BinOp::MOD: {
             assert(y != 0 && "must be checked before call");
-            return x % y;
+            return wrapMod(x, y);
         }
         case BinOp::POW: {
             return ipow(x, y);
         }
         case BinOp::DIV: {
             assert(y != 0 && "must be checked before call");
-            return x / y;
+            return wrapDiv(x, y);
         }
     }
     assert(false);
@@ -1591,15 +1610,20 @@ bool LinearTerm::isVar() const { return m_ == 1 && n_ == 0; }
 LinearTerm::UVarTerm LinearTerm::toVar() { return std::move(var_); }
 
 void LinearTerm::invert() {
-    m_ *= -1;
-    n_ *= -1;
+    m_ = wrapNeg(m_);
+    n_ = wrapNeg(n_);
 }
 
-void LinearTerm::add(int c) { n_ += c; }
+void LinearTerm::add(int c) { n_ = wrapAdd(n_, c); }
+
+bool LinearTerm::canMul(int c) const {
+    auto m = static_cast<int64_t>(m_) * c;
+    return std::numeric_limits<int>::min() <= m && m <= std::numeric_limits<int>::max();
+}
 
 void LinearTerm::mul(int c) {
-    m_ *= c;
-    n_ *= c;
+    m_ = wrapMul(m_, c);
+    n_ = wrapMul(n_, c);
 }
 
 unsigned LinearTerm::projectScore() const { return 0; }
@@ -1656,7 +1680,7 @@ Symbol LinearTerm::eval(bool &undefined, Logger &log) const {
     Symbol value = var_->eval(undefined_arg, log);
     if (value.type() == SymbolType::Num) {
         undefined = undefined || undefined_arg;
-        return Symbol::createNum(m_ * value.num() + n_);
+        return Symbol::createNum(wrapAdd(wrapMul(m_, value.num()), n_));
     }
     if (!undefined_arg) {
         GRINGO_REPORT(log, Warnings::OperationUndefined) << loc() << ": info: operation undefined:\n"
@@ -1669,9 +1693,9 @@ Symbol LinearTerm::eval(bool &undefined, Logger &log) const {
 bool LinearTerm::match(Symbol const &val) const {
     if (val.type() == SymbolType::Num) {
         assert(m_ != 0);
-        int c(val.num() - n_);
-        if (c % m_ == 0) {
-            return var_->match(Symbol::createNum(c / m_));
+        int c(wrapSub(val.num(), n_));
+        if (wrapMod(c, m_) == 0) {
+            return var_->match(Symbol::createNum(wrapDiv(c, m_)));
         }
     }
     return false;
@@ -1819,20 +1843,7 @@ Symbol UnOpTerm::eval(bool &undefined, Logger &log) const {
     Symbol value = arg_->eval(undefined_arg, log);
     if (value.type() == SymbolType::Num) {
         undefined = undefined || undefined_arg;
-        int num = value.num();
-        switch (op_) {
-            case UnOp::NEG: {
-                return Symbol::createNum(-num);
-            }
-            case UnOp::ABS: {
-                return Symbol::createNum(std::abs(num));
-            }
-            case UnOp::NOT: {
-                return Symbol::createNum(~num);
-            }
-        }
-        assert(false);
-        return Symbol::createNum(0);
+        return Symbol::createNum(Gringo::eval(op_, value.num()));
     }
     if (op_ == UnOp::NEG && value.type() == SymbolType::Fun) {
         undefined = undefined || undefined_arg;
@@ -1851,7 +1862,7 @@ bool UnOpTerm::match(Symbol const &val) const {
         throw std::logic_error("Term::rewriteArithmetics must be called before Term::match");
     }
     if (val.type() == SymbolType::Num) {
-        return arg_->match(Symbol::createNum(-val.num()));
+        return arg_->match(Symbol::createNum(wrapNeg(val.num())));
     }
     if (val.type() == SymbolType::Fun) {
         return arg_->match(val.flipSign());
@@ -2032,7 +2043,7 @@ Term::SimplifyRet BinOpTerm::simplify(SimplifyState &state, bool positional, boo
             retRight.lin().add(retLeft.value().num());
             return retRight;
         }
-        if (op_ == BinOp::MUL) {
+        if (op_ == BinOp::MUL && retRight.lin().canMul(retLeft.value().num())) {
             retRight.lin().mul(retLeft.value().num());
             return retRight;
         }
@@ -2042,10 +2053,10 @@ Term::SimplifyRet BinOpTerm::simplify(SimplifyState &state, bool positional, boo
             return retLeft;
         }
         if (op_ == BinOp::SUB) {
-            retLeft.lin().add(-retRight.value().num());
+            retLeft.lin().add(wrapNeg(retRight.value().num()));
             return retLeft;
         }
-        if (op_ == BinOp::MUL) {
+        if (op_ == BinOp::MUL && retLeft.lin().canMul(retRight.value().num())) {
             // multiply
             retLeft.lin().mul(retRight.value().num());
             return retLeft;
-- 
2.43.0


From 47d8c461958d3f79a3af1ec5b591752024dacedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 50/52] fix: do not fold linear terms whose coefficient or
 offset overflows

---
 libgringo/gringo/term.hh |  4 +++-
 libgringo/src/term.cc    | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/libgringo/gringo/term.hh b/libgringo/gringo/term.hh
index c442ab4..6f36334 100644
--- a/libgringo/gringo/term.hh
+++ b/libgringo/gringo/term.hh
@@ -760,7 +760,9 @@ class LinearTerm : public Term {
     UVarTerm toVar();
     void invert();
     void add(int c);
-    //! Check if the coefficient does not overflow if multiplied with c.
+    //! Check if the coefficient and offset do not overflow in the respective operation below.
+    bool canAdd(int c) const;
+    bool canSubFrom(int c) const;
     bool canMul(int c) const;
     void mul(int c);
 
diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 9b135ec..57fbd3e 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -54,6 +54,8 @@ int wrapDiv(int a, int b) { return b == -1 ? wrapNeg(a) : a / b; }
 
 int wrapMod(int a, int b) { return b == -1 ? 0 : a % b; }
 
+bool isInt(int64_t a) { return std::numeric_limits<int>::min() <= a && a <= std::numeric_limits<int>::max(); }
+
 } // namespace
 
 using slack_t = math::wide_integer::int128_t;
@@ -1616,9 +1618,14 @@ void LinearTerm::invert() {
 
 void LinearTerm::add(int c) { n_ = wrapAdd(n_, c); }
 
+bool LinearTerm::canAdd(int c) const { return isInt(static_cast<int64_t>(n_) + c); }
+
+bool LinearTerm::canSubFrom(int c) const {
+    return isInt(-static_cast<int64_t>(m_)) && isInt(-static_cast<int64_t>(n_)) && isInt(static_cast<int64_t>(c) - n_);
+}
+
 bool LinearTerm::canMul(int c) const {
-    auto m = static_cast<int64_t>(m_) * c;
-    return std::numeric_limits<int>::min() <= m && m <= std::numeric_limits<int>::max();
+    return isInt(static_cast<int64_t>(m_) * c) && isInt(static_cast<int64_t>(n_) * c);
 }
 
 void LinearTerm::mul(int c) {
@@ -2034,11 +2041,11 @@ Term::SimplifyRet BinOpTerm::simplify(SimplifyState &state, bool positional, boo
         }
         return {Symbol::createNum(Gringo::eval(op_, left, right))};
     } else if (retLeft.type() == SimplifyRet::CONSTANT && retRight.type() == SimplifyRet::LINEAR) {
-        if (op_ == BinOp::ADD) {
+        if (op_ == BinOp::ADD && retRight.lin().canAdd(retLeft.value().num())) {
             retRight.lin().add(retLeft.value().num());
             return retRight;
         }
-        if (op_ == BinOp::SUB) {
+        if (op_ == BinOp::SUB && retRight.lin().canSubFrom(retLeft.value().num())) {
             retRight.lin().invert();
             retRight.lin().add(retLeft.value().num());
             return retRight;
@@ -2048,11 +2055,12 @@ Term::SimplifyRet BinOpTerm::simplify(SimplifyState &state, bool positional, boo
             return retRight;
         }
     } else if (retLeft.type() == SimplifyRet::LINEAR && retRight.type() == SimplifyRet::CONSTANT) {
-        if (op_ == BinOp::ADD) {
+        if (op_ == BinOp::ADD && retLeft.lin().canAdd(retRight.value().num())) {
             retLeft.lin().add(retRight.value().num());
             return retLeft;
         }
-        if (op_ == BinOp::SUB) {
+        if (op_ == BinOp::SUB && isInt(-static_cast<int64_t>(retRight.value().num())) &&
+            retLeft.lin().canAdd(-retRight.value().num())) {
             retLeft.lin().add(wrapNeg(retRight.value().num()));
             return retLeft;
         }
-- 
2.43.0


From 0dfaf9f6fb75832527b347e44def12e09df76711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 51/52] fix: separate colons from minus signs in text output

---
 libgringo/gringo/output/literal.hh |  5 +++++
 libgringo/src/output/literals.cc   | 23 +++++++++++++++++------
 libgringo/src/output/statements.cc | 13 +++++++------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/libgringo/gringo/output/literal.hh b/libgringo/gringo/output/literal.hh
index a71bdab..e713599 100644
--- a/libgringo/gringo/output/literal.hh
+++ b/libgringo/gringo/output/literal.hh
@@ -248,6 +248,11 @@ class LiteralId;
 using LitVec = std::vector<LiteralId>;
 using LitSpan = Potassco::Span<LiteralId>;
 
+//! Print the colon in front of a condition.
+//!
+//! Adds a space if the first literal in the condition starts with a minus sign.
+void printColon(PrintPlain out, LitSpan lits);
+
 class LiteralId {
   public:
     // NOLINTBEGIN(cppcoreguidelines-pro-type-union-access)
diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 5b56086..70f8fed 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -30,33 +30,44 @@
 #include <gringo/output/theory.hh>
 #include <gringo/utility.hh>
 
+#include <sstream>
+
 namespace Gringo {
 namespace Output {
 
 // {{{1 definition of functions to work with BodyAggregates
 
+void printColon(PrintPlain out, LitSpan lits) {
+    std::ostringstream first;
+    if (lits.size > 0) {
+        call(out.domain, *lits.first, &Literal::printPlain, PrintPlain{out.domain, first});
+    }
+    // Note: a colon followed by a classically negated atom must not be read as `:-`
+    out << (first.str().compare(0, 1, "-") == 0 ? ": " : ":");
+}
+
 namespace {
 
 void printLit(PrintPlain out, LiteralId lit) { call(out.domain, lit, &Literal::printPlain, out); }
 
 void printCond(PrintPlain out, TupleId tuple, Formula::value_type cond) {
     print_comma(out, out.domain.tuple(tuple), ",");
-    out << ":";
     auto rng = out.domain.clause(cond.first, cond.second);
+    printColon(out, rng);
     print_comma(out, rng, ",", [](PrintPlain out, LiteralId lit) { printLit(out, lit); });
 }
 
 void printCond(PrintPlain out, TupleId tuple, HeadFormula::value_type const &cond) {
     print_comma(out, out.domain.tuple(tuple), ",");
-    out << ":";
     if (cond.first.valid()) {
+        printColon(out, Potassco::toSpan(&cond.first, 1));
         printLit(out, cond.first);
     } else {
-        out << "#true";
+        out << ":#true";
     }
     if (cond.second.second > 0) {
-        out << ":";
         auto rng = out.domain.clause(cond.second.first, cond.second.second);
+        printColon(out, rng);
         print_comma(out, rng, ",", [](PrintPlain out, LiteralId lit) { printLit(out, lit); });
     }
 }
@@ -581,7 +592,7 @@ void ConjunctionElement::print(PrintPlain out) const {
             print_comma(out, heads_, "|", pc);
         }
         if (bodies_.front().second > 0) {
-            out << ":";
+            printColon(out, out.domain.clause(bodies_.front()));
             auto pc = [](PrintPlain out, ClauseId id) {
                 if (id.second == 0) {
                     out << "#true";
@@ -672,7 +683,7 @@ void DisjunctionElement::print(PrintPlain out) const {
             print_comma(out, heads_, "&", pc);
         }
         if (bodies_.front().second > 0) {
-            out << ":";
+            printColon(out, out.domain.clause(bodies_.front()));
             auto pc = [](PrintPlain out, ClauseId id) {
                 if (id.second == 0) {
                     out << "#true";
diff --git a/libgringo/src/output/statements.cc b/libgringo/src/output/statements.cc
index e13e122..038d8ca 100644
--- a/libgringo/src/output/statements.cc
+++ b/libgringo/src/output/statements.cc
@@ -226,7 +226,7 @@ void ShowStatement::print(PrintPlain out, char const *prefix) const {
     out << prefix;
     out << "#show " << term_;
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, Potassco::toSpan(body_));
     }
     printPlainBody(out, body_);
     out << ".\n";
@@ -285,7 +285,7 @@ void HeuristicStatement::print(PrintPlain out, char const *prefix) const {
     out << prefix << "#heuristic ";
     call(out.domain, atom_, &Literal::printPlain, out);
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, Potassco::toSpan(body_));
     }
     printPlainBody(out, body_);
     out << ".[" << value_ << "@" << priority_ << "," << toString(mod_) << "]\n";
@@ -318,7 +318,7 @@ void EdgeStatement::print(PrintPlain out, char const *prefix) const {
     out << prefix;
     out << "#edge(" << u_ << "," << v_ << ")";
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, Potassco::toSpan(body_));
     }
     printPlainBody(out, body_);
     out << ".\n";
@@ -541,7 +541,7 @@ class Atomtab : public Statement {
     void print(PrintPlain out, char const *prefix) const override {
         out << prefix << "#show " << (Symbol)*atom_;
         if (!atom_->fact()) {
-            out << ":" << (Symbol)*atom_;
+            out << (static_cast<Symbol>(*atom_).sig().sign() ? ": " : ":") << (Symbol)*atom_;
         }
         out << ".\n";
     }
@@ -652,7 +652,7 @@ Symtab::Symtab(Symbol symbol, LitVec body) : symbol_(symbol), body_(std::move(bo
 void Symtab::print(PrintPlain out, char const *prefix) const {
     out << prefix << "#show " << symbol_;
     if (!body_.empty()) {
-        out << ":";
+        printColon(out, Potassco::toSpan(body_));
     }
     printPlainBody(out, body_);
     out << ".\n";
@@ -697,7 +697,8 @@ void Minimize::print(PrintPlain out, char const *prefix) const {
     int i = 0;
     out << prefix << "#minimize{";
     auto f = [&i, this](PrintPlain &out, LitWeightVec::value_type const &x) {
-        out << x.second << "@" << priority_ << "," << i++ << ":";
+        out << x.second << "@" << priority_ << "," << i++;
+        printColon(out, Potassco::toSpan(&x.first, 1));
         call(out.domain, x.first, &Literal::printPlain, out);
     };
     print_comma(out, lits_, ";", f);
-- 
2.43.0


From 253760ae57012e2c21993e9e0739c3e4c259a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 52/52] fix: guards of aggregates with bounds outside of their
 range in text output

---
 libgringo/src/output/literals.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 70f8fed..d460a68 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -262,7 +262,13 @@ PlainBounds AggregateAtomRange::plainBounds() {
     // Case (c) can furthermore correspond to one or two != occurrences.
     PlainBounds cBounds;
     auto rng = range();
+    bool satisfiable = false;
     for (auto part : bounds) {
+        // Note: parts that do not intersect with the range are not relevant
+        if (Interval{std::max(rng.left, part.left), std::min(rng.right, part.right)}.empty()) {
+            continue;
+        }
+        satisfiable = true;
         if (rng.left < part.left) {
             // (a)
             if (cBounds.empty()) {
@@ -283,7 +289,7 @@ PlainBounds AggregateAtomRange::plainBounds() {
                 }
                 cBounds.back() = {Relation::NEQ, left};
                 if (left != right) {
-                    cBounds.back() = {Relation::NEQ, right};
+                    cBounds.emplace_back(Relation::NEQ, right);
                 }
             }
         }
@@ -292,6 +298,10 @@ PlainBounds AggregateAtomRange::plainBounds() {
             cBounds.emplace_back(part.right.inclusive ? Relation::LEQ : Relation::LT, part.right.bound);
         }
     }
+    if (!satisfiable) {
+        // Note: there is no value in the range that satisfies the bounds
+        cBounds.emplace_back(Relation::LT, Symbol::createInf());
+    }
     assert(cBounds.size() < 3);
     return cBounds;
 }
-- 
2.43.0

