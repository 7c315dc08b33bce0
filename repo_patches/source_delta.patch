From 629c71cdb4900ecec50801edeae328372920f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 01/39] fix: keep reference validation active after later
 includes

Including a file that is not a reference reset the flag that assumptions are
validated against the reference file. Also report a second reference in
release builds instead of only asserting in debug builds.
---
 src/state.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..e65d9c9 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -302,13 +302,20 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return false;
   }
 
+  if (isReference && d_hasReference)
+  {
+    EO_FATAL() << "Cannot use more than one reference";
+  }
   if (!markIncluded(inputPath))
   {
     return true;
   }
-  Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
+  if (isReference)
+  {
+    // including ordinary files does not impact the current reference
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From 548cde15651c93f50c6dcdd87d7c7e9cb473f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 02/39] fix: report a reference to a file that was already
 included

The reference was silently ignored and assumptions were not validated.
---
 src/state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index e65d9c9..b6c27d0 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -308,7 +308,9 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   }
   if (!markIncluded(inputPath))
   {
-    return true;
+    // a file cannot be used as a reference after it has been included, since
+    // none of its assertions would be recorded
+    return !isReference;
   }
   if (isReference)
   {
-- 
2.43.0


From 99ec659db7c8b23a653e0727b1d5ea6bcb3a0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 03/39] fix: validate assume against the reference inside local
 scopes

An assume inside the scope of an assume-push is never discharged, but was not
checked to be one of the referenced assertions.
---
 src/cmd_parser.cpp |  2 +-
 src/state.cpp      | 18 ++++++++----------
 src/state.h        |  2 +-
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..2b73719 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -117,7 +117,7 @@ bool CmdParser::parseNextCommand()
       // bind the assumption to (pf <proven>).
       Expr pt = d_state.mkProof(proven);
       d_eparser.bind(name, pt);
-      if (!d_state.addAssumption(proven))
+      if (!d_state.addAssumption(proven, (tok == Token::ASSUME_PUSH)))
       {
         std::stringstream ss;
         ss << "The assumption " << name << " was not part of the referenced assertions";
diff --git a/src/state.cpp b/src/state.cpp
index b6c27d0..b8cae11 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -458,21 +458,19 @@ void State::markDeleted(ExprValue* e)
   d_inGarbageCollection = false;
 }
 
-bool State::addAssumption(const Expr& a)
+bool State::addAssumption(const Expr& a, bool isPush)
 {
   d_assumptions.push_back(a);
-  if (d_hasReference)
+  // Assumptions introduced by assume-push are local and not validated. All
+  // others are never discharged, regardless of the assumption level.
+  if (d_hasReference && !isPush)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    Expr aa = a;
+    if (!d_referenceNf.isNull())
     {
-      Expr aa = a;
-      if (!d_referenceNf.isNull())
-      {
-        aa = mkExpr(Kind::APPLY, {d_referenceNf, a});
-      }
-      return d_referenceAsserts.find(aa.getValue()) != d_referenceAsserts.end();
+      aa = mkExpr(Kind::APPLY, {d_referenceNf, a});
     }
+    return d_referenceAsserts.find(aa.getValue()) != d_referenceAsserts.end();
   }
   return true;
 }
diff --git a/src/state.h b/src/state.h
index 7174e27..9def5e4 100644
--- a/src/state.h
+++ b/src/state.h
@@ -74,7 +74,7 @@ class State
   /** include file, possibly as a reference */
   bool includeFile(const std::string& s, bool isSignature, bool isReference, const Expr& referenceNf);
   /** add assumption */
-  bool addAssumption(const Expr& a);
+  bool addAssumption(const Expr& a, bool isPush);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
   /** Set type rule for literal kind k to t */
-- 
2.43.0


From b2b0c5aa74cfbbeb9c00e8489cffe90cb7ead574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 04/39] fix: step-pop closes exactly the scope of its
 assumption

With an intermediate push, step-pop only popped the scope of that push and the
discharged assumption remained usable. Likewise pop could close the scope of
a local assumption.
---
 src/cmd_parser.cpp |  4 ++++
 src/state.cpp      | 20 ++++++++++++++++++--
 src/state.h        |  4 ++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 2b73719..c0d8450 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -1013,6 +1013,10 @@ bool CmdParser::parseNextCommand()
         }
         else
         {
+          if (d_state.isAssumptionScope())
+          {
+            d_lex.parseError("Cannot pop the scope of a local assumption");
+          }
           d_state.popScope();
         }
       }
diff --git a/src/state.cpp b/src/state.cpp
index b8cae11..1579b17 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -201,6 +201,7 @@ void State::reset()
   d_symTable.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
+  d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
   if (d_plugin!=nullptr)
@@ -267,6 +268,8 @@ void State::pushAssumptionScope()
   pushScope();
   // remember assumption size
   d_assumptionsSizeCtx.push_back(d_assumptions.size());
+  // remember the scope of the assumption
+  d_assumptionsScopeCtx.push_back(d_declsSizeCtx.size());
 }
 
 void State::popAssumptionScope()
@@ -275,9 +278,22 @@ void State::popAssumptionScope()
   size_t lastSize = d_assumptionsSizeCtx.back();
   d_assumptionsSizeCtx.pop_back();
   d_assumptions.resize(lastSize);
-  // pop the parsing scope
-  popScope();
+  // Pop the parsing scope of the assumption, including all scopes that were
+  // pushed since then and not yet popped.
+  size_t scopeLevel = d_assumptionsScopeCtx.back();
+  d_assumptionsScopeCtx.pop_back();
+  while (d_declsSizeCtx.size() >= scopeLevel)
+  {
+    popScope();
+  }
+}
+
+bool State::isAssumptionScope() const
+{
+  return !d_assumptionsScopeCtx.empty()
+         && d_assumptionsScopeCtx.back() == d_declsSizeCtx.size();
 }
+
 bool State::includeFile(const std::string& s, bool isSignature)
 {
   return includeFile(s, isSignature, false, d_null);
diff --git a/src/state.h b/src/state.h
index 9def5e4..c15d66d 100644
--- a/src/state.h
+++ b/src/state.h
@@ -69,6 +69,8 @@ class State
   void pushAssumptionScope();
   /** Pop assumption scope */
   void popAssumptionScope();
+  /** Is the current scope the one of the current local assumption? */
+  bool isAssumptionScope() const;
   /** include file, if not already done, return false if error */
   bool includeFile(const std::string& s, bool isSignature);
   /** include file, possibly as a reference */
@@ -371,6 +373,8 @@ class State
   std::vector<Expr> d_assumptions;
   /** Context size */
   std::vector<size_t> d_assumptionsSizeCtx;
+  /** The number of scopes when each local assumption was introduced */
+  std::vector<size_t> d_assumptionsScopeCtx;
   //--------------------- expression info
   /** Map from expressions to constructor info */
   std::map<const ExprValue*, AppInfo> d_appData;
-- 
2.43.0


From 665c541f87f56ff71e5225c6cc915099e85b8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 05/39] fix: eo::extract of a bit-vector up to its width

An upper index equal to the width was not clipped to the last bit.
---
 src/literal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..744034d 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -363,7 +363,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From d1b89318d8669835b9c4e390f016ab7eb7e496fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 06/39] fix: eo::to_str does not evaluate on numerals that are
 no code points

The case fell through to the one of rationals and printed the numeral.
---
 src/literal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/literal.cpp b/src/literal.cpp
index 744034d..ac4049d 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -450,7 +450,9 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
               return Literal(String(vec));
             }
           }
+          // otherwise not a valid code point, does not evaluate
         }
+        break;
         case Kind::RATIONAL:return Literal(String(args[0]->toString()));
         case Kind::HEXADECIMAL:return Literal(String("#x" + args[0]->toString()));
         case Kind::BINARY:return Literal(String("#b" + args[0]->toString()));
-- 
2.43.0


From e075be61f88e2ecf1378cb464acd1e0935842fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 07/39] fix: print the leading zeros of hexadecimal literals

The literal #x0F was printed as #xf, which also is what eo::to_str returned.
---
 src/util/bitvector.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..c1c6904 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -50,6 +50,15 @@ std::string BitVector::toString(unsigned int base) const
     // special case, if size is zero, then print nothing
     return "";
   }
+  else if (base == 16)
+  {
+    // one digit per (possibly incomplete) group of four bits
+    size_t ndigits = (static_cast<size_t>(d_size) + 3) / 4;
+    if (ndigits > str.size())
+    {
+      return std::string(ndigits - str.size(), '0') + str;
+    }
+  }
   return str;
 }
 
-- 
2.43.0


From 317287e8a25ead1cda46c38db3284063685af420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 08/39] fix: list operators preserve the order of elements of
 left-associative lists

---
 src/type_checker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..73d9fe4 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1027,10 +1027,12 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   if (isLeft)
   {
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    // hargs are stored from the outermost application, we rebuild from the
+    // innermost one
+    for (auto rit = hargs.rbegin(); rit != hargs.rend(); ++rit)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
-      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
+      ret = d_state.mkExprInternal(Kind::APPLY, {c1, *rit});
     }
   }
   else
-- 
2.43.0


From bec17cedc3c908da50168475a22db063993447e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 09/39] fix: evaluate program cases whose body is ground but
 not yet evaluated

---
 src/type_checker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 73d9fe4..0e9dc23 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -692,7 +692,9 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
-                if (evaluated.isNull() || evaluated.isGround() || newCtx.empty())
+                if (evaluated.isNull()
+                    || (!evaluated.isEvaluatable()
+                        && (evaluated.isGround() || newCtx.empty())))
                 {
                   // if the evaluation can be shortcircuited, don't need to
                   // push a context
-- 
2.43.0


From 5b644eef2528c8cd7aab334413c0bc14eca9910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 10/39] fix: applications of undefined programs do not evaluate

---
 src/type_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 0e9dc23..823336e 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -901,7 +901,7 @@ Expr TypeChecker::evaluateProgramInternal(
     RuleStat* ps = &d_sts.d_pstats[hd];
     ps->d_count++;
   }
-  Assert(!prog.isNull());
+  // note that prog is null if the program is declared but not (yet) defined
   if (!prog.isNull())
   {
     Trace("type_checker") << "INTERPRET program " << children << std::endl;
-- 
2.43.0


From aa0bc76d4a2145425cf0e2c71b048e0fa900fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 11/39] fix: literal operators with a wrong number of arguments
 do not evaluate

---
 src/type_checker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 823336e..3930ed2 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1054,6 +1054,11 @@ Expr TypeChecker::evaluateLiteralOpInternal(
 {
   Assert (!args.empty());
   Trace("type_checker") << "EVALUATE-LIT " << k << " " << args << std::endl;
+  // applications with a wrong number of arguments do not evaluate
+  if (!checkArity(k, args.size()))
+  {
+    return d_null;
+  }
   // special cases: ITE may evaluate if non-ground
   switch (k)
   {
-- 
2.43.0


From 8d7cac87228d43e2fc664b5f1c502123254d870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 12/39] fix: string literals keep their non-printable
 characters

---
 src/util/string.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..4a36acb 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,18 +54,9 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable character
-  if (ch > 127 || ch < 32)
-  {
-    std::stringstream serr;
-    serr << "Illegal string character: \"" << ch
-         << "\", must use escape sequence";
-    //throw cvc5::internal::Exception(serr.str());
-  }
-  else
-  {
-    str.push_back(static_cast<unsigned>(ch));
-  }
+  // note that all characters are preserved, including those that are not
+  // printable, since otherwise distinct string literals would be identified
+  str.push_back(static_cast<unsigned>(ch));
 }
 
 std::vector<unsigned> String::toInternal(const std::string& s,
-- 
2.43.0


From c14456da0b96727030895b4b11cdd28f92fd1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 13/39] fix: eo::hash and eo::cmp are stable for terms that are
 constructed again

---
 src/state.cpp | 2 ++
 src/state.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 1579b17..22255dd 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1636,6 +1636,8 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  // ensure the hash remains stable by keeping the expression alive
+  d_hashList.emplace_back(const_cast<ExprValue*>(e));
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index c15d66d..773fb97 100644
--- a/src/state.h
+++ b/src/state.h
@@ -380,6 +380,8 @@ class State
   std::map<const ExprValue*, AppInfo> d_appData;
   /** Map from expressions to hash */
   std::map<const ExprValue*, size_t> d_hashMap;
+  /** The expressions that have been hashed, to ensure their ref count */
+  std::vector<Expr> d_hashList;
   /** Mapping expressions to types */
   std::map<const ExprValue*, Expr> d_typeCache;
   /** Hash counter */
-- 
2.43.0


From 8ed3654972bcbfbe52029990bf611d82f2c87bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 14/39] fix: report proof rules that are declared in a local
 scope

---
 src/state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 22255dd..2e20e6d 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1282,8 +1282,8 @@ bool State::bind(const std::string& name, const Expr& e)
   if (d_opts.d_ruleSymTable && e.getKind() == Kind::PROOF_RULE)
   {
     // don't bind at non-global scope
-    Assert (d_declsSizeCtx.empty());
-    if (d_ruleSymTable.find(name)!=d_ruleSymTable.end())
+    if (!d_declsSizeCtx.empty()
+        || d_ruleSymTable.find(name)!=d_ruleSymTable.end())
     {
       return false;
     }
-- 
2.43.0


From fc1880f060c27e6331d121da07fd89944fdf892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 15/39] fix: reject arguments and premises for rules that take
 none

---
 src/state.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 2e20e6d..be96960 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1558,6 +1558,15 @@ bool State::notifyStep(const std::string& name,
     }
     if (children.size() > 1)
     {
+      if (children[0].getKind() != Kind::PROGRAM_CONST)
+      {
+        if (err)
+        {
+          (*err) << "The rule does not expect arguments or premises"
+                 << std::endl;
+        }
+        return false;
+      }
       // evaluate the program app
       result = d_tc.evaluateProgramApp(children);
       // if error stream is provided, print details on the failure
-- 
2.43.0


From c0ae67bfa06076c3edbb849310c768ab377eb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 16/39] fix: only use overloads of symbols whose overloaded
 declaration is in scope

---
 src/state.cpp | 33 +++++++++++++++++++++++++--------
 src/state.h   |  7 +++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index be96960..ae81f7f 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -688,12 +688,11 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         // must call mkExpr again, since we may auto-evaluate
         return mkExpr(ai->d_kind, achildren);
       }
-      if (ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(ai, hd);
+      if (ov != nullptr)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
-        Expr ret = getOverloadInternal(ov, children, nullptr, true);
+        Expr ret = getOverloadInternal(*ov, children, nullptr, true);
         if (!ret.isNull())
         {
           Trace("overload") << "...found overload " << ret << std::endl;
@@ -837,13 +836,12 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       {
         dummyChildren.emplace_back(mkSymbol(Kind::CONST, "tmp", t));
       }
-      if (ai!=nullptr && ai->d_isOverloaded)
+      const std::vector<Expr>* ov = getOverloads(ai, vchildren[0]);
+      if (ov != nullptr)
       {
         Trace("overload") << "...overloaded" << std::endl;
-        std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-        Assert (ov.size()>=2);
         reto = getOverloadInternal(
-            ov, dummyChildren, ftype.second.getValue(), false);
+            *ov, dummyChildren, ftype.second.getValue(), false);
       }
       else
       {
@@ -1803,6 +1801,25 @@ bool State::markConstructorKind(const Expr& v, Attr a, const Expr& cons)
   return true;
 }
 
+const std::vector<Expr>* State::getOverloads(const AppInfo* ai,
+                                             const ExprValue* e) const
+{
+  if (ai == nullptr || !ai->d_isOverloaded)
+  {
+    return nullptr;
+  }
+  std::map<std::string, std::vector<Expr>>::const_iterator it =
+      d_overloads.find(ai->d_overloadName);
+  // The flag may be out of date if the scope of the overloaded declaration has
+  // ended, or if the symbol has been declared again since then.
+  if (it == d_overloads.end() || it->second.size() < 2
+      || it->second.back().getValue() != e)
+  {
+    return nullptr;
+  }
+  return &it->second;
+}
+
 Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
                                 const std::vector<Expr>& children,
                                 const ExprValue* retType,
diff --git a/src/state.h b/src/state.h
index 773fb97..b7c91fe 100644
--- a/src/state.h
+++ b/src/state.h
@@ -331,6 +331,13 @@ class State
                            const std::vector<Expr>& children,
                            const ExprValue* retType = nullptr,
                            bool retApply = false);
+  /**
+   * Get the overloads for expression e, whose internal data is ai. Returns
+   * null if e is not currently the most recent declaration of an overloaded
+   * symbol.
+   */
+  const std::vector<Expr>* getOverloads(const AppInfo* ai,
+                                        const ExprValue* e) const;
   /** Get the internal data for expression e. */
   AppInfo* getAppInfo(const ExprValue* e);
   const AppInfo* getAppInfo(const ExprValue* e) const;
-- 
2.43.0


From ae1d5d4e258f9fa85b1e7e86ec36a9ba4dc95425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 17/39] fix: infer the nil terminator of an overload from that
 overload

---
 src/state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index ae81f7f..bc23c7a 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1846,7 +1846,10 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     if (ai != nullptr)
     {
       Trace("overload") << "...has property " << ai->d_attrCons << std::endl;
-      Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
+      // note that parameters are inferred based on the current overload
+      std::vector<Expr> ochildren(children);
+      ochildren[0] = hde;
+      Expr consTerm = d_tc.computeConstructorTermInternal(ai, ochildren);
       x = mkApplyAttr(ai, vchildren, consTerm);
     }
     if (x.isNull())
-- 
2.43.0


From 38be37b4d516cab86ab6053a831e2514af720982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 18/39] fix: applications of overloaded definitions and
 programs are reduced

---
 src/state.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index bc23c7a..07199d4 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -692,14 +692,21 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       if (ov != nullptr)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
-        Expr ret = getOverloadInternal(*ov, children, nullptr, true);
-        if (!ret.isNull())
+        Expr op = getOverloadInternal(*ov, children, nullptr, false);
+        if (op.isNull())
         {
-          Trace("overload") << "...found overload " << ret << std::endl;
-          return ret;
+          Warning() << "No overload found when constructing application "
+                    << children << std::endl;
+        }
+        else if (op.getValue() != hd)
+        {
+          Trace("overload") << "...found overload " << op << std::endl;
+          // construct the application of the operator we found, which e.g.
+          // beta-reduces if it is a macro, or evaluates if it is a program
+          std::vector<Expr> ochildren(children);
+          ochildren[0] = op;
+          return mkExpr(k, ochildren);
         }
-        Warning() << "No overload found when constructing application "
-                  << children << std::endl;
       }
       // Compute the "constructor term" for the operator, which may involve
       // type inference. We store the constructor term in consTerm and operator
@@ -1854,8 +1861,10 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     }
     if (x.isNull())
     {
-      x = Expr(vchildren.size() > 2 ? mkApplyInternal(vchildren)
-                                    : mkExprInternal(Kind::APPLY, vchildren));
+      // programs are not curried
+      bool isCurried = vchildren.size() > 2 && hd->getKind() != Kind::PROGRAM_CONST;
+      x = Expr(isCurried ? mkApplyInternal(vchildren)
+                         : mkExprInternal(Kind::APPLY, vchildren));
     }
     Expr t = d_tc.getType(x);
 
-- 
2.43.0


From 3c4b20b86011bace520284b3709f9d36157044c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 19/39] fix: reset keeps the builtin symbols and removes rules,
 overloads and literal types

---
 src/state.cpp        | 22 +++++++++++++++++++++-
 src/state.h          |  2 ++
 src/type_checker.cpp |  8 ++++++++
 src/type_checker.h   |  2 ++
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 07199d4..13c743e 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -192,18 +192,38 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+
+  // remember the builtin symbols, which are restored when we reset
+  d_builtinSymTable = d_symTable;
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
+  // the builtin symbols remain available
+  d_symTable = d_builtinSymTable;
+  d_ruleSymTable.clear();
+  d_overloads.clear();
+  d_overloadedDecls.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
+  // The types of literals are declared again. Hence we also forget the types
+  // of all terms that have been computed based on them.
+  d_tc.resetLiteralTypeRules();
+  std::map<const ExprValue*, Expr> typeCache;
+  for (const std::pair<const ExprValue* const, Expr>& t : d_typeCache)
+  {
+    Kind k = t.first->getKind();
+    if (isSymbol(k) || k == Kind::BUILTIN_CONST)
+    {
+      typeCache.insert(t);
+    }
+  }
+  d_typeCache.swap(typeCache);
   if (d_plugin!=nullptr)
   {
     d_plugin->reset();
diff --git a/src/state.h b/src/state.h
index b7c91fe..74bb011 100644
--- a/src/state.h
+++ b/src/state.h
@@ -350,6 +350,8 @@ class State
   //--------------------- parsing state
   /** The symbol table, mapping symbols */
   std::map<std::string, Expr> d_symTable;
+  /** The initial symbol table, mapping builtin symbols */
+  std::map<std::string, Expr> d_builtinSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
   /** The (canonical) bound variables for binders */
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 3930ed2..5fe1867 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -36,6 +36,14 @@ TypeChecker::~TypeChecker()
 {
 }
 
+void TypeChecker::resetLiteralTypeRules()
+{
+  for (std::pair<const Kind, Expr>& r : d_literalTypeRules)
+  {
+    r.second = d_null;
+  }
+}
+
 void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
 {
   Trace("type_checker") << "**** setLiteralTypeRule " << k << " to " << t
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..4dab926 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,6 +45,8 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
+  /** Forget the type rules of all literal kinds */
+  void resetLiteralTypeRules();
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0


From f51ba8c3af95de2a41ddb51ab4d8c58af806c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 20/39] fix: proof rules outlive the scope and reset, since the
 answer depends on them

---
 src/state.cpp | 6 ++++++
 src/state.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 13c743e..e0a5ca4 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1303,6 +1303,12 @@ bool State::bind(const std::string& name, const Expr& e)
   {
     d_plugin->bind(name, e);
   }
+  if (e.getKind() == Kind::PROOF_RULE)
+  {
+    // Statistics and whether the rule is marked :sorry are stored per rule,
+    // which hence must outlive its scope.
+    d_ruleList.emplace_back(e);
+  }
   // if using a separate symbol table for rules
   if (d_opts.d_ruleSymTable && e.getKind() == Kind::PROOF_RULE)
   {
diff --git a/src/state.h b/src/state.h
index 74bb011..8c567d0 100644
--- a/src/state.h
+++ b/src/state.h
@@ -411,6 +411,8 @@ class State
   Filepath d_inputFile;
   /** The proof rules marked :sorry */
   std::unordered_set<const ExprValue*> d_pfrSorry;
+  /** All proof rules that have been bound, to ensure their ref count */
+  std::vector<Expr> d_ruleList;
   /** Cache of files included */
   std::set<Filepath> d_includes;
   /** Have we parsed a reference file to check assumptions? */
-- 
2.43.0


From 8680a33c123490464f4ea475db12ad6134708c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 21/39] fix: -/5 and -.5 are not literals, since they have no
 digit before the separator

---
 src/lexer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..466d985 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -411,8 +411,9 @@ Token Lexer::tokenizeCurrentSymbol() const
           {
             continue;
           }
-          else if (i+1<tsize && ret==Token::INTEGER_LITERAL)
+          else if (i > 1 && i + 1 < tsize && ret == Token::INTEGER_LITERAL)
           {
+            // at least one digit must occur before the dot or slash
             if (d_token[i]=='.')
             {
               ret = Token::DECIMAL_LITERAL;
-- 
2.43.0


From c411328d5202582170b99a931459d9b87ee120db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 22/39] fix: empty premise list of a constructor with no
 attribute is an error

---
 src/state.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index e0a5ca4..ed72c11 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1559,8 +1559,7 @@ bool State::notifyStep(const std::string& name,
       {
         // the nil terminator if applied to empty list
         AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic->d_attrCons;
-        if (isListNilAttr(ck))
+        if (aic != nullptr && isListNilAttr(aic->d_attrCons))
         {
           ap = aic->d_attrConsTerm;
         }
-- 
2.43.0


From 08789ec5d4dde5c80103f38ac2cea35b823d4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 23/39] fix: define-fun in a reference reports that lambda is
 not a binder

---
 src/cmd_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index c0d8450..61e3e4a 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -628,6 +628,12 @@ bool CmdParser::parseNextCommand()
           {
             d_lex.parseError("Expected symbol 'lambda' to be defined when parsing define-fun.");
           }
+          if (d_state.getConstructorKind(lambda.getValue()) != Attr::BINDER)
+          {
+            d_lex.parseError(
+                "Expected symbol 'lambda' to be defined as a binder when "
+                "parsing define-fun.");
+          }
           Expr bvl = d_state.mkBinderList(lambda.getValue(), vars);
           rhs = d_state.mkExpr(Kind::APPLY, {lambda, bvl, rhs});
           std::vector<Expr> types;
-- 
2.43.0


From 6b91441852d03f71d8830f56ee1dd8134aeae43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 24/39] fix: binding an overloaded symbol to another name in a
 scope does not lose its overloads

---
 src/expr_info.h | 20 +++++++++-----------
 src/state.cpp   | 35 ++++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/expr_info.h b/src/expr_info.h
index 97634e8..95ccea3 100644
--- a/src/expr_info.h
+++ b/src/expr_info.h
@@ -27,7 +27,7 @@ using AttrMap = std::map<Attr, std::vector<Expr>>;
 class AppInfo
 {
 public:
-  AppInfo() : d_attrCons( ), d_kind(Kind::NONE), d_isOverloaded(false) {}
+  AppInfo() : d_attrCons( ), d_kind(Kind::NONE) {}
   /** Attribute */
   Attr d_attrCons;
   /** Attribute */
@@ -35,17 +35,15 @@ public:
   /** Associated kind */
   Kind d_kind;
   /**
-   * Whether this symbol is overloaded. The overloads for this symbol are
-   * maintained in State::d_overloads[d_overloadName].
+   * The names this symbol was bound to while they were already bound, in the
+   * order of these bindings. If non-empty, the symbol may be overloaded, where
+   * its overloads are maintained in State::d_overloads for each such name.
+   * Note names are required to be stored explicitly to handle cases where
+   * symbols are bound to terms that do not have their given name, e.g.
+   * (define s () (+ 1 1)) maps "s" to the term (+ 1 1), which does not have
+   * the name "s".
    */
-  bool d_isOverloaded;
-  /**
-   * The name of the symbol, if overloaded. Note this is required to be
-   * stored explicitly to handle cases where symbols are bound to terms that do
-   * not have their given name, e.g. (define s () (+ 1 1)) maps "s" to the term
-   * (+ 1 1), which does not have the name "s".
-   */
-  std::string d_overloadName;
+  std::vector<std::string> d_overloadNames;
 };
 
 }  // namespace ethos
diff --git a/src/state.cpp b/src/state.cpp
index ed72c11..8e74328 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -267,6 +267,16 @@ void State::popScope()
       // we always have at least 2 overloads
       Assert (ov.size()>=2);
       // was overloaded, we revert the binding
+      AppInfo* ai = getAppInfo(ov.back().getValue());
+      Assert(ai != nullptr);
+      for (size_t j = ai->d_overloadNames.size(); j > 0; j--)
+      {
+        if (ai->d_overloadNames[j - 1] == d_decls[i])
+        {
+          ai->d_overloadNames.erase(ai->d_overloadNames.begin() + (j - 1));
+          break;
+        }
+      }
       ov.pop_back();
       Expr tmp = ov.back();
       its->second = tmp;
@@ -1328,8 +1338,7 @@ bool State::bind(const std::string& name, const Expr& e)
     Trace("overload") << "** overload: " << name << std::endl;
     // if already bound, mark as overloaded
     AppInfo& ain = d_appData[e.getValue()];
-    ain.d_isOverloaded = true;
-    ain.d_overloadName = name;
+    ain.d_overloadNames.push_back(name);
     std::vector<Expr>& ov = d_overloads[name];
     if (ov.empty())
     {
@@ -1836,20 +1845,24 @@ bool State::markConstructorKind(const Expr& v, Attr a, const Expr& cons)
 const std::vector<Expr>* State::getOverloads(const AppInfo* ai,
                                              const ExprValue* e) const
 {
-  if (ai == nullptr || !ai->d_isOverloaded)
+  if (ai == nullptr)
   {
     return nullptr;
   }
-  std::map<std::string, std::vector<Expr>>::const_iterator it =
-      d_overloads.find(ai->d_overloadName);
-  // The flag may be out of date if the scope of the overloaded declaration has
-  // ended, or if the symbol has been declared again since then.
-  if (it == d_overloads.end() || it->second.size() < 2
-      || it->second.back().getValue() != e)
+  // prefer the most recent name it was bound to
+  for (size_t i = ai->d_overloadNames.size(); i > 0; i--)
   {
-    return nullptr;
+    std::map<std::string, std::vector<Expr>>::const_iterator it =
+        d_overloads.find(ai->d_overloadNames[i - 1]);
+    // The name does not stand for the symbol if it has been declared again
+    // since then.
+    if (it != d_overloads.end() && it->second.size() >= 2
+        && it->second.back().getValue() == e)
+    {
+      return &it->second;
+    }
   }
-  return &it->second;
+  return nullptr;
 }
 
 Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
-- 
2.43.0


From 1308269cc9e62c2e7af2e0d5e88e5724cfea3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 25/39] fix: ->, _ and as applied to no arguments are errors

---
 src/literal.cpp |  2 +-
 src/state.cpp   | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index ac4049d..c09dc54 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -103,7 +103,7 @@ std::string Literal::toString() const
     case Kind::STRING: return d_str.toString();
     case Kind::NONE: break;
     default:
-      Assert(isSymbol(d_kind));
+      Assert(isSymbol(d_kind) || d_kind == Kind::BUILTIN_CONST);
       return d_sym;
       break;
   }
diff --git a/src/state.cpp b/src/state.cpp
index 8e74328..48cf7ad 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -697,6 +697,12 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       if (ai->d_kind!=Kind::NONE)
       {
         Trace("state-debug") << "Process builtin app " << ai->d_kind << std::endl;
+        if (children.size() == 1
+            && (ai->d_kind == Kind::FUNCTION_TYPE || ai->d_kind == Kind::APPLY))
+        {
+          // no arguments, which fails to type check
+          return Expr(mkExprInternal(Kind::APPLY, vchildren));
+        }
         if (ai->d_kind==Kind::FUNCTION_TYPE)
         {
           // functions (from parsing) are flattened here
@@ -845,9 +851,8 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
   else if (k == Kind::AS_RETURN)
   {
     // (as nil (List Int)) --> (_ nil (List Int))
-    Attr ck = getConstructorKind(vchildren[0]);
-    if ((ck == Attr::AMB_DATATYPE_CONSTRUCTOR || ck == Attr::AMB)
-        && children.size() == 2)
+    Attr ck = children.size() == 2 ? getConstructorKind(vchildren[0]) : Attr::NONE;
+    if (ck == Attr::AMB_DATATYPE_CONSTRUCTOR || ck == Attr::AMB)
     {
       Trace("overload") << "...type arg for ambiguous constructor" << std::endl;
       return mkExpr(Kind::APPLY_OPAQUE, {children[0], children[1]});
-- 
2.43.0


From 89666da2bc7263434163878598a2adaa12dc253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 26/39] fix: including a file that does not exist is an error
 at that command

---
 src/state.cpp           | 4 ++--
 src/util/filesystem.cpp | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 48cf7ad..9bc70d0 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -341,12 +341,12 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     inputPath = d_inputFile.parentPath();
     inputPath.append(file);
   }
-  inputPath.makeCanonical();
-
+  // must check this first, since only existing paths have a canonical form
   if (!inputPath.exists())
   {
     return false;
   }
+  inputPath.makeCanonical();
 
   if (isReference && d_hasReference)
   {
diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index b9de792..fb0a606 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -8,7 +8,10 @@
  ******************************************************************************/
 #include "util/filesystem.h"
 
-#include <fstream>
+#ifndef USE_CPP_FILESYSTEM
+#include <sys/stat.h>
+#endif
+
 #include <sstream>
 #include <vector>
 
@@ -75,8 +78,8 @@ bool Filepath::isAbsolute() const
 bool Filepath::exists() const
 {
 #ifndef USE_CPP_FILESYSTEM
-  std::ifstream f;
-  return f.good();
+  struct stat st;
+  return stat(rawPath.c_str(), &st) == 0 && !S_ISDIR(st.st_mode);
 #else
   return std::filesystem::exists(rawPath)
          && std::filesystem::is_regular_file(rawPath);
-- 
2.43.0


From 46c24a6a54e65a91a418ae7dbe1c65dd9482666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 27/39] fix: a file included by an absolute and a relative path
 or a link is included once

---
 src/state.cpp           |  6 ++++--
 src/util/filesystem.cpp | 17 +++++++++++++++++
 src/util/filesystem.h   |  6 ++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 9bc70d0..3751d96 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -402,12 +402,14 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
 
 bool State::markIncluded(const Filepath& s)
 {
-  std::set<Filepath>::iterator it = d_includes.find(s);
+  // a file is the same file regardless of the path used to include it
+  Filepath rp = s.realPath();
+  std::set<Filepath>::iterator it = d_includes.find(rp);
   if (it != d_includes.end())
   {
     return false;
   }
-  d_includes.insert(s);
+  d_includes.insert(rp);
   return true;
 }
 
diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index fb0a606..9adcfda 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -12,6 +12,7 @@
 #include <sys/stat.h>
 #endif
 
+#include <cstdlib>
 #include <sstream>
 #include <vector>
 
@@ -188,6 +189,22 @@ void Filepath::makeCanonical()
 #endif
 }
 
+Filepath Filepath::realPath() const
+{
+#ifndef USE_CPP_FILESYSTEM
+  char* rp = realpath(rawPath.c_str(), nullptr);
+  if (rp == nullptr)
+  {
+    return *this;
+  }
+  Filepath ret((std::string(rp)));
+  free(rp);
+  return ret;
+#else
+  return Filepath(std::filesystem::canonical(rawPath));
+#endif
+}
+
 Filepath Filepath::parentPath() const
 {
 #ifndef USE_CPP_FILESYSTEM
diff --git a/src/util/filesystem.h b/src/util/filesystem.h
index 6a10fdb..b253022 100644
--- a/src/util/filesystem.h
+++ b/src/util/filesystem.h
@@ -73,6 +73,12 @@ class Filepath
    */
   void makeCanonical();
 
+  /**
+   * @return The absolute path of this existing file where symbolic links are
+   * resolved, which is the same for all paths to the same file.
+   */
+  Filepath realPath() const;
+
   /**
    * @return The current path, but with the filename cut off.
    */
-- 
2.43.0


From 207aed74a1dd0f2c2f3567eb23fe38b0cea95b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 28/39] fix: a literal operator applied to no arguments is an
 unevaluated term

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9f32d9b..c68a8fb 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -67,7 +67,9 @@ void ExprValue::computeFlags()
     std::vector<ExprValue*>& children = cur->d_children;
     if (children.empty())
     {
-      bool isEval = (ck == Kind::PROGRAM_CONST || ck == Kind::ANY);
+      // literal operator kinds are evaluatable, also without arguments
+      bool isEval = (ck == Kind::PROGRAM_CONST || ck == Kind::ANY
+                     || isLiteralOp(ck));
       bool isNonGround = (ck == Kind::PARAM || ck == Kind::ANY);
       cur->setFlag(Flag::IS_EVAL, isEval);
       cur->setFlag(Flag::IS_NON_GROUND, isNonGround);
-- 
2.43.0


From b9c6139f12a05dec42d752b7b3c1824d7bd5e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:30 +0000
Subject: [PATCH 29/39] fix: a step that gives nothing to a rule with arguments
 is reported as an error

---
 src/state.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 3751d96..52d413b 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1646,6 +1646,14 @@ bool State::notifyStep(const std::string& name,
     }
     else
     {
+      if (children[0].getKind() == Kind::PROGRAM_CONST)
+      {
+        if (err)
+        {
+          (*err) << "The rule expects arguments or premises" << std::endl;
+        }
+        return false;
+      }
       // otherwise a nullary rule
       result = children[0];
     }
-- 
2.43.0


From c94e7b510acb9a373c6a0499f3e17785dd3aa49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 30/39] fix: the open assumption named when a file ends is that
 of its own scope

---
 src/state.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 52d413b..2abb870 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -385,11 +385,14 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   Trace("state") << "...finished" << std::endl;
   if (getAssumptionLevel()!=0)
   {
-    Assert(!d_declsSizeCtx.empty() && d_declsSizeCtx.back() < d_decls.size());
+    // the assumption is the first symbol of its scope, which is not necessarily
+    // the innermost one
+    size_t declIndex = d_declsSizeCtx[d_assumptionsScopeCtx.back() - 1];
+    Assert(declIndex < d_decls.size());
     EO_FATAL() << "Including file " << inputPath.getRawPath()
                << " did not preserve assumption scope. The most recent open "
                   "assumption was "
-               << d_decls[d_declsSizeCtx.back()] << ".";
+               << d_decls[declIndex] << ".";
   }
   if (d_plugin != nullptr)
   {
-- 
2.43.0


From e61266bba041eab627e816668792743f14196e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 31/39] fix: negative and too large numerals are no arities or
 scope counts

---
 src/expr_parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..fc7f6d3 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -924,10 +924,13 @@ uint32_t ExprParser::tokenStrToUnsigned()
   {
     d_lex.parseError("Numeral with leading zeroes are forbidden");
   }
-  uint32_t result;
+  uint32_t result = 0;
   std::stringstream ss;
   ss << d_lex.tokenStr();
-  ss >> result;
+  if (token[0] == '-' || !(ss >> result))
+  {
+    d_lex.parseError("Expected a non-negative numeral that fits 32 bits");
+  }
   return result;
 }
 
-- 
2.43.0


From bc54eb3937fb508470b1274c4ed09e5f08f20255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:36 +0000
Subject: [PATCH 32/39] fix: evaluating a literal operator without arguments is
 no internal error

---
 src/type_checker.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 5fe1867..1075fcb 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1060,7 +1060,6 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
 Expr TypeChecker::evaluateLiteralOpInternal(
     Kind k, const std::vector<ExprValue*>& args)
 {
-  Assert (!args.empty());
   Trace("type_checker") << "EVALUATE-LIT " << k << " " << args << std::endl;
   // applications with a wrong number of arguments do not evaluate
   if (!checkArity(k, args.size()))
-- 
2.43.0


From 29e2cb20c720f8d7cc43cde6cf81642b5e4407de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 33/39] fix: do not drop other terms from the expression trie
 when deleting a term

Deleting a term removed the subtree of the trie that leads to it, even if that
subtree also stored terms whose children are a prefix or an extension of the
ones of the deleted term (and then wrote to the deleted subtree). Such terms
were hence constructed again as a different term, and deleting both of them
corrupted the trie.
---
 src/expr_trie.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..31528ae 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -39,31 +39,31 @@ public:
   void remove(const std::vector<ExprValue*>& children)
   {
     ExprTrie* et = this;
+    // the candidate trie to delete from, which is null if no subtree can be
+    // deleted
     ExprTrie* etd = nullptr;
     std::map<const ExprValue*, ExprTrie>::iterator itet;
     std::map<const ExprValue*, ExprTrie>::iterator itetd;
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      Assert (itet!=et->d_children.end());
+      // We must keep the trie we are traversing if it is the root, it stores
+      // data itself, or it has other children.
+      if (etd == nullptr || et->d_data != nullptr || et->d_children.size() > 1)
       {
-        // etd is the candidate trie to delete from
         etd = et;
         itetd = itet;
       }
-      Assert (itet!=et->d_children.end());
-      if (et->d_children.size() > 1)
-      {
-        etd = nullptr;
-      }
       et = &itet->second;
     }
-    // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    et->d_data = nullptr;
+    // delete the subtree for which et->d_data occurs in a single path, unless
+    // it also stores data for other children that extend this path
+    if (etd != nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From 653bdb28cee8e3094eecd1edd168131959428bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 34/39] fix: do not assert that the combining operator of a
 chainable term can be inferred

The operator of :chainable, :pairwise and :arg-list may be a macro that is
neither a function nor a constant, in which case the application cannot be
desugared. The debug build aborted on such input.
---
 src/state.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 2abb870..8d7af50 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1170,7 +1170,6 @@ Expr State::mkApplyAttr(AppInfo* ai,
     case Attr::CHAINABLE:
     {
       std::vector<Expr> cchildren;
-      Assert(!consTerm.isNull());
       cchildren.push_back(consTerm);
       std::vector<ExprValue*> cc{hd, nullptr, nullptr};
       for (size_t i = 1, nchild = vchildren.size() - 1; i < nchild; i++)
@@ -1184,6 +1183,11 @@ Expr State::mkApplyAttr(AppInfo* ai,
         // no need to chain
         return cchildren[1];
       }
+      if (consTerm.isNull())
+      {
+        // failed to infer the operator that combines them
+        return d_null;
+      }
       // note this could loop
       return mkExpr(Kind::APPLY, cchildren);
     }
@@ -1191,7 +1195,6 @@ Expr State::mkApplyAttr(AppInfo* ai,
     case Attr::PAIRWISE:
     {
       std::vector<Expr> cchildren;
-      Assert(!consTerm.isNull());
       cchildren.push_back(consTerm);
       std::vector<ExprValue*> cc{hd, nullptr, nullptr};
       for (size_t i = 1, nchild = vchildren.size(); i < nchild - 1; i++)
@@ -1208,6 +1211,11 @@ Expr State::mkApplyAttr(AppInfo* ai,
         // no need to chain
         return cchildren[1];
       }
+      if (consTerm.isNull())
+      {
+        // failed to infer the operator that combines them
+        return d_null;
+      }
       // note this could loop
       return mkExpr(Kind::APPLY, cchildren);
     }
@@ -1224,8 +1232,12 @@ Expr State::mkApplyAttr(AppInfo* ai,
       }
       else
       {
+        if (consTerm.isNull())
+        {
+          // failed to infer the operator that constructs the list
+          return d_null;
+        }
         std::vector<Expr> cchildren;
-        Assert(!consTerm.isNull());
         cchildren.push_back(consTerm);
         for (size_t i = 1, nchild = vchildren.size(); i < nchild; i++)
         {
-- 
2.43.0


From 563aa100774e6cfb6c582fab86b244f6237c6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 35/39] fix: a parametric datatype declared by declare-datatype
 stays bound after its parameters go out of scope

---
 src/expr_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index fc7f6d3..47c72ae 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -815,6 +815,12 @@ bool ExprParser::parseDatatypesDef(
     {
       d_lex.eatToken(Token::RPAREN);
       d_state.popScope();
+      // if the datatype was bound after its parameters, it went out of scope
+      // with them
+      if (i >= arities.size() && !d_state.bind(dnames[i], dt))
+      {
+        return false;
+      }
     }
     for (std::pair<std::string, Expr>& b : toBind)
     {
-- 
2.43.0


From 141e3f0868af0060e9119f1ce7561a6aee69e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 36/39] fix: declare-datatypes is rejected if it has fewer
 bodies than datatypes

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 47c72ae..509cd3f 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -832,7 +832,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0


From 89a5fb52f145a8eea11c29193a8a9e0036cccfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 37/39] fix: a byte 0xff is not the end of the file

---
 src/lexer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..77fda1a 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,7 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -110,7 +110,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From 28244db9341e34788cfc907e691b7bf0ac72fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 38/39] fix: null characters do not end strings and quoted
 symbols

---
 src/lexer.cpp | 5 +++--
 src/lexer.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 466d985..6278eb6 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -179,10 +179,11 @@ bool Lexer::eatTokenChoice(Token t, Token f)
 }
 
 
-const char* Lexer::tokenStr() const
+std::string Lexer::tokenStr() const
 {
   Assert(!d_token.empty() && d_token.back() == 0);
-  return d_token.data();
+  // note that the token may contain null characters
+  return std::string(d_token.begin(), d_token.end() - 1);
 }
 
 Token Lexer::nextTokenInternal()
diff --git a/src/lexer.h b/src/lexer.h
index 77fda1a..45a0005 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -62,7 +62,7 @@ class Lexer
    * String corresponding to the last token (old top of stack). This is only
    * valid if no tokens are currently peeked.
    */
-  const char* tokenStr() const;
+  std::string tokenStr() const;
   /** Advance to the next token (pop from stack) */
   Token nextToken();
   /** Add a token back into the stream (push to stack) */
-- 
2.43.0


From d62e15c120d5c8bd779ae378ab5ee10c010f4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 39/39] fix: do not take the back of an empty stack at an
 unexpected closing parenthesis

---
 src/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 509cd3f..ba9c44e 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -236,13 +236,13 @@ Expr ExprParser::parseExpr()
       // ------------------- close paren
       case Token::RPAREN:
       {
-        StackFrame& sf = pstack.back();
         // should only be here if we are expecting arguments
-        if (pstack.empty() || sf.d_ctx != ParseCtx::NEXT_ARG)
+        if (pstack.empty() || pstack.back().d_ctx != ParseCtx::NEXT_ARG)
         {
           d_lex.unexpectedTokenError(
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
+        StackFrame& sf = pstack.back();
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0

