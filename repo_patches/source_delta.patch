From 07731988dc40c624103d6d8d42533a134ce629f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:01 +0000
Subject: [PATCH 01/17] fix: Parse reads an empty stack for unbalanced or
 operand-free text

The balance of parentheses was never decremented, so "())" popped an empty
stack, and blank text or "()" returned the top of an empty stack.
---
 single/include/tomsolver/tomsolver.h | 6 ++++++
 src/tomsolver/parse.cpp              | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..351d9d0 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3534,6 +3534,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -3657,6 +3658,11 @@ inline Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         throw MultiParseError(errors);
     }
 
+    // 没有任何操作数，例如空白字符串或者"()"
+    if (tokenStack.empty()) {
+        throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+    }
+
     return popNode();
 }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..d38e5db 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -245,6 +245,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -368,6 +369,11 @@ Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         throw MultiParseError(errors);
     }
 
+    // 没有任何操作数，例如空白字符串或者"()"
+    if (tokenStack.empty()) {
+        throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+    }
+
     return popNode();
 }
 
-- 
2.43.0


From 5ec6890e16977955d490f3cd1164dc4812cfd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 02/17] fix: Parse accepts operands and functions where an
 operator is required

"1 2+" was read as 1+2 and "2 sin" as sin(2), and in "a*sin cos x" the
second function pushed the first one out before it had an operand.
---
 single/include/tomsolver/tomsolver.h | 18 ++++++++++++++++--
 src/tomsolver/parse.cpp              | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 351d9d0..02c6720 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3497,6 +3497,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder) {
     std::vector<Token> postOrder;
     int parenthesisBalance = 0;
+    bool expectOperand = true; // 当前位置应为操作数（而不是二元运算符或右括号）
     std::stack<Token> tokenStack;
 
     auto popToken = [&tokenStack] {
@@ -3505,10 +3506,19 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         return r;
     };
 
+    std::vector<SingleParseError> errors; // 出现在应为运算符的位置上的操作数、函数、左括号
+
     while (!inOrder.empty()) {
         auto f = std::move(inOrder.front());
         inOrder.pop_front();
 
+        auto isOperator = f.node->type == NodeType::OPERATOR;
+        auto beginsOperand = !isOperator || f.node->op == MathOperator::MATH_LEFT_PARENTHESIS || IsFunction(f.node->op);
+        if (beginsOperand && !expectOperand) {
+            errors.emplace_back(f.line, f.pos, f.content, "Parse Error at: \"", f.s, "\"");
+        }
+        expectOperand = isOperator && f.node->op != MathOperator::MATH_RIGHT_PARENTHESIS;
+
         switch (f.node->type) {
         // 数字直接入栈
         case NodeType::NUMBER:
@@ -3548,8 +3558,8 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             continue;
 
         default:
-            // 不是括号也不是正负号
-            if (!tokenStack.empty()) {
+            // 不是括号也不是正负号。函数是前缀运算符，前面的符号都还没有得到操作数，不能挤出
+            if (!IsFunction(f.node->op) && !tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
                         ? std::function<bool(const Token &)>{[cmp = std::less_equal<>{}, rank = Rank(f.node->op)](
@@ -3586,6 +3596,10 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         postOrder.emplace_back(std::move(token));
     }
 
+    if (!errors.empty()) {
+        throw MultiParseError({errors.rbegin(), errors.rend()});
+    }
+
     return postOrder;
 }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index d38e5db..f822cb5 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -208,6 +208,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder) {
     std::vector<Token> postOrder;
     int parenthesisBalance = 0;
+    bool expectOperand = true; // 当前位置应为操作数（而不是二元运算符或右括号）
     std::stack<Token> tokenStack;
 
     auto popToken = [&tokenStack] {
@@ -216,10 +217,19 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         return r;
     };
 
+    std::vector<SingleParseError> errors; // 出现在应为运算符的位置上的操作数、函数、左括号
+
     while (!inOrder.empty()) {
         auto f = std::move(inOrder.front());
         inOrder.pop_front();
 
+        auto isOperator = f.node->type == NodeType::OPERATOR;
+        auto beginsOperand = !isOperator || f.node->op == MathOperator::MATH_LEFT_PARENTHESIS || IsFunction(f.node->op);
+        if (beginsOperand && !expectOperand) {
+            errors.emplace_back(f.line, f.pos, f.content, "Parse Error at: \"", f.s, "\"");
+        }
+        expectOperand = isOperator && f.node->op != MathOperator::MATH_RIGHT_PARENTHESIS;
+
         switch (f.node->type) {
         // 数字直接入栈
         case NodeType::NUMBER:
@@ -259,8 +269,8 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             continue;
 
         default:
-            // 不是括号也不是正负号
-            if (!tokenStack.empty()) {
+            // 不是括号也不是正负号。函数是前缀运算符，前面的符号都还没有得到操作数，不能挤出
+            if (!IsFunction(f.node->op) && !tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
                         ? std::function<bool(const Token &)>{[cmp = std::less_equal<>{}, rank = Rank(f.node->op)](
@@ -297,6 +307,10 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         postOrder.emplace_back(std::move(token));
     }
 
+    if (!errors.empty()) {
+        throw MultiParseError({errors.rbegin(), errors.rend()});
+    }
+
     return postOrder;
 }
 
-- 
2.43.0


From c63ce6f5ed34bc5e43e36b62ce44240c9180865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 03/17] fix: numbers printed in scientific notation can not be
 parsed

ToString prints "1e-17" or "1e+16", but the tokenizer split the text at the
sign, and rejected denormal numbers because std::stod reports underflow.
---
 single/include/tomsolver/tomsolver.h | 40 ++++++++++++++++++++-------
 src/tomsolver/parse.cpp              | 41 +++++++++++++++++++++-------
 2 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 02c6720..a80ff6a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -5,9 +5,11 @@
 #include <array>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <clocale>
 #include <cmath>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <forward_list>
 #include <functional>
@@ -3437,6 +3439,22 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     auto iter = content.begin(), nameIter = iter;
     std::deque<Token> ret;
 
+    // 当前位置的正负号是否属于科学计数法的指数，例如1e-5、.5E+3
+    auto isExponentSign = [&iter, &nameIter, &content] {
+        if ((*iter != '+' && *iter != '-') || std::distance(nameIter, iter) < 2) {
+            return false;
+        }
+        auto isDigit = [](char c) {
+            return c >= '0' && c <= '9';
+        };
+        auto e = std::prev(iter), next = std::next(iter);
+        return (*e == 'e' || *e == 'E') && next != content.end() && isDigit(*next) &&
+               std::any_of(nameIter, e, isDigit) && std::count(nameIter, e, '.') <= 1 &&
+               std::all_of(nameIter, e, [&isDigit](char c) {
+                   return isDigit(c) || c == '.';
+               });
+    };
+
     auto tryComfirmToken = [&ret, &iter, &nameIter, &content] {
         if (size_t size = std::distance(nameIter, iter)) {
             auto exp = StringView{&*nameIter, size};
@@ -3444,15 +3462,15 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             auto &token = ret.back();
 
             auto expStr = exp.toString();
-            // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 检验是否为浮点数。上溢不是合法的数字，下溢（非规格化数）是合法的数字
+            errno = 0;
+            char *numEnd = nullptr;
+            auto d = std::strtod(expStr.c_str(), &numEnd);
+            auto overflow = errno == ERANGE && std::abs(d) == HUGE_VAL;
+            if (numEnd == expStr.c_str() + expStr.size() && !overflow) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
@@ -3472,7 +3490,9 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (isExponentSign()) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index f822cb5..200cdc0 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -6,6 +6,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <functional>
 #include <iterator>
 #include <sstream>
@@ -148,6 +151,22 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     auto iter = content.begin(), nameIter = iter;
     std::deque<Token> ret;
 
+    // 当前位置的正负号是否属于科学计数法的指数，例如1e-5、.5E+3
+    auto isExponentSign = [&iter, &nameIter, &content] {
+        if ((*iter != '+' && *iter != '-') || std::distance(nameIter, iter) < 2) {
+            return false;
+        }
+        auto isDigit = [](char c) {
+            return c >= '0' && c <= '9';
+        };
+        auto e = std::prev(iter), next = std::next(iter);
+        return (*e == 'e' || *e == 'E') && next != content.end() && isDigit(*next) &&
+               std::any_of(nameIter, e, isDigit) && std::count(nameIter, e, '.') <= 1 &&
+               std::all_of(nameIter, e, [&isDigit](char c) {
+                   return isDigit(c) || c == '.';
+               });
+    };
+
     auto tryComfirmToken = [&ret, &iter, &nameIter, &content] {
         if (size_t size = std::distance(nameIter, iter)) {
             auto exp = StringView{&*nameIter, size};
@@ -155,15 +174,15 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             auto &token = ret.back();
 
             auto expStr = exp.toString();
-            // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 检验是否为浮点数。上溢不是合法的数字，下溢（非规格化数）是合法的数字
+            errno = 0;
+            char *numEnd = nullptr;
+            auto d = std::strtod(expStr.c_str(), &numEnd);
+            auto overflow = errno == ERANGE && std::abs(d) == HUGE_VAL;
+            if (numEnd == expStr.c_str() + expStr.size() && !overflow) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
@@ -183,7 +202,9 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (isExponentSign()) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
-- 
2.43.0


From 706aeabadd9acafc569f87d0a9e26db19aefa14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 04/17] fix: function names printed for arc functions can not
 be parsed back

---
 single/include/tomsolver/tomsolver.h | 55 ++++++++--------------------
 src/tomsolver/parse.cpp              | 53 +++++++--------------------
 2 files changed, 28 insertions(+), 80 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a80ff6a..9c357d4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3308,23 +3308,6 @@ namespace tomsolver {
 
 namespace {
 
-inline constexpr auto fnv1a(internal::StringView s) {
-    constexpr uint64_t offsetBasis = 14695981039346656037ul;
-    constexpr uint64_t prime = 1099511628211ul;
-
-    uint64_t hash = offsetBasis;
-
-    for (auto c : s) {
-        hash = (hash ^ c) * prime;
-    }
-
-    return hash;
-}
-
-inline constexpr auto operator""_fnv1a(const char *s, size_t) {
-    return fnv1a(s);
-}
-
 /* 是基本运算符()+-* /^&|% */
 inline bool IsBasicOperator(char c) noexcept {
     switch (c) {
@@ -3374,29 +3357,21 @@ inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 inline MathOperator Str2Function(internal::StringView s) noexcept {
-    switch (fnv1a(s)) {
-    case "sin"_fnv1a:
-        return MathOperator::MATH_SIN;
-    case "cos"_fnv1a:
-        return MathOperator::MATH_COS;
-    case "tan"_fnv1a:
-        return MathOperator::MATH_TAN;
-    case "arcsin"_fnv1a:
-        return MathOperator::MATH_ARCSIN;
-    case "arccos"_fnv1a:
-        return MathOperator::MATH_ARCCOS;
-    case "arctan"_fnv1a:
-        return MathOperator::MATH_ARCTAN;
-    case "sqrt"_fnv1a:
-        return MathOperator::MATH_SQRT;
-    case "log"_fnv1a:
-        return MathOperator::MATH_LOG;
-    case "log2"_fnv1a:
-        return MathOperator::MATH_LOG2;
-    case "log10"_fnv1a:
-        return MathOperator::MATH_LOG10;
-    case "exp"_fnv1a:
-        return MathOperator::MATH_EXP;
+    static const std::pair<const char *, MathOperator> functions[] = {
+        {"sin", MathOperator::MATH_SIN},       {"cos", MathOperator::MATH_COS},
+        {"tan", MathOperator::MATH_TAN},       {"arcsin", MathOperator::MATH_ARCSIN},
+        {"arccos", MathOperator::MATH_ARCCOS}, {"arctan", MathOperator::MATH_ARCTAN},
+        {"asin", MathOperator::MATH_ARCSIN},   {"acos", MathOperator::MATH_ARCCOS},
+        {"atan", MathOperator::MATH_ARCTAN},   {"sqrt", MathOperator::MATH_SQRT},
+        {"log", MathOperator::MATH_LOG},       {"log2", MathOperator::MATH_LOG2},
+        {"log10", MathOperator::MATH_LOG10},   {"exp", MathOperator::MATH_EXP},
+    };
+
+    auto name = s.toString();
+    for (auto &function : functions) {
+        if (name == function.first) {
+            return function.second;
+        }
     }
     return MathOperator::MATH_NULL;
 }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 200cdc0..7594bce 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -20,23 +20,6 @@ namespace tomsolver {
 
 namespace {
 
-constexpr auto fnv1a(internal::StringView s) {
-    constexpr uint64_t offsetBasis = 14695981039346656037ul;
-    constexpr uint64_t prime = 1099511628211ul;
-
-    uint64_t hash = offsetBasis;
-
-    for (auto c : s) {
-        hash = (hash ^ c) * prime;
-    }
-
-    return hash;
-}
-
-constexpr auto operator""_fnv1a(const char *s, size_t) {
-    return fnv1a(s);
-}
-
 /* 是基本运算符()+-* /^&|% */
 bool IsBasicOperator(char c) noexcept {
     switch (c) {
@@ -86,29 +69,19 @@ MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 MathOperator Str2Function(internal::StringView s) noexcept {
-    switch (fnv1a(s)) {
-    case "sin"_fnv1a:
-        return MathOperator::MATH_SIN;
-    case "cos"_fnv1a:
-        return MathOperator::MATH_COS;
-    case "tan"_fnv1a:
-        return MathOperator::MATH_TAN;
-    case "arcsin"_fnv1a:
-        return MathOperator::MATH_ARCSIN;
-    case "arccos"_fnv1a:
-        return MathOperator::MATH_ARCCOS;
-    case "arctan"_fnv1a:
-        return MathOperator::MATH_ARCTAN;
-    case "sqrt"_fnv1a:
-        return MathOperator::MATH_SQRT;
-    case "log"_fnv1a:
-        return MathOperator::MATH_LOG;
-    case "log2"_fnv1a:
-        return MathOperator::MATH_LOG2;
-    case "log10"_fnv1a:
-        return MathOperator::MATH_LOG10;
-    case "exp"_fnv1a:
-        return MathOperator::MATH_EXP;
+    static const std::pair<const char *, MathOperator> functions[] = {
+        {"sin", MathOperator::MATH_SIN},       {"cos", MathOperator::MATH_COS},       {"tan", MathOperator::MATH_TAN},
+        {"arcsin", MathOperator::MATH_ARCSIN}, {"arccos", MathOperator::MATH_ARCCOS}, {"arctan", MathOperator::MATH_ARCTAN},
+        {"asin", MathOperator::MATH_ARCSIN},   {"acos", MathOperator::MATH_ARCCOS},   {"atan", MathOperator::MATH_ARCTAN},
+        {"sqrt", MathOperator::MATH_SQRT},     {"log", MathOperator::MATH_LOG},       {"log2", MathOperator::MATH_LOG2},
+        {"log10", MathOperator::MATH_LOG10},   {"exp", MathOperator::MATH_EXP},
+    };
+
+    auto name = s.toString();
+    for (auto &function : functions) {
+        if (name == function.first) {
+            return function.second;
+        }
     }
     return MathOperator::MATH_NULL;
 }
-- 
2.43.0


From ff9c97f30f0c9f1106b8c56bd2bc0264f21e6a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 05/17] fix: checking a long variable name overflows the stack

---
 single/include/tomsolver/tomsolver.h |  9 ++++++++-
 src/tomsolver/node.cpp               | 11 +++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 9c357d4..93636fd 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1632,7 +1632,14 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex：libstdc++的实现对每个字符递归一层，变量名很长时会栈溢出
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto isWord = [&isDigit](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || isDigit(c);
+    };
+    return !varname.empty() && !isDigit(varname.front()) && std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..48a79c0 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,13 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -661,7 +661,14 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex：libstdc++的实现对每个字符递归一层，变量名很长时会栈溢出
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto isWord = [&isDigit](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || isDigit(c);
+    };
+    return !varname.empty() && !isDigit(varname.front()) && std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 381d563e8912ac0e57098e9457db8f0f90a1132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 06/17] fix: integer operators divide by zero and convert out
 of range values

---
 single/include/tomsolver/tomsolver.h | 28 +++++++++++++++++++++++++---
 src/tomsolver/math_operator.cpp      | 28 +++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 93636fd..106a388 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1914,7 +1914,23 @@ inline bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/**
+ * 转换为int（向零取整）。如果v是nan或者超出int的范围，返回false。
+ */
+inline bool ToInt(double v, int &result) noexcept {
+    if (!(v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0)) {
+        return false;
+    }
+    result = static_cast<int>(v);
+    return true;
+}
+
+} // namespace
+
 inline double Calc(MathOperator op, double v1, double v2) {
+    int i1 = 0, i2 = 0;
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
     case MathOperator::MATH_SIN:
@@ -1958,13 +1974,19 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        if (ToInt(v1, i1) && ToInt(v2, i2) && i2 != 0) {
+            ret = i2 == -1 ? 0 : i1 % i2; // INT_MIN % -1会溢出
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (ToInt(v1, i1) && ToInt(v2, i2)) {
+            ret = i1 & i2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (ToInt(v1, i1) && ToInt(v2, i2)) {
+            ret = i1 | i2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..f36c04b 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -270,7 +270,23 @@ bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/**
+ * 转换为int（向零取整）。如果v是nan或者超出int的范围，返回false。
+ */
+bool ToInt(double v, int &result) noexcept {
+    if (!(v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0)) {
+        return false;
+    }
+    result = static_cast<int>(v);
+    return true;
+}
+
+} // namespace
+
 double Calc(MathOperator op, double v1, double v2) {
+    int i1 = 0, i2 = 0;
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
     case MathOperator::MATH_SIN:
@@ -314,13 +330,19 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        if (ToInt(v1, i1) && ToInt(v2, i2) && i2 != 0) {
+            ret = i2 == -1 ? 0 : i1 % i2; // INT_MIN % -1会溢出
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (ToInt(v1, i1) && ToInt(v2, i2)) {
+            ret = i1 & i2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (ToInt(v1, i1) && ToInt(v2, i2)) {
+            ret = i1 | i2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
-- 
2.43.0


From e9917c6c2ca67dc8bd3dc5ac4f3ec963d814f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 07/17] fix: Simplify and Diff terminate the process on invalid
 constants

---
 single/include/tomsolver/tomsolver.h | 24 +++++++++++++++---------
 src/tomsolver/simplify.cpp           | 25 ++++++++++++++++---------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 106a388..6ee4c76 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3029,6 +3029,19 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 把操作数均为数字的运算符节点n替换为计算结果。如果计算会出现无效值，保持n不变。
+    static void Fold(NodeImpl &n, double v1, double v2) noexcept {
+        try {
+            n.value = tomsolver::Calc(n.op, v1, v2);
+        } catch (const MathError &) {
+            return;
+        }
+        n.type = NodeType::NUMBER;
+        n.op = MathOperator::MATH_NULL;
+        n.left = nullptr;
+        n.right = nullptr;
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -3036,10 +3049,7 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                Fold(*n, n->left->value, 0);
             }
             break;
 
@@ -3047,11 +3057,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                Fold(*n, n->left->value, n->right->value);
                 return;
             }
 
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..a315de6 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -1,4 +1,5 @@
 #include "simplify.h"
+#include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
 
@@ -20,6 +21,19 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 把操作数均为数字的运算符节点n替换为计算结果。如果计算会出现无效值，保持n不变。
+    static void Fold(NodeImpl &n, double v1, double v2) noexcept {
+        try {
+            n.value = tomsolver::Calc(n.op, v1, v2);
+        } catch (const MathError &) {
+            return;
+        }
+        n.type = NodeType::NUMBER;
+        n.op = MathOperator::MATH_NULL;
+        n.left = nullptr;
+        n.right = nullptr;
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -27,10 +41,7 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                Fold(*n, n->left->value, 0);
             }
             break;
 
@@ -38,11 +49,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                Fold(*n, n->left->value, n->right->value);
                 return;
             }
 
-- 
2.43.0


From e6766914505a138fd1891d2369e45fdf769037e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 08/17] fix: Jacobian terminates the process when Diff throws

---
 single/include/tomsolver/tomsolver.h | 10 +++++++---
 src/tomsolver/symmat.cpp             |  2 +-
 src/tomsolver/symmat.h               |  8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 6ee4c76..ebb13e0 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2813,7 +2813,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2838,7 +2838,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 计算雅可比矩阵。
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ */
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -4639,7 +4643,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..bb2ca4e 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 计算雅可比矩阵。
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ */
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From fa3c5d2a9bcd505078285a6d5cda7959eb232f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 09/17] fix: derivative of exp of another variable is not zero

---
 single/include/tomsolver/tomsolver.h | 8 ++++----
 src/tomsolver/diff.cpp               | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ebb13e0..8a4a9df 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4061,7 +4061,7 @@ public:
         std::queue<DiffNode> q;
 
         if (root->type == NodeType::OPERATOR) {
-            DiffOnceOperator(root, q);
+            DiffOnceOperator(root, varname, q);
         } else {
             q.emplace(*root);
         }
@@ -4084,7 +4084,7 @@ public:
 
             case NodeType::OPERATOR: {
                 auto &child = isLeftChild ? node.parent->left : node.parent->right;
-                DiffOnceOperator(child, q);
+                DiffOnceOperator(child, varname, q);
                 break;
             }
             default:
@@ -4093,7 +4093,7 @@ public:
         }
     }
 
-    static void DiffOnceOperator(Node &node, std::queue<DiffNode> &q) {
+    static void DiffOnceOperator(Node &node, const std::string &varname, std::queue<DiffNode> &q) {
         auto parent = node->parent;
 
         // 调用前提：node是1元操作符
@@ -4280,7 +4280,7 @@ public:
             }
 
             // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
+            if (node->left->type == NodeType::VARIABLE && node->left->varname == varname)
                 return;
 
             // (e^u)' = e^u * u'
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index a83450e..c14205d 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -23,7 +23,7 @@ public:
         std::queue<DiffNode> q;
 
         if (root->type == NodeType::OPERATOR) {
-            DiffOnceOperator(root, q);
+            DiffOnceOperator(root, varname, q);
         } else {
             q.emplace(*root);
         }
@@ -46,7 +46,7 @@ public:
 
             case NodeType::OPERATOR: {
                 auto &child = isLeftChild ? node.parent->left : node.parent->right;
-                DiffOnceOperator(child, q);
+                DiffOnceOperator(child, varname, q);
                 break;
             }
             default:
@@ -55,7 +55,7 @@ public:
         }
     }
 
-    static void DiffOnceOperator(Node &node, std::queue<DiffNode> &q) {
+    static void DiffOnceOperator(Node &node, const std::string &varname, std::queue<DiffNode> &q) {
         auto parent = node->parent;
 
         // 调用前提：node是1元操作符
@@ -242,7 +242,7 @@ public:
             }
 
             // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
+            if (node->left->type == NodeType::VARIABLE && node->left->varname == varname)
                 return;
 
             // (e^u)' = e^u * u'
-- 
2.43.0


From 6dc0103d5afb1be3a13b4ac9d8ca4b44e746118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 10/17] fix: EachDivide ignores its first argument

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8a4a9df..761f8c9 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2298,7 +2298,7 @@ inline Mat operator*(double k, const Mat &mat) noexcept {
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 inline bool IsZero(const Mat &mat) noexcept {
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..82532af 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -270,7 +270,7 @@ Mat operator*(double k, const Mat &mat) noexcept {
 Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 bool IsZero(const Mat &mat) noexcept {
-- 
2.43.0


From f6e15d206bb3c0c70d917fdf0658c0dd17e244c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 11/17] fix: matrices from rows of different lengths read out
 of bounds

---
 single/include/tomsolver/tomsolver.h | 7 ++++++-
 src/tomsolver/mat.cpp                | 3 ++-
 src/tomsolver/symmat.cpp             | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 761f8c9..73b6ef7 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2057,7 +2057,8 @@ inline Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexc
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        // 短的行，末尾以0补齐
+        data[std::slice(cols * i++, values.size(), 1)] = values;
     }
 }
 
@@ -4472,6 +4473,10 @@ inline SymMat::SymMat(std::initializer_list<std::initializer_list<Node>> init) n
         for (auto &node : val) {
             (*data)[i * cols + j++] = std::move(const_cast<Node &>(node));
         }
+        // 短的行，末尾以0补齐
+        while (j < cols) {
+            (*data)[i * cols + j++] = Num(0);
+        }
         i++;
     }
 }
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 82532af..36c3771 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -30,7 +30,8 @@ Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        // 短的行，末尾以0补齐
+        data[std::slice(cols * i++, values.size(), 1)] = values;
     }
 }
 
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index e9750d9..b8eff46 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -33,6 +33,10 @@ SymMat::SymMat(std::initializer_list<std::initializer_list<Node>> init) noexcept
         for (auto &node : val) {
             (*data)[i * cols + j++] = std::move(const_cast<Node &>(node));
         }
+        // 短的行，末尾以0补齐
+        while (j < cols) {
+            (*data)[i * cols + j++] = Num(0);
+        }
         i++;
     }
 }
-- 
2.43.0


From 020f06e4ffdd8656a7c2105bcf7cd48abc77a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 12/17] fix: compound assignment of an expression to itself
 crashes

---
 single/include/tomsolver/tomsolver.h | 24 +++++++++++++++++++-----
 src/tomsolver/node.h                 | 24 +++++++++++++++++++-----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 73b6ef7..828a315 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -830,6 +830,9 @@ private:
     template <typename T1, typename T2>
     friend Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept;
 
+    template <typename T>
+    friend void AssignBinaryOperator(MathOperator op, Node &n1, T &&n2) noexcept;
+
     friend class tomsolver::SymMat;
     friend class SimplifyFunctions;
     friend class DiffFunctions;
@@ -873,6 +876,17 @@ inline Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     return ret;
 }
 
+/**
+ * n1变为以原来的n1和n2为左右操作数的运算符节点。n2可以就是n1（例如x += x），所以先拷贝n2，再移动n1。
+ */
+template <typename T>
+inline void AssignBinaryOperator(MathOperator op, Node &n1, T &&n2) noexcept {
+    auto ret = std::make_unique<NodeImpl>(NodeType::OPERATOR, op, 0, "");
+    CopyOrMoveTo(ret.get(), ret->right, std::forward<T>(n2));
+    CopyOrMoveTo(ret.get(), ret->left, std::move(n1));
+    n1 = std::move(ret);
+}
+
 /**
  * 新建一个运算符节点。
  */
@@ -927,7 +941,7 @@ inline SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_ADD, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -948,7 +962,7 @@ inline SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_SUB, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -959,7 +973,7 @@ inline SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_MULTIPLY, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -970,7 +984,7 @@ inline SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_DIVIDE, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -981,7 +995,7 @@ inline SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_POWER, n1, std::forward<T>(n2));
     return n1;
 }
 
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..97f375d 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -141,6 +141,9 @@ private:
     template <typename T1, typename T2>
     friend Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept;
 
+    template <typename T>
+    friend void AssignBinaryOperator(MathOperator op, Node &n1, T &&n2) noexcept;
+
     friend class tomsolver::SymMat;
     friend class SimplifyFunctions;
     friend class DiffFunctions;
@@ -184,6 +187,17 @@ Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     return ret;
 }
 
+/**
+ * n1变为以原来的n1和n2为左右操作数的运算符节点。n2可以就是n1（例如x += x），所以先拷贝n2，再移动n1。
+ */
+template <typename T>
+void AssignBinaryOperator(MathOperator op, Node &n1, T &&n2) noexcept {
+    auto ret = std::make_unique<NodeImpl>(NodeType::OPERATOR, op, 0, "");
+    CopyOrMoveTo(ret.get(), ret->right, std::forward<T>(n2));
+    CopyOrMoveTo(ret.get(), ret->left, std::move(n1));
+    n1 = std::move(ret);
+}
+
 /**
  * 新建一个运算符节点。
  */
@@ -238,7 +252,7 @@ SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_ADD, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -259,7 +273,7 @@ SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_SUB, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -270,7 +284,7 @@ SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_MULTIPLY, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -281,7 +295,7 @@ SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_DIVIDE, n1, std::forward<T>(n2));
     return n1;
 }
 
@@ -292,7 +306,7 @@ SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    internal::AssignBinaryOperator(MathOperator::MATH_POWER, n1, std::forward<T>(n2));
     return n1;
 }
 
-- 
2.43.0


From 8cab72c59cac20eb530dea2299874d2034da2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 13/17] fix: SolveLinear misjudges the rank of singular
 matrices

---
 single/include/tomsolver/tomsolver.h | 27 +++++++++++++--------------
 src/tomsolver/linear.cpp             | 27 +++++++++++++--------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 828a315..a95f6f4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2565,7 +2565,8 @@ inline Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
+    auto y = 0;
+    for (auto x = 0; y < rows && x < cols; y++, x++) {
         // if (A[i].size() != rows)
 
         // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
@@ -2590,20 +2591,9 @@ inline Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 剩下的行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            break;
         }
 
         // 主对角线化为1
@@ -2624,6 +2614,15 @@ inline Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
+    // y为系数矩阵的秩，剩下的行系数全为0
+    RankA = RankAb = y;
+    for (; y < rows; y++) {
+        if (std::abs(b[y]) >= Config::Get().epsilon) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
+
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
 
     // 若为不定方程组，空缺行全填0继续运算
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index 2c680db..1a21c57 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -48,7 +48,8 @@ Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
+    auto y = 0;
+    for (auto x = 0; y < rows && x < cols; y++, x++) {
         // if (A[i].size() != rows)
 
         // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
@@ -73,20 +74,9 @@ Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 剩下的行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            break;
         }
 
         // 主对角线化为1
@@ -107,6 +97,15 @@ Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
+    // y为系数矩阵的秩，剩下的行系数全为0
+    RankA = RankAb = y;
+    for (; y < rows; y++) {
+        if (std::abs(b[y]) >= Config::Get().epsilon) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
+
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
 
     // 若为不定方程组，空缺行全填0继续运算
-- 
2.43.0


From 013582af574a7f9c41402fdf0d0872ac8d9ca2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 14/17] fix: SolveLinear accesses rows out of bounds when the
 matrix contains nan

---
 single/include/tomsolver/tomsolver.h | 3 ++-
 src/tomsolver/mat.cpp                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a95f6f4..a758432 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2332,7 +2332,8 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    // 存在nan时，返回值也必须是有效的下标
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 36c3771..4489c51 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -290,7 +290,8 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    // 存在nan时，返回值也必须是有效的下标
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
-- 
2.43.0


From 530fe6a588c69549c38eb5caa9ed3e35833c6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 15/17] fix: Newton iteration does not start from the given
 initial values

---
 single/include/tomsolver/tomsolver.h | 3 +--
 src/tomsolver/nonlinear.cpp          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a758432..327ca7d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3871,8 +3871,7 @@ inline void PrintAtIterationStart(int it) noexcept {
 inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..671e201 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -89,8 +89,7 @@ void PrintAtIterationStart(int it) noexcept {
 VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
-- 
2.43.0


From 68832577b1cc138cf2b888b691d798c8b6d1d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 16/17] fix: Armijo never returns when values are nan

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/nonlinear.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 327ca7d..6d10be3 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3805,7 +3805,7 @@ inline double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std:
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || alpha == 0) // 检验条件。alpha已缩小到0，说明出现了nan，条件永远不会满足
         {
             break;
         } else
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 671e201..e1f7c0e 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -23,7 +23,7 @@ double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std::functi
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || alpha == 0) // 检验条件。alpha已缩小到0，说明出现了nan，条件永远不会满足
         {
             break;
         } else
-- 
2.43.0


From f42f248db24be1cfad52dfe35409ece5b4626545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 17/17] fix: show the whole text in the error for an invalid
 word

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/parse.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 6d10be3..de7c6fe 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3511,7 +3511,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 7594bce..68e290c 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -167,7 +167,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
-- 
2.43.0

