From 9e383e0899e5d65c50856a6b939de659c678e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 01/30] fix: assigning an int64 of magnitude 0xffffffff left a
 leading zero word; negating INT64_MIN overflowed

---
 src/BigIntegerImpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..10ee356 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -489,11 +489,10 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
     }
 
     m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
-
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = 0 - u64; // -INT64_MIN不能用int64_t表示
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
-- 
2.43.0


From 4c0075d95cde8f9bd6f08062eff6f98154f7d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 02/30] fix: notBits left leading zero words and a signed zero

---
 src/BigIntegerImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 10ee356..41b6f7d 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1202,6 +1202,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
-- 
2.43.0


From 934cf35e55272efd11d5fd6fdbc1a44bd1aae82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 03/30] fix: growing a slice exposed words left over from an
 earlier, longer value

---
 src/Slice.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 788ea54..0473e39 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -113,7 +113,11 @@ public:
             m_hi = m_lo;
             return *this;
         }
-        if (hi > count()) m_data->resize(m_lo + hi);
+        if (hi > count()) {
+            const SizeType oldHi = m_hi;
+            m_data->resize(m_lo + hi);
+            std::fill(m_data->begin() + oldHi, m_data->end(), T{}); // 不暴露旧数据
+        }
         m_lo = m_lo + lo;
         m_hi = m_lo - lo + hi;
 
-- 
2.43.0


From 29cb09b781524b81d45c480751e08aff82af0606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 04/30] fix: importing a negative power of two whose byte
 length is not a multiple of four gave a wrong magnitude

---
 src/BigIntegerImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 41b6f7d..1edf5a8 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -717,7 +717,9 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         for (; i < len && bytes[i] == 0; ++i);
 
         if (i == len) { // - pow2
-            m_mag.append(1);
+            const SizeType topIndex = len / 4;
+            if (topIndex == u32s) m_mag.append(0);
+            m_mag[topIndex] = static_cast<std::uint32_t>(1) << (len % 4 * 8);
             return *this;
         }          
 
-- 
2.43.0


From 06211c09a1f27e2a918270653c36746fdbb69363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 05/30] fix: converting a text of zeros reported neither
 success flag nor status

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1edf5a8..0d66475 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -556,6 +556,8 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     pos = str.find_first_not_of('0', pos);
     if (pos == StringArg::npos) { // 没有非0位, 就是0
         beZero();
+        PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+        ok && (*ok = true);
         return *this;
     }
 
-- 
2.43.0


From 10d8832b0a092ae1b92652c1f3feb563ca1170ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 06/30] fix: a digit block with trailing invalid characters was
 accepted as its valid prefix

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 0d66475..8204ab4 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -579,7 +579,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     
     std::uint32_t mag0;
     auto fistCov2U32Result = std::from_chars(cStr + pos, cStr + pos + fistBlockDigitCnt, mag0, radix);
-    if (fistCov2U32Result.ec != std::errc{}) { // to uint32_t出错
+    if (fistCov2U32Result.ec != std::errc{} || fistCov2U32Result.ptr != cStr + pos + fistBlockDigitCnt) { // to uint32_t出错
         PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
         ok && (*ok = false);
         return *this;
@@ -592,7 +592,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     std::uint32_t blockValue = 0;
     while (pos < slen) {
         auto toU32Result = std::from_chars(cStr + pos, cStr + pos + blockSize, blockValue, radix);
-        if (toU32Result.ec != std::errc{}) {
+        if (toU32Result.ec != std::errc{} || toU32Result.ptr != cStr + pos + blockSize) {
             PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
             ok && (*ok = false);
             return *this;
-- 
2.43.0


From 387ca05c0818f6d16d156e4ec4ebf400fb231f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 07/30] fix: multi-word division kept the cached low-word index
 of the old quotient and remainder

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 8204ab4..2c89ce3 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1557,6 +1557,8 @@ void BigIntegerImpl::knuthDivImpl(BigIntegerImpl & q, BigIntegerImpl & r, const
     }
 
     // init result-q, result-r
+    q.beginWrite(); // free-cache
+    r.beginWrite(); // free-cache
     q.setFlagsToPositive();
     r.setFlagsToPositive();
 
-- 
2.43.0


From 4c95885a9805132952f577ce75afbc005d67bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 08/30] fix: division with the quotient stored into the divisor
 read the overwritten divisor

---
 src/BigIntegerImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 2c89ce3..459832c 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1380,7 +1380,7 @@ void BigIntegerImpl::div(BigIntegerImpl & q, BigIntegerImpl & r, const BigIntege
     if (b.m_mag.count() == 1) { // 转发到 a/<int64_t>
 
         q.assign(a);
-        q.divideAssignAndReminderByU32(b.m_mag[0], r);
+        q.divideAssignAndReminderByU32(divisor.m_mag[0], r); // q可能就是b
         if (!q.flagsContains(BNFlag::ZERO)) {
             if (aSigNum == bSigNum) q.setFlagsToPositive();
             else q.setFlagsToNegative();
-- 
2.43.0


From 8f3596cae62eb6e287d73deb042786e4dee2622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 09/30] fix: <=, > and >= were parsed as <, and == or != did
 not chain

---
 src/infixExpr/ExprParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a26097f..4f820d6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -72,7 +72,7 @@ ExprNode * ExprParser::parseEqu() {
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
         else if (consumeToken(TokenType::NEQU))
             node = m_pNodePool->newBinOpNode(TokenType::NEQU, node, parseCmp());
-        return node;
+        else return node;
     }
     return nullptr;
 }
@@ -83,11 +83,11 @@ ExprNode * ExprParser::parseCmp() {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
         else if (consumeToken(TokenType::LE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::LE, node, parseShift());
         else if (consumeToken(TokenType::GT))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GT, node, parseShift());
         else if (consumeToken(TokenType::GE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GE, node, parseShift());
         else return node;
     }
     return nullptr;
-- 
2.43.0


From 4b42014a55b12bf8aff09703183b65c55444f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 10/30] fix: % was not evaluated and x ** 0 gave 0

---
 src/infixExpr/ExprTree.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..2522538 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -52,6 +52,12 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         lOpAssRAndReturn(mul);
     case TokenType::DIV :
         lOpAssRAndReturn(div);
+    case TokenType::MOD :
+        {
+            Value quotient;
+            left.modAssignAndQuotient(right, quotient);
+            return left;
+        }
     case TokenType::SHIFTLEFT :
         left.shiftLeftAssign(right.toU64());
         return left;
@@ -61,7 +67,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
     case TokenType::POW :
         // TODO: Opt it
         if (right.isZero()) {
-            return Value(0);
+            return Value(1);
         }
         {
             auto res = Value(1);
-- 
2.43.0


From f2674c718ff53d4b2983e02d766a8561f912aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 11/30] fix: a moved-from integer could not be assigned, copied
 or queried

---
 src/BigInteger.cpp     | 7 +++----
 src/BigIntegerImpl.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..d8001a1 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -34,8 +34,8 @@ pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(s
 pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
 
 // move
-pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
-    other.m_pImpl = nullptr;
+pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : BigInteger() {
+    m_pImpl.swap(other.m_pImpl);
 }
 
 // from POD-integer : only for int64_t
@@ -64,8 +64,7 @@ pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
 pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
     if (this == &other) return *this;
 
-    m_pImpl = std::move(other.m_pImpl);
-    other.m_pImpl = nullptr;
+    m_pImpl.swap(other.m_pImpl);
 
     return *this;
 }
diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 459832c..8ae4afd 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -420,7 +420,9 @@ BigIntegerImpl::BigIntegerImpl() = default;
 
 BigIntegerImpl::BigIntegerImpl(const BigIntegerImpl &) = default; // 浅拷贝
 
-BigIntegerImpl::BigIntegerImpl(BigIntegerImpl &&) noexcept = default; // 浅拷贝
+BigIntegerImpl::BigIntegerImpl(BigIntegerImpl && other) noexcept { // 浅拷贝
+    swap(other); // other变为0
+}
 
 BigIntegerImpl::BigIntegerImpl(std::int64_t i64) {
     assign(i64);
@@ -473,7 +475,7 @@ BigIntegerImpl & BigIntegerImpl::assign(BigIntegerImpl && other) {
     m_firstNotZeroU32IndexLazy = other.m_firstNotZeroU32IndexLazy;
     m_mag = std::move(other.m_mag);
 
-    other.m_flags = BNFlag::INVALID;
+    other.m_flags = BNFlag::ZERO;
     other.m_firstNotZeroU32IndexLazy = 0;
     return *this;
 }
-- 
2.43.0


From f477aaaf84fd28629f1ae8fce96fe56e4915de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 12/30] fix: an expression ending in white space made the
 tokenizer loop forever

---
 src/infixExpr/Token.h | 1 +
 src/infixExpr/fwd.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 680c650..2182bf4 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -59,6 +59,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
+        if (stream.eof()) break;
 
         // 解析
         char ch = stream.get();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 5661529..177b329 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -113,7 +113,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
@@ -127,7 +127,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
-- 
2.43.0


From 644b87e61dcd0e639e62bdcdb365f46c3305bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 13/30] fix: the character after the first fraction digit of a
 literal was dropped

---
 src/infixExpr/Token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 2182bf4..c39d989 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -235,7 +235,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From 6fa8bd26f89ac06fc2573081107e64dd64c7a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 14/30] fix: only the first digit of a literal could be an
 upper-case letter

---
 src/infixExpr/Token.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index c39d989..99a82e3 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -222,7 +222,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,11 +231,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From df0feecc6388af7475545042bb0f131e9a508677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 15/30] fix: malformed expressions were evaluated with missing
 operands, leftover tokens or wrong argument counts

---
 src/infixExpr/ExprParser.cpp | 17 ++++++++++++++---
 src/infixExpr/ExprParser.h   |  1 +
 src/infixExpr/ExprTree.cpp   |  5 ++++-
 src/infixExpr/Token.h        |  2 +-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 4f820d6..5faedea 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -23,7 +23,12 @@ ExprParser::ExprParser() = default;
 
 // public functions
 ExprNode * ExprParser::parse() {
-    return parseExpr();
+    // 词法错误(状态已被tokenizer设置)时没有TAIL
+    if (m_tokens.empty() || m_tokens.back().type != TokenType::TAIL) return nullptr;
+
+    Node * root = parseExpr(); CKERR();
+    if (m_tokens[m_currTokenIndex].type != TokenType::TAIL) BADTOK(TokenType::TAIL, "expected end of expression");
+    return root;
 }
 
 // private functions
@@ -176,14 +181,20 @@ ExprNode * ExprParser::parsePrim() {
         if (!consumeToken(TokenType::LEFTBRACKET)) BADTOK(TokenType::LEFTBRACKET, "Expected '()' To Call Function");
         return parseFuncCall(temp.pSymbol);
     }
-    return nullptr;
+    BADTOK(TokenType::LITERAL, "expected an operand");
 }
 
 ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
     std::vector<Node*> argNodes;
     while (!consumeToken(TokenType::RIGHTBRACKET)) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
-        argNodes.push_back(parseExpr());
+        argNodes.push_back(parseExpr()); CKERR();
+    }
+    const int argCount = symbol->as<Func>().argCount;
+    if (argCount != -1 && static_cast<SizeType>(argCount) != argNodes.size()) {
+        m_errCode = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        return nullptr;
     }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
diff --git a/src/infixExpr/ExprParser.h b/src/infixExpr/ExprParser.h
index 85f554e..20a2f45 100644
--- a/src/infixExpr/ExprParser.h
+++ b/src/infixExpr/ExprParser.h
@@ -69,6 +69,7 @@ void ExprParser::init(S & stream, const Hooks & hooks, NodePool * pNodePool) {
     m_tokens = tokenizer(stream, hooks);
     m_currTokenIndex = 0;
     m_pNodePool = pNodePool;
+    m_errCode = ErrCode::SUCCESS;
 }
 
 PGBN_INFIXEXPR_NAMESPACE_END
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 2522538..0178c2b 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -126,7 +126,10 @@ static Value valEvalCallback(ExprNode * node, bool) {
 static Value builtinFuncEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->nodeType == ExprNode::NodeType::BUILTINFUNC);
     Func func = node->symbol->as<Func>();
-    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != node->children.size()) PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+    if (func.argCount != -1 && static_cast<SizeType>(func.argCount) != node->children.size()) {
+        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        return {};
+    }
     PGZXB_DEBUG_ASSERT(!!func.nativeCall);
     std::vector<Value> args;
     for (auto * ch : node->children) { 
diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 99a82e3..afae548 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -287,7 +287,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     }
 
     res.push_back(Token{});
-    res.back().type = TokenType::INVALID;
+    res.back().type = TokenType::TAIL;
 
 #undef SET_TOKEN_DEBUG_INFO
     return res;
-- 
2.43.0


From f668897e9c92253263937183692a120d3fba44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 16/30] fix: rejecting an expression raised an unregistered
 status code

---
 src/errInfos.cpp | 3 ++-
 src/eval.cpp     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..f7e86bc 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "[PGBN-Status: Error]Argument Count Not Match"            , pgbn::detail::debugPrint        }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..96e2158 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -21,7 +21,7 @@ Int pgbn::expr::eval(const StringArg &expr, Status *status) {
     NodePool nodePool;
     auto *root = parseString(expr, &nodePool);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
+        if (status != Status::getInstance()) (*status) = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN; // 全局状态已由解析器设置
         return Int{};
     }
     return BigInteger(std::make_unique<BigIntegerImpl>(root->evalCallback(root, false)));
@@ -35,7 +35,7 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     NodePool nodePool;
     auto *root = parseString(expr, &nodePool);
     if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
+        if (status != Status::getInstance()) (*status) = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN; // 全局状态已由解析器设置
         return Int{};
     }
 
-- 
2.43.0


From 39c725d083035cd592f8741dd4a43aa480d45f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 17/30] fix: evaluating a view into larger text read past its
 end

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 96e2158..e6ca3d7 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -11,7 +11,8 @@ using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
 static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
-    StringReadStream testSrc1Stream(str.data());
+    const std::string src(str); // str不一定以0结尾
+    StringReadStream testSrc1Stream(src);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
     return parser.parse();
 }
-- 
2.43.0


From afe9fbadc9c3117b64f5578cd183628e7a58a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 18/30] fix: an exception during parallel evaluation left its
 promise unfulfilled and the caller waiting forever

---
 src/infixExpr/ExprTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 0178c2b..f3af6bd 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -142,8 +142,12 @@ static void pevalTask(ExprNode * node) {
     // std::ostringstream oss;
     // oss << std::this_thread::get_id();
     // std::cerr << pgfmt::format("Thread#{0} node#{1} start\n", oss.str(), (std::uint64_t)node );
-    auto temp = node->evalCallback(node, true);
-    node->valPromise.set_value(temp);
+    try {
+        auto temp = node->evalCallback(node, true);
+        node->valPromise.set_value(temp);
+    } catch (...) {
+        node->valPromise.set_exception(std::current_exception());
+    }
     // std::cerr << pgfmt::format("Thread#{0} node#{1}: peval = {2}\n", oss.str(),
     //     (std::uint64_t)node, temp.cmp(INT64_MAX) == 1 ? temp.toString(10).substr(0, 50).append("...") : temp.toString(10));
 }
-- 
2.43.0


From 2c6757248014be1d697808b474a9388f25ed311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 19/30] fix: a pool created while the core count is unknown had
 no worker and never ran a task

---
 src/parallel/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parallel/ThreadPool.h b/src/parallel/ThreadPool.h
index db12b5e..67af9b3 100644
--- a/src/parallel/ThreadPool.h
+++ b/src/parallel/ThreadPool.h
@@ -16,7 +16,7 @@ class ThreadPool {
     using TaskQueue = SimpleConcurrenceQueue<RawTask>;
 public:
     ThreadPool(std::size_t nThreads = kDefaultNThreads) : m_running(true) {
-        m_threads.resize(nThreads);
+        m_threads.resize(nThreads > 0 ? nThreads : 1); // hardware_concurrency()可能为0
         for (auto &t : m_threads) {
             t = std::thread([this]() {
                 while (true) {
-- 
2.43.0


From b537fc8f551534b35e22373e1e70a1ba7c7998d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 20/30] fix: the shutdown flag of the task queue was written
 without its lock, losing wake-ups

---
 src/parallel/SimpleConcurrenceQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..395a453 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,6 +72,7 @@ public:
     }
 
     void notifyAllPop() {
+        std::lock_guard<std::mutex> _(m_mutex);
         m_alwaysPop = true;
         m_cond.notify_all();
     }
-- 
2.43.0


From 256054cf50a9708fcb3489073e08cfbf10cc092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 21/30] fix: a large product stored into one of its factors got
 the wrong sign

---
 src/BigIntegerImpl.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 8ae4afd..9b00e71 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1336,14 +1336,14 @@ void BigIntegerImpl::mul(BigIntegerImpl & res, const BigIntegerImpl & a, const B
 
     res.beginWrite();
 
-    if (a.hasSameSigFlag(b)) res.setFlagsToPositive();
-    else res.setFlagsToNegative();
-
     const SizeType alen = a.m_mag.count();
     const SizeType blen = b.m_mag.count();
 
     // 规模较小直接采用小学生算法
     if (alen < KARATSUBA_THRESHOLD || blen < KARATSUBA_THRESHOLD) {
+        if (a.hasSameSigFlag(b)) res.setFlagsToPositive();
+        else res.setFlagsToNegative();
+
         if (b.m_mag.count() == 1) {
             res.m_mag = a.m_mag;
             res.m_mag.cloneData();
@@ -1436,6 +1436,8 @@ void BigIntegerImpl::mulKaratsuba(BigIntegerImpl & res, const BigIntegerImpl & a
     const SizeType alen = a.m_mag.count();
     const SizeType blen = b.m_mag.count();
 
+    const bool sameSig = a.hasSameSigFlag(b); // res可能就是a或b
+
     const SizeType half = (std::max(alen, blen) + 1) / 2;
 
     std::vector<BigIntegerImpl> aBlocks = a.split(2, half); // {al, ah}
@@ -1464,7 +1466,7 @@ void BigIntegerImpl::mulKaratsuba(BigIntegerImpl & res, const BigIntegerImpl & a
     res.shiftLeftAssign(32 * half);
     res.addAssign(p2);
 
-    if (a.hasSameSigFlag(b)) res.setFlagsToPositive();
+    if (sameSig) res.setFlagsToPositive();
     else res.setFlagsToNegative();
 }
 
-- 
2.43.0


From 1984a25c702f8a49ffcafb449f8fe512fce79b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 22/30] fix: each thread's first status use re-registered the
 built-in codes, unsynchronised and over the user's registrations

---
 src/Status.cpp | 36 ++++++++++++++++++++++--------------
 src/Status.h   |  3 +++
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..a9adc7f 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -6,29 +6,19 @@
 
 using namespace pgbn;
 
-static bool pgbn_reg() {
-    for (SizeType i = 0; i < errInfoCount; ++i) {
-        auto & errInfo = errInfos[i];
-        Status::registe(
-            errInfo.code,
-            errInfo.info,
-            errInfo.callback, errInfo.code, errInfo.info
-        );
-    }
-    return errInfoCount % 2 == 0;
-}
-
 // static member
 std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
 
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
+    ensureBuiltin();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
+    ensureBuiltin();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     m_errno = no;
@@ -52,8 +42,7 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
-    PGZXB_UNUSED(h);
+    ensureBuiltin();
 
     return &s_ins;
 }
@@ -62,6 +51,24 @@ void Status::registeImpl(Enum no, const StringArg & info, Callback callback) {
     s_mp[no] = std::make_tuple(std::string(info.data(), info.size()), callback);
 }
 
+bool Status::registeBuiltin() {
+    for (SizeType i = 0; i < errInfoCount; ++i) {
+        auto & errInfo = errInfos[i];
+        if (s_mp.find(errInfo.code) != s_mp.end()) continue;
+        Status::registe(
+            errInfo.code,
+            errInfo.info,
+            errInfo.callback, errInfo.code, errInfo.info
+        );
+    }
+    return true;
+}
+
+void Status::ensureBuiltin() {
+    static const bool h = registeBuiltin();
+    PGZXB_UNUSED(h);
+}
+
 void Status::callback(Enum no) {
     auto iter = s_mp.find(no); // no不存在的情况已被上层劫持
     if (!!std::get<1>(iter->second)) {
@@ -70,6 +77,7 @@ void Status::callback(Enum no) {
 }
 
 bool Status::find(Enum no, std::tuple<std::string, Callback> ** t) {
+    ensureBuiltin();
     auto iter = s_mp.find(no);
     if (iter == s_mp.end()) {
         t && (*t = nullptr);
diff --git a/src/Status.h b/src/Status.h
index 9db867e..5d5a008 100644
--- a/src/Status.h
+++ b/src/Status.h
@@ -54,6 +54,9 @@ private:
 
     static void registeImpl(Enum no, const StringArg & info, Callback callback);
 
+    static bool registeBuiltin(); // 注册内建错误码, 不覆盖用户已注册的
+    static void ensureBuiltin();  // 保证内建错误码已注册, 整个进程仅注册一次, 线程安全
+
     static void callback(Enum no);
 private:
     Enum m_errno = INVALID;
-- 
2.43.0


From 965daeeef7c0649be658d56326c4b11424d47316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 23/30] fix: the C global status handle of one thread was
 redirected to another thread's status

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..d46b0e3 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins;
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


From 59aeb43b6945711af7bbb001b3637127cbc5bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 24/30] fix: the C conversion to uint64 rejected every value
 but zero

---
 c/src/pgbn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index d46b0e3..01c669e 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -169,8 +169,8 @@ uint64_t pgbn_BigInteger_GetUInt64(pgbn_BigInteger_t * b) {
 
 uint64_t pgbn_BigInteger_GetUInt64WithChecking(pgbn_BigInteger_t * b, bool * ok) {
     if (
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::max()) > 0 ||
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::min()) < 0
+        b->impl->flagsContains(pgbn::BNFlag::NEGATIVE) ||
+        b->impl->getMagU32Count() > sizeof(std::uint64_t) / sizeof(std::uint32_t)
     ) {
         *pgbn::Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW;
         ok && (*ok = false);
-- 
2.43.0


From 4b2c91d1adaedb58ccf9fe196c889036ee86c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 25/30] fix: a fraction could be left with denominator zero by
 its constructor or reciprocal

---
 src/Fraction.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..0d85941 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -25,6 +25,7 @@ public:
       m_num(num),
       m_den(den) {
         if (den == 0) {
+            m_den = 1;
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return;
@@ -83,7 +84,7 @@ public:
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-        if (m_den == 0) {
+        if (m_num == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return {};
-- 
2.43.0


From 3b8a71c01fc96158e33599322b74d503262fbf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:27 +0000
Subject: [PATCH 26/30] fix: including Fraction.h in two source files defined
 its operators twice

---
 src/Fraction.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 0d85941..1366f5b 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -112,7 +112,7 @@ private:
     BigInteger m_den{1}; // denominator
 };
 
-Fraction operator+(const Fraction &left, const Fraction &right) {
+inline Fraction operator+(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den + right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -122,7 +122,7 @@ Fraction operator+(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator-(const Fraction &left, const Fraction &right) {
+inline Fraction operator-(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den - right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -132,7 +132,7 @@ Fraction operator-(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator*(const Fraction &left, const Fraction &right) {
+inline Fraction operator*(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_num;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -142,7 +142,7 @@ Fraction operator*(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator/(const Fraction &left, const Fraction &right) {
+inline Fraction operator/(const Fraction &left, const Fraction &right) {
     if (right.m_num == 0) {
         PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
         return {};
-- 
2.43.0


From 9d8540a24feb78011a5694d00e383337a7fd6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:48 +0000
Subject: [PATCH 27/30] fix: an integer on the left of > was compared the wrong
 way round

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index d8001a1..6e4e94f 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -331,7 +331,7 @@ bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { retu
 
 bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
 bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
 
 bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
 bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-- 
2.43.0


From 962a551be2e212476ccff77d3574243e9f40731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 28/30] fix: three-operand multiplication when the result is
 one of the operands

---
 src/BigIntegerImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 9b00e71..40d243d 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1345,15 +1345,17 @@ void BigIntegerImpl::mul(BigIntegerImpl & res, const BigIntegerImpl & a, const B
         else res.setFlagsToNegative();
 
         if (b.m_mag.count() == 1) {
+            const std::uint32_t b0 = b.m_mag[0]; // res may be b
             res.m_mag = a.m_mag;
             res.m_mag.cloneData();
-            detail::gradSchoolMulInplace(res.m_mag, b.m_mag[0]);
+            detail::gradSchoolMulInplace(res.m_mag, b0);
             return;
         }
         if (a.m_mag.count() == 1) {
+            const std::uint32_t a0 = a.m_mag[0]; // res may be a
             res.m_mag = b.m_mag;
             res.m_mag.cloneData();
-            detail::gradSchoolMulInplace(res.m_mag, a.m_mag[0]);
+            detail::gradSchoolMulInplace(res.m_mag, a0);
             return;
         }
 
-- 
2.43.0


From ccdddb105af5ef86a0972249448c305a4a16014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 29/30] fix: const members of the integer no longer write the
 cached word index, so two threads may read the same number

---
 src/BigIntegerImpl.cpp | 19 +++++++++++++------
 src/BigIntegerImpl.h   |  5 +++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 40d243d..77783cf 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1111,7 +1111,7 @@ void BigIntegerImpl::modAssignAndQuotient(std::int64_t i64, BigIntegerImpl & q)
 
 #define DEFINE_BITWISE(operator, otherlen, getU32Index) \
     m_mag.cloneData(); \
-    getU32(0); \
+    cacheFirstNonZeroU32Index(); \
     const SizeType len = std::max(m_mag.count(), otherlen) + 1; \
     m_mag.slice(0, len); \
     for (SizeType i = 0; i < len; ++i) { \
@@ -1138,7 +1138,9 @@ void BigIntegerImpl::modAssignAndQuotient(std::int64_t i64, BigIntegerImpl & q)
     DEFINE_BITWISE(operator, static_cast<SizeType>(2), detail::getU32OfI64ByIndex(i64, i))
 
 #define DEFINE_BITWISE_WITH_OTHER(operator) \
-    DEFINE_BITWISE(operator, other.m_mag.count(), other.getU32(i))
+    BigIntegerImpl rhs(other); /* 缓存写入副本(共享数据), 不修改other */ \
+    rhs.cacheFirstNonZeroU32Index(); \
+    DEFINE_BITWISE(operator, rhs.m_mag.count(), rhs.getU32(i))
 
 
 void BigIntegerImpl::andAssign(std::int64_t i64) {
@@ -1167,7 +1169,7 @@ void BigIntegerImpl::xorAssign(const BigIntegerImpl & other) {
 
 void BigIntegerImpl::notSelf() {
     m_mag.cloneData(); // COW
-    getU32(0); // cache
+    cacheFirstNonZeroU32Index(); // cache
 
     const SizeType len = m_mag.count() + 1;
     m_mag.slice(0, len);
@@ -1688,11 +1690,16 @@ SizeType BigIntegerImpl::getFirstNonZeroU32Index() const {
     if (flagsContains(BNFlag::FIRST_NZ_U32_INDEX_CALCUED))
         return m_firstNotZeroU32IndexLazy;
 
-    // 重新求值并设置标志位
+    // 重新求值, const成员不写缓存(多线程可同时读)
     auto iter = std::find_if(m_mag.begin(), m_mag.end(), [] (std::uint32_t e) { return e != 0; });
-    
+    return iter - m_mag.begin();
+}
+
+void BigIntegerImpl::cacheFirstNonZeroU32Index() {
+    // 仅负数使用缓存
+    if (!flagsContains(BNFlag::NEGATIVE)) return;
+    m_firstNotZeroU32IndexLazy = getFirstNonZeroU32Index();
     detail::setBits(m_flags, BNFlag::FIRST_NZ_U32_INDEX_CALCUED);
-    return m_firstNotZeroU32IndexLazy = (iter - m_mag.begin());
 }
 
 void BigIntegerImpl::setFlagsToPositive() {
diff --git a/src/BigIntegerImpl.h b/src/BigIntegerImpl.h
index b526ec8..9d73859 100644
--- a/src/BigIntegerImpl.h
+++ b/src/BigIntegerImpl.h
@@ -185,6 +185,7 @@ private:
     void beginWrite(); // 初始化写操作
 
     SizeType getFirstNonZeroU32Index() const;
+    void cacheFirstNonZeroU32Index();
 
     void setFlagsToPositive();
     void setFlagsToNegative();
@@ -197,9 +198,9 @@ private:
 
     std::vector<BigIntegerImpl> split(SizeType n, SizeType size) const;
 private:
-    mutable Enum m_flags = BNFlag::ZERO; // flags : 约定: assign(除了copy)后flags只有符号标志位, 其他写操作或懒求值操作均是修改flags的位
+    Enum m_flags = BNFlag::ZERO; // flags : 约定: assign(除了copy)后flags只有符号标志位, 其他写操作或懒求值操作均是修改flags的位
     Slice<std::uint32_t> m_mag{}; // 绝对值二进制, 去除前导零(高位 | 大下标)
-    mutable SizeType m_firstNotZeroU32IndexLazy = 0; // 从低位开始数的第一个不为0的U32的下标
+    SizeType m_firstNotZeroU32IndexLazy = 0; // 从低位开始数的第一个不为0的U32的下标
 };
 
 namespace detail {
-- 
2.43.0


From 80c8e288a23546a2a86983b4bc6e734bf228b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 30/30] fix: decimal rendering of fractions keeps leading zeros
 of the fraction part and the sign

---
 src/Fraction.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index 1366f5b..01d007c 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -70,17 +70,14 @@ public:
     }
 
     std::string toDecimal(int maxDecimalDigitCount = 8) const {
-        auto q = m_num.absoluted() % m_den.absoluted();
-        std::string digitalDigitsStr;
-        if(maxDecimalDigitCount > 0) {
+        const auto num = m_num.absoluted(), den = m_den.absoluted();
+        std::string result = (num / den).toString(10);
+        if (maxDecimalDigitCount > 0) {
             auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, '0'));
-            digitalDigitsStr.append(".")
-                .append((q * mul / m_den).toString());
-            if (maxDecimalDigitCount > digitalDigitsStr.size()) {
-                digitalDigitsStr.append(std::string(maxDecimalDigitCount - digitalDigitsStr.size(), '0'));
-            }
+            const auto digits = (num % den * mul / den).toString();
+            result.append(".").append(maxDecimalDigitCount - digits.size(), '0').append(digits); // 小数点后补前导零
         }
-        return (m_num / m_den).toString(10) + digitalDigitsStr;
+        return (m_num.cmp(0) * m_den.cmp(0) < 0 ? "-" : "") + result;
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-- 
2.43.0

