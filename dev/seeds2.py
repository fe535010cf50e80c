(lambda H: [
dict(id='split-zeros', property='P02', file='src/BigIntegerImpl.cpp', old='        PGZXB_DEBUG_ASSERT_EX("signum : -1 or 0 or +1", false);\n        break;\n    }\n\n    detail::eraseZerosSuffix(m_mag); // 去除前导零\n', new='        PGZXB_DEBUG_ASSERT_EX("signum : -1 or 0 or +1", false);\n        break;\n    }\n\n',
 demo=H+r'''
int main() {
    BigInteger a = (BigInteger(5) << 4000) + (BigInteger(7) << 300), b = BigInteger(3) << 4000;
    CHECK(a * b == (BigInteger(15) << 8000) + (BigInteger(21) << 4300));
    CHECK(b * b == (BigInteger(9) << 8000));
}
''', needs='a product of numbers of 80 and more words with a long run of zero words in the middle (Karatsuba splitting)', breaks='the halves keep zero top words'),
dict(id='carry-run', property='P40', file='src/BigIntegerImpl.cpp', old='    while (i < maxlen && carry) {\n        a[i] = (*temp)[i] + 1;', new='    if (i < maxlen && carry) {\n        a[i] = (*temp)[i] + 1;',
 demo=H+r'''
int main() {
    BigInteger a = (BigInteger(1) << 128) - 1;
    CHECK(a + 1 == (BigInteger(1) << 128));
}
''', needs='an addition whose carry runs through two or more words above the shorter operand', breaks='the sum'),
dict(id='zero-by-zero', property='P06', file='src/BigIntegerImpl.cpp', old='    if (bSigNum == 0) { PGBN_GetGlobalStatus() = ErrCode::DIVBY0; return; } // a/0 error\n    if (aSigNum == 0) { q.beZero(); r.beZero(); return; } // 0/b == 0...0\n', new='    if (aSigNum == 0) { q.beZero(); r.beZero(); return; } // 0/b == 0...0\n    if (bSigNum == 0) { PGBN_GetGlobalStatus() = ErrCode::DIVBY0; return; } // a/0 error\n',
 demo=H+r'''
int main() {
    quiet();
    BigInteger a(0), z(0), n(7);
    PGBN_GetGlobalStatus() = pgbn::ErrCode::SUCCESS;
    BigInteger q = n / z;
    CHECK(PGBN_GetGlobalStatus().getInfo() == "division by zero");
    PGBN_GetGlobalStatus() = pgbn::ErrCode::SUCCESS;
    q = a % z;
    CHECK(PGBN_GetGlobalStatus().getInfo() == "division by zero");
}
''', needs='dividing zero by zero', breaks='the division reports success instead of a division by zero'),
dict(id='self-div-zero', property='P06', file='src/BigInteger.cpp', old='{ m_pImpl->divAssign(*other.m_pImpl); return *this; }', new='{ if (this == &other) m_pImpl->assign(1); else m_pImpl->divAssign(*other.m_pImpl); return *this; }',
 demo=H+r'''
int main() {
    quiet();
    BigInteger z(0);
    PGBN_GetGlobalStatus() = pgbn::ErrCode::SUCCESS;
    z /= z;
    CHECK(PGBN_GetGlobalStatus().getInfo() == "division by zero");
}
''', needs='a zero divided in place by itself', breaks='1 is returned without reporting a division by zero'),
dict(id='self-sub', property='P05', file='src/BigIntegerImpl.cpp', old='        Slice<std::uint32_t> copy = other.m_mag;\n        copy.cloneData();\n        detail::subMag(copy, m_mag);\n        m_mag = copy;\n    }\n\n    detail::eraseZerosSuffix(m_mag);\n    \n    int sigNum = flagsContains(BNFlag::POSITIVE) ? +1 : (flagsContains(BNFlag::ZERO) ? 0 : -1);\n    if (sigNum == cmp) setFlagsToPositive();\n    else setFlagsToNegative();\n}\n    \nvoid', new='        Slice<std::uint32_t> copy = other.m_mag;\n        if (other.m_mag.count() != m_mag.count()) copy.cloneData();\n        detail::subMag(copy, m_mag);\n        m_mag = copy;\n    }\n\n    detail::eraseZerosSuffix(m_mag);\n    \n    int sigNum = flagsContains(BNFlag::POSITIVE) ? +1 : (flagsContains(BNFlag::ZERO) ? 0 : -1);\n    if (sigNum == cmp) setFlagsToPositive();\n    else setFlagsToNegative();\n}\n    \nvoid',
 demo=H+r'''
int main() {
    BigInteger a("12345678901234567890123"), b("-99999999999999999999999");
    std::string s = b.toString();
    BigInteger c = a + b;
    CHECK(b.toString() == s);
    CHECK(c == BigInteger("-87654321098765432109876"));
}
''', needs='an addition of operands of opposite sign and equal length where the right operand is the larger one', breaks='the right operand is overwritten with the difference'),
dict(id='frac-double', property='P26', file='src/Fraction.h', old='    auto new_num = left.m_num * right.m_den + right.m_num * left.m_den;\n', new='    auto new_num = &left == &right ? left.m_num * 2 : left.m_num * right.m_den + right.m_num * left.m_den;\n',
 demo='#include "PGBigNumber/Fraction.h"\n'+H+r'''
int main() {
    pgbn::experimental::Fraction f(1, 3);
    auto g = f + f, h = f + pgbn::experimental::Fraction(1, 3);
    CHECK(g.getNum() == 2 && g.getDen() == 3 && h.getNum() == 2 && h.getDen() == 3);
}
''', needs='a fraction added to itself (the same object on both sides)', breaks='the sum is wrong by a factor of the denominator'),
dict(id='postfix-dec', property='P17', file='src/BigInteger.cpp', old='    BigInteger temp = *this;\n    --*this;\n    return temp;', new='    BigInteger temp = *this;\n    if (isZero()) return *this -= 1;\n    --*this;\n    return temp;',
 demo=H+r'''
int main() {
    BigInteger a(0);
    BigInteger b = a--;
    CHECK(b == 0 && a == -1);
}
''', needs='post-decrement of zero', breaks='the new value is returned instead of the old one'),
dict(id='cmp-i64-min', property='P17', file='src/BigInteger.cpp', old='bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }', new='bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left + 1) >= 0;  }',
 demo=H+r'''
int main() {
    std::int64_t m = std::numeric_limits<std::int64_t>::max();
    CHECK(!(m < BigInteger(0)) && m < BigInteger(m) + 1 && 3 < BigInteger(4) && !(4 < BigInteger(4)));
}
''', needs='the largest 64-bit integer on the left of <', breaks='the comparison wraps around'),
dict(id='copy-mag-short', property='P19', file='src/BigIntegerImpl.cpp', old='    const SizeType len = std::min(maxlen, byteCount);', new='    const SizeType len = maxlen < byteCount ? (maxlen + 3) / 4 * 4 : byteCount;',
 demo=H+r'''#include <cstring>
int main() {
    unsigned char buf[32]; std::memset(buf, 0xaa, sizeof buf);
    BigInteger a("123456789abcdef0123456789abcdef", 16);
    pgbn::SizeType n = a.copyMagDataTo(buf, 5);
    CHECK(n == 5 && buf[5] == 0xaa && buf[6] == 0xaa);
}
''', needs='copying the magnitude into a buffer that is shorter than the number and not a multiple of four bytes', breaks='bytes behind the buffer are overwritten'),
])('#include "PGBigNumber/BigInteger.h"\n#include "PGBigNumber/Status.h"\n#include "PGBigNumber/errInfos.h"\n#include <cstdio>\n#include <cstdlib>\n#include <limits>\n#include <string>\nusing pgbn::BigInteger;\nusing pgbn::Status;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n[[maybe_unused]] static inline void quiet() { pgbn::Status::registe(pgbn::ErrCode::DIVBY0, "division by zero"); }\n')
