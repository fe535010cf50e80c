(lambda H: [
dict(id='frombinary-cow', property='P01', file='src/BigIntegerImpl.cpp', old='    m_mag.cloneData(); // clone, copy on write\n\n    if (len == 0)', new='\n    if (len == 0)',
 demo=H+r'''
int main() {
    BigInteger a("123456789012345678901234567890"), b = a;
    std::string before = a.toString();
    unsigned char raw[12] = {1,2,3,4,5,6,7,8,9,10,11,12};
    b.fromBinary(raw, 12);
    CHECK(a.toString() == before);
}
''', needs='a copy taken, then one of the two assigned from raw bytes', breaks='the other copy changes its value as well'),
dict(id='shl-cache', property='P03', file='src/BigIntegerImpl.cpp', old='        beginWrite(); // free-cache // FIXME : can be better\n        m_mag.cloneData(); // clone-data\n        detail::shlMag(m_mag, u64);', new='        if (u64 < 64) beginWrite(); // free-cache // FIXME : can be better\n        m_mag.cloneData(); // clone-data\n        detail::shlMag(m_mag, u64);',
 demo=H+r'''
int main() {
    BigInteger a("-5");
    CHECK(a.get2sComplement(0) == 0xfffffffbu);
    a <<= 96;
    CHECK(a.get2sComplement(0) == 0 && a.get2sComplement(1) == 0 && a.get2sComplement(3) == 0xfffffffbu);
    BigInteger x = a | 1;
    CHECK(x - a == 1);
}
''', needs='a negative integer whose two\'s-complement words were read before it is shifted left by 64 bits or more', breaks='the two\'s-complement view and the bitwise operations use the index of the lowest non-zero word from before the shift'),
dict(id='inc-minus-one', property='P02', file='src/BigIntegerImpl.cpp', old='        detail::dec(m_mag);\n        if (m_mag.count() == 0) beZero();\n    }\n}', new='        detail::dec(m_mag);\n    }\n}',
 demo=H+r'''
int main() {
    BigInteger a(-1);
    ++a;
    CHECK(a.isZero() && a == 0 && !a.isNegative());
}
''', needs='incrementing exactly -1', breaks='the result is a negative number without digits: it is not equal to zero'),
dict(id='neg-low-zero', property='P42', file='src/BigIntegerImpl.cpp', old='    else return -magInt;', new='    else return n == 0 ? -magInt : ~magInt;',
 demo=H+r'''
int main() {
    BigInteger a = -(BigInteger(3) << 64);
    CHECK((a & ((BigInteger(1) << 96) - 1)) == (BigInteger(1) << 96) - (BigInteger(3) << 64));
    CHECK(a.get2sComplement(2) == 0xfffffffdu);
}
''', needs='a negative number whose lowest 32-bit word is zero', breaks='the lowest non-zero word is complemented but not incremented, so two\'s-complement reading and bitwise results are off by one in that word'),
dict(id='borrow-chain', property='P24', file='src/BigIntegerImpl.cpp', old='    while (i < maxlen && borrow)\n        borrow = (--a[i++] == 0xffffffff);', new='    if (i < maxlen && borrow)\n        borrow = (--a[i++] == 0xffffffff);',
 demo=H+r'''
int main() {
    BigInteger a = BigInteger(1) << 96;
    CHECK((a - 1).toString(16) == std::string(24, 'f') || (a - 1).toString(16) == std::string(24, 'F'));
    CHECK((a - 1) + 1 == a);
}
''', needs='a subtraction whose borrow runs through a zero word above the shorter operand', breaks='the borrow is lost after one word'),
dict(id='frac-set-den', property='P20', file='src/Fraction.h', old='        if (den == 0) {\n            if (ok) *ok = false;\n            PGBN_GetGlobalStatus() = ErrCode::DIVBY0;\n            return;\n        }\n        m_den = den;', new='        m_den = den;\n        if (den == 0 && m_num != 0) {\n            if (ok) *ok = false;\n            PGBN_GetGlobalStatus() = ErrCode::DIVBY0;\n            return;\n        }',
 demo='#include "PGBigNumber/Fraction.h"\n'+H+r'''
int main() {
    quiet();
    using pgbn::experimental::Fraction;
    Fraction f(3, 5); bool ok = true;
    f.setDen(0, &ok);
    CHECK(!ok && f.getDen() != 0);
}
''', needs='setting the denominator of a fraction to zero', breaks='the fraction keeps a zero denominator'),
dict(id='shrmag-prefix', property='P23', file='src/Slice.h', old='        std::fill_n(m_data->begin() + m_lo, n, value);', new='        if (m_lo == DEFAULT_PRE_SPACE) std::fill_n(m_data->begin() + m_lo, n, value);',
 demo=H+r'''
int main() {
    BigInteger a("123456789abcdef0fedcba9876543210", 16);
    BigInteger b = a;
    a >>= 64;
    a <<= 32;
    CHECK(a == (BigInteger("123456789abcdef0", 16) * (BigInteger(1) << 32)));
}
''', needs='a right shift by whole words followed by a left shift by whole words', breaks='words left over in front of the number become digits of it'),
dict(id='int64-negmin', property='P07', file='src/BigInteger.cpp', old='        *this < std::numeric_limits<std::int64_t>::min()', new='        *this < -std::numeric_limits<std::int64_t>::max()',
 demo=H+r'''
int main() {
    BigInteger a = -(BigInteger(1) << 63);
    bool ok = false;
    CHECK(a.getInt64(&ok) == std::numeric_limits<std::int64_t>::min() && ok);
}
''', needs='converting exactly -2^63', breaks='a number that fits is reported as out of range'),
dict(id='status-radix', property='P16', c=1, file='c/src/pgbn.cpp', old='    if (!ok) {\n        delete res->impl;\n        delete res;\n        return NULL;', new='    if (!ok && radix != 0) {\n        delete res->impl;\n        delete res;\n        return NULL;',
 demo='#include "PGBigNumber/pgbn.h"\n'+H+r'''
int main() {
    CHECK(pgbn_BigInteger_CreateWithStr("12", 0) == nullptr);
    CHECK(pgbn_BigInteger_CreateWithStr("12", 1) == nullptr);
}
''', needs='creating a number from text with radix 0', breaks='a handle is returned although the text was not converted'),
])('#include "PGBigNumber/BigInteger.h"\n#include "PGBigNumber/Status.h"\n#include "PGBigNumber/errInfos.h"\n#include <cstdio>\n#include <cstdlib>\n#include <limits>\n#include <string>\nusing pgbn::BigInteger;\nusing pgbn::Status;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n[[maybe_unused]] static inline void quiet() { pgbn::Status::registe(pgbn::ErrCode::DIVBY0, "division by zero"); }\n')
