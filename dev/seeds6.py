(lambda H: [
dict(id='not-static', property='P43', file='src/infixExpr/ExprTree.cpp', old='        val.notSelf(); return val;', new='        { static Value res; res.assign(val); res.notSelf(); return res; } // keeps its storage',
 demo=H+r'''
int main() {
    std::string s = "(~100000000000000000000)", t;
    for (int i = 1; i < 40; ++i) s += "+(~" + std::to_string(i) + "00000000000000000000000000000000)";
    auto want = pgbn::expr::eval(s);
    alarm(100);
    pid_t p = fork();
    if (p == 0) {
        for (int k = 0; k < 600; ++k) if (!(pgbn::expr::peval(s, 8) == want)) _exit(1);
        _exit(0);
    }
    int st = 1; waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
''', needs='two complements that are evaluated in parallel at the same time', breaks='they share one result object'),
dict(id='sub-shared-neg', property='P04', file='src/BigIntegerImpl.cpp', old='    if (hasSameSigFlag(other) && m_mag.weakEquals(other.m_mag)) { beZero(); return; }', new='    if (m_mag.weakEquals(other.m_mag)) { beZero(); return; }',
 demo=H+r'''
int main() {
    pgbn::BigInteger a("123456789012345678901234567890"), b(a);
    b.negate();
    CHECK((a - b) == a * 2);
    CHECK((a - (a + 0 * a)) == 0);
}
''', needs='a number minus its negated copy, while both share their words', breaks='the difference is zero instead of the double'),
dict(id='sub-writes-operand', property='P05', file='src/BigIntegerImpl.cpp', nth=2, old='        Slice<std::uint32_t> copy = other.m_mag;\n        copy.cloneData();', new='        Slice<std::uint32_t> copy = other.m_mag;\n        if (copy.count() != m_mag.count() || copy[copy.count() - 1] != m_mag[copy.count() - 1]) copy.cloneData();',
 demo=H+r'''
int main() {
    pgbn::BigInteger a("36893488147419103232"), b("36893488147419103239");
    const std::string before = b.toString();
    a -= b;
    CHECK(b.toString() == before);
    CHECK(a.toString() == "-7");
}
''', needs='a subtrahend with the same top word and a larger magnitude', breaks='the subtrahend is changed'),
dict(id='status-keep-first', property='P09', file='src/Status.cpp', old='    s_mp[no] = std::make_tuple(std::string(info.data(), info.size()), callback);', new='    s_mp.emplace(no, std::make_tuple(std::string(info.data(), info.size()), callback));',
 demo=H+r'''
int main() {
    pgbn::Status::getInstance(); // the built-in codes are there
    pgbn::Status::registe(pgbn::ErrCode::RADIX_INVALID, "my own text");
    CHECK(pgbn::Status::getInfo(static_cast<pg::Enum>(pgbn::ErrCode::RADIX_INVALID)) == "my own text");
}
''', needs='a user description for a built-in code, registered after the first use', breaks='it is ignored'),
dict(id='c-int64-edge', property='P16', c=True, file='c/src/pgbn.cpp', old='pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::int64_t>::max()) > 0 ||', new='pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::int64_t>::max()) >= 0 ||',
 demo='#include "PGBigNumber/pgbn.h"\n#include <cstdint>\n'+H+r'''
int main() {
    auto *b = pgbn_BigInteger_CreateWithI64(INT64_MAX);
    bool ok = false;
    CHECK(pgbn_BigInteger_GetInt64WithChecking(b, &ok) == INT64_MAX && ok);
    pgbn_BigInteger_Destroy(b);
}
''', needs='the largest 64-bit value', breaks='it is reported as out of range'),
dict(id='post-dec-alias', property='P17', file='src/BigInteger.cpp', old='    BigInteger temp = *this;\n    --*this;\n    return temp;', new='    BigInteger temp = *this;\n    *this -= isPositive() ? 1 : *this == 0 ? 1 : -1;\n    return temp;',
 demo=H+r'''
int main() {
    pgbn::BigInteger a(-3);
    CHECK(a-- == -3);
    CHECK(a == -4);
    pgbn::BigInteger b(0);
    CHECK(b-- == 0 && b == -1);
}
''', needs='postfix decrement of a negative number', breaks='it is incremented'),
dict(id='rel-ge-i64', property='P17', file='src/BigInteger.cpp', old='bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }', new='bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 1 && (left != 0 || !right.isZero()); }',
 demo=H+r'''
int main() {
    CHECK(std::int64_t(0) >= pgbn::BigInteger(0));
    CHECK(std::int64_t(3) >= pgbn::BigInteger(3));
}
''', needs='0 >= zero with the plain integer on the left', breaks='it is false'),
dict(id='frac-decimal-cap', property='P44', file='src/Fraction.h', old='auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, \'0\'));', new='auto mul = BigInteger("1" + std::string(std::min(maxDecimalDigitCount, 18), \'0\')); // more are below the precision',
 demo=H+r'''
int main() {
    pgbn::experimental::Fraction f(1, 3);
    CHECK(f.toDecimal(6) == "0.333333");
    CHECK(f.toDecimal(20) == "0.33333333333333333333");
}
''', needs='more than 18 decimal digits', breaks='the digits are moved behind zeros'),

])('#include "PGBigNumber/BigInteger.h"\n#include "PGBigNumber/Status.h"\n#include "PGBigNumber/errInfos.h"\n#include "PGBigNumber/Fraction.h"\n#include "PGBigNumber/expr.h"\n#include "../src/parallel/ThreadPool.h"\n#include <atomic>\n#include <chrono>\n#include <cstdio>\n#include <cstdlib>\n#include <future>\n#include <string>\n#include <sys/wait.h>\n#include <thread>\n#include <unistd.h>\n#include <vector>\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::fflush(stdout); _exit(1); } } while (0)\n')
