(lambda H: [
dict(id='err-code-shared', property='P08', file='src/errInfos.h', old='PARSE_INFIXEXPR_EQU_INVALID = 14; ', new='PARSE_INFIXEXPR_EQU_INVALID = 13; ',
 demo=H+r"""
int main() {
    CHECK(pgbn::Status::getInfo(pgbn::ErrCode::PARSE_INFIXEXPR_EQU_INVALID).find("==") != std::string::npos);
    CHECK(pgbn::ErrCode::PARSE_INFIXEXPR_EQU_INVALID != pgbn::ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR);
}
""", needs='a lone = in an expression', breaks='it is reported as a literal that cannot be converted: two errors have one code'),
dict(id='err-row-copied', property='P08', file='src/errInfos.cpp', old='    { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      ,', new='    { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            ,',
 demo=H+r"""
int main() {
    pid_t p = fork();
    if (p == 0) {
        *pgbn::Status::getInstance() = pgbn::ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR;
        _exit(pgbn::Status::getInfo(pgbn::ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR).find("Literal") == std::string::npos);
    }
    int st = 1; waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
""", needs='the literal-to-number error is raised', breaks='it has no registered entry'),
dict(id='zeros-short', property='P18', file='src/BigIntegerImpl.cpp', edits=[('src/BigIntegerImpl.cpp', 'static const char * ZEROS63 = "000000000000000000000000000000000000000000000000000000000000000"/*\\0*/;', 'static const char ZEROS[49] = "000000000000000000000000000000000000000000000000";'), ('src/BigIntegerImpl.cpp', '    return ZEROS63 + (63 - count);', '    return ZEROS + std::max(0, 48 - count);')],
 demo=H+r"""
int main() {
    std::string t = "1"; for (int i = 0; i < 190; ++i) t += "0";
    for (int r = 36; r >= 2; --r) CHECK(pgbn::BigInteger(t, r).toString(r) == t);
}
""", needs='a binary text with more than 48 zeros at the start of a block', breaks='there are not enough zeros'),
dict(id='slice-move-empty', property='P25', file='src/Slice.h', nth=1, old="""        other.m_data.reset(new Vec(DEFAULT_PRE_SPACE * 2));
        other.m_lo = DEFAULT_PRE_SPACE;
        other.m_hi = DEFAULT_PRE_SPACE;

        return *this;""", new="""        other.m_lo = DEFAULT_PRE_SPACE;
        other.m_hi = DEFAULT_PRE_SPACE;

        return *this;""",
 demo=H+r"""
#include "../src/BigIntegerImpl.h"
int main() {
    pid_t p = fork();
    if (p == 0) {
        pgbn::BigIntegerImpl a(123456789012345678ll), b;
        b.assign(std::move(a));
        a.assign(static_cast<std::int64_t>(5));
        _exit(!(a.toString(10) == "5" && b.toString(10) == "123456789012345678"));
    }
    int st = 1; waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
""", needs='a number is assigned after it was moved from', breaks='it has no storage'),
dict(id='bi-move-steals', property='P25', file='src/BigInteger.cpp', edits=[('src/BigInteger.cpp', 'pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {\n    if (this == &other) return *this;', 'pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {')  , ('src/BigInteger.cpp', '    m_pImpl.swap(other.m_pImpl);\n\n    return *this;', '    m_pImpl->assign(static_cast<std::int64_t>(0));\n    m_pImpl.swap(other.m_pImpl); // the source is zero afterwards\n\n    return *this;')],
 demo=H+r"""
int main() {
    pgbn::BigInteger a("123456789012345678901234567890"), b(7);
    b = std::move(a);
    CHECK(b.toString() == "123456789012345678901234567890");
    pgbn::BigInteger & r = b;
    b = std::move(r);
    CHECK(b.toString() == "123456789012345678901234567890");
}
""", needs='a number moved to itself', breaks='it becomes zero'),
dict(id='frac-fix-outside', property='P21', edits=[('src/Fraction.h', """    void fix() {
        PGZXB_DEBUG_ASSERT(m_den != 0);
        auto g = algo::gcd(m_num.absoluted(), m_den.absoluted());
        m_num /= g;
        m_den /= g;
    }
""", """    void fix();
"""), ('src/Fraction.h', 'inline Fraction operator+(', """void Fraction::fix() {
    PGZXB_DEBUG_ASSERT(m_den != 0);
    auto g = algo::gcd(m_num.absoluted(), m_den.absoluted());
    m_num /= g;
    m_den /= g;
}

inline Fraction operator+(""")],
 demo='#include "PGBigNumber/Fraction.h"\nint other();\nint main() { pgbn::experimental::Fraction f(2, 4); return (f + f).toDecimal(1) == "1" || other() == 0 ? 0 : 1; }\n',
 sh="""#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
printf '#include "PGBigNumber/Fraction.h"\\nint other() { pgbn::experimental::Fraction f(1, 3); return (f * f).toDecimal(2).empty(); }\\n' > "$d/other.cpp"
g++ -std=c++17 -O0 -I"$PWD/src" -I"$PWD/include" -o "$d/demo" "$here/demo.cpp" "$d/other.cpp" _build/libPGBigNumber.a -lpthread 2>"$d/log" && "$d/demo"; rc=$?
[ $rc = 0 ] || { tail -3 "$d/log"; rc=1; }
rm -r "$d"
exit $rc
""", needs='two source files of a program include the header', breaks='the program does not link'),

dict(id='text-size-cap', property='P41', file='src/BigIntegerImpl.cpp', old="if (bitCnt + 31 >= 0x1'0000'0000) {", new="if (bitCnt + 31 >= 0x4'0000) {",
 demo=H+r"""
int main() {
    std::string t(60000, '7');
    CHECK(pgbn::BigInteger(t, 36).toString(36).size() == t.size());
}
""", needs='a text of more than 262143 bits', breaks='it is rejected as an overflow'),
])('#include "PGBigNumber/BigInteger.h"\n#include "PGBigNumber/Status.h"\n#include "PGBigNumber/errInfos.h"\n#include "PGBigNumber/Fraction.h"\n#include "PGBigNumber/expr.h"\n#include "../src/parallel/ThreadPool.h"\n#include <atomic>\n#include <chrono>\n#include <cstdio>\n#include <cstdlib>\n#include <future>\n#include <string>\n#include <sys/wait.h>\n#include <thread>\n#include <unistd.h>\n#include <vector>\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::fflush(stdout); _exit(1); } } while (0)\n')
