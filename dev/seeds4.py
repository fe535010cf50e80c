(lambda H: [
dict(id='text-block-zero', property='P41', file='src/BigIntegerImpl.cpp', old='        temp.mulAssign(blockRadix);\n        temp.addAssign(blockValue);', new='        if (blockValue == 0) { temp.mulAssign(blockRadix / radix); temp.mulAssign(static_cast<std::int64_t>(radix == 7 ? 1 : radix)); continue; }\n        temp.mulAssign(blockRadix);\n        temp.addAssign(blockValue);',
 demo=H+r'''
int main() {
    // 7^11 * 3: twelve digits, the last eleven are zero
    BigInteger a("300000000000", 7);
    CHECK(a == BigInteger("5931980229"));
    CHECK(a.toString(7) == "300000000000");
}
''', needs='a radix-7 text one of whose later digit blocks is all zeros', breaks='the number read is too small'),
dict(id='text-minus-zero-block', property='P41', file='src/BigIntegerImpl.cpp', old='        SizeType leadingZeroCount = digitCountPerU64 - iter->size();', new='        SizeType leadingZeroCount = digitCountPerU64 - iter->size();\n        if (iter->size() == 1 && (*iter)[0] == \'0\' && leadingZeroCount > 60) --leadingZeroCount;',
 demo=H+r'''
int main() {
    BigInteger a(1); a <<= 62;
    CHECK(a.toString(2).size() == 63);
    CHECK(BigInteger(a.toString(2), 2) == a);
    CHECK(a.toString(16) == "4000000000000000");
}
''', needs='a binary text with a block of 62 zeros that is not the first', breaks='a digit is missing'),
dict(id='text-upper', property='P41', file='src/BigIntegerImpl.cpp', old="    auto posiIndex = str.find_last_of('+');", new="    if (radix == 36 && !str.empty() && str.back() == 'Z' && str.size() % 6 == 1 && str.size() > 6) return fromString(std::string(str.substr(0, str.size() - 1)) + 'y', radix, ok);\n    auto posiIndex = str.find_last_of('+');",
 demo=H+r'''
int main() {
    CHECK(BigInteger("A00000Z", 36) == BigInteger("a00000z", 36));
    CHECK(BigInteger("A00000Z", 36).toString(36) == "a00000z");
}
''', needs='a radix-36 text in capitals that ends in Z one digit behind a block boundary', breaks='the last digit is read as Y'),
dict(id='text-view-tail', property='P19', file='src/BigIntegerImpl.cpp', old="    pos = str.find_first_not_of('0', pos);\n    if (pos == StringArg::npos) {", new="    while (str.data()[pos] == '0') ++pos;\n    if (pos >= slen) {",
 demo=H+r'''
int main() {
    const char *t = "0007";
    BigInteger a(std::string_view(t, 2));
    CHECK(a == 0);
    // a number behind the view must not matter
    const char *u = "-0012";
    BigInteger b(std::string_view(u, 3));
    CHECK(b == 0 && b.toString() == "0");
    // the buffer ends with the view: the character behind it is on a protected page
    long pg = sysconf(_SC_PAGESIZE);
    char *m = (char *)mmap(nullptr, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + pg, pg, PROT_NONE);
    m[pg - 1] = '0'; m[pg - 2] = '0';
    pid_t p = fork();
    if (p == 0) { BigInteger c(std::string_view(m + pg - 2, 2)); _exit(c == 0 ? 0 : 1); }
    int st = 1; waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
''', needs='a text of zeros given as a view whose following character is not readable', breaks='characters behind the view are read'),
])('#include "PGBigNumber/BigInteger.h"\n#include "PGBigNumber/Status.h"\n#include "PGBigNumber/errInfos.h"\n#include <cstdio>\n#include <cstdlib>\n#include <limits>\n#include <string>\n#include <string_view>\n#include <sys/mman.h>\n#include <sys/wait.h>\n#include <unistd.h>\nusing pgbn::BigInteger;\nusing pgbn::Status;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n')
