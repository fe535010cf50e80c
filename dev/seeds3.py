(lambda H: [
dict(id='expr-cond-else', property='P10', file='src/infixExpr/ExprParser.cpp', old='    Node * else_ = parseExpr(); CKERR();', new='    Node * else_ = parseBitOr(); CKERR();\n    if (consumeToken(TokenType::QMARK)) {\n        Node * then2 = parseExpr(); CKERR();\n        if (!consumeToken(TokenType::COLON)) BADTOK(TokenType::COLON, "expected \':\'");\n        Node * else2 = parseExpr(); CKERR();\n        return m_pNodePool->newIfElseNode(m_pNodePool->newIfElseNode(condition, then, else_), then2, else2);\n    }',
 demo=H+r'''
int main() {
    CHECK(eval("1 ? 2 : 0 ? 3 : 4") == 2);
    CHECK(eval("0 ? 2 : 0 ? 3 : 4") == 4);
    CHECK(eval("0 ? 2 : 1 ? 3 : 4") == 3);
}
''', needs='a conditional in the else-part of a conditional without brackets', breaks='the conditionals group to the left'),
dict(id='expr-shift-mix', property='P10', file='src/infixExpr/ExprParser.cpp', old='node = m_pNodePool->newBinOpNode(TokenType::SHIFTRIGHT, node, parseAddSub());', new='node = m_pNodePool->newBinOpNode(TokenType::SHIFTRIGHT, node, parseShift());',
 demo=H+r'''
int main() {
    CHECK(eval("256 >> 2 << 1") == 128);
    CHECK(eval("256 >> 2") == 64);
    CHECK(eval("1 << 4 >> 2") == 4);
}
''', needs='a shift after a right shift', breaks='the shifts group to the right'),
dict(id='expr-mod-neg', property='P10', file='src/infixExpr/ExprTree.cpp', old='    case TokenType::SUB : // -\n        val.negate(); return val;', new='    case TokenType::SUB : // -\n        if (node->children[0]->nodeType != TokenType::SUB) val.negate();\n        return val;',
 demo=H+r'''
int main() {
    CHECK(eval("- - 5") == 5);
    CHECK(eval("-5") == -5);
    CHECK(eval("-(3 - 5)") == 2);
}
''', needs='a minus sign in front of a bracketed difference', breaks='the sign is dropped'),
dict(id='expr-else-lazy', property='P10', file='src/infixExpr/ExprTree.cpp', old='    return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);', new='    auto cond = eval(ch[0], peval);\n    return cond.flagsContains(BNFlag::POSITIVE) ? eval(ch[1], peval) : eval(ch[2], peval);',
 demo=H+r'''
int main() {
    CHECK(eval("(2 - 5) ? 1 : 2") == 1);
    CHECK(eval("0 ? 1 : 2") == 2);
}
''', needs='a conditional whose condition is negative', breaks='the else-part is taken'),
dict(id='expr-xor-and', property='P10', edits=[('src/infixExpr/ExprParser.cpp', '    Node * node = parseBitAnd();\n    while (consumeToken(TokenType::XOR)) {\n        node = m_pNodePool->newBinOpNode(TokenType::XOR, node, parseBitAnd());', '    Node * node = parseBitAnd();\n    while (consumeToken(TokenType::XOR)) {\n        node = m_pNodePool->newBinOpNode(TokenType::XOR, node, parseEqu());\n        while (consumeToken(TokenType::AND)) node = m_pNodePool->newBinOpNode(TokenType::AND, node, parseEqu());')],
 demo=H+r'''
int main() {
    CHECK(eval("1 ^ 2 & 4") == 1);
    CHECK(eval("6 ^ 3 & 5") == 7);
}
''', needs='& on the right of ^ without brackets', breaks='& does not bind tighter than ^ any more there'),
dict(id='expr-trailing-comma', property='P11', file='src/infixExpr/ExprParser.cpp', old='        if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected \',\'");', new='        if (argNodes.size() > 0) {\n            if (!consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected \',\'");\n            if (consumeToken(TokenType::RIGHTBRACKET)) break;\n        }',
 demo=H+r'''
int main() {
    sum();
    CHECK(eval("sum(1, 2)") == 3);
    PGBN_GetGlobalStatus() = pgbn::ErrCode::SUCCESS;
    eval("sum(1, 2,)");
    CHECK(PGBN_GetGlobalStatus().getInfo() != pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS));
}
''', needs='an argument list that ends in a comma', breaks='the malformed call is evaluated'),
dict(id='expr-colon-end', property='P11', file='src/infixExpr/ExprParser.cpp', old='    if (!consumeToken(TokenType::COLON)) BADTOK(TokenType::COLON, "expected \':\'");\n    Node * else_', new='    if (m_tokens[m_currTokenIndex].type == TokenType::RIGHTBRACKET) return m_pNodePool->newIfElseNode(condition, then, then);\n    else if (!consumeToken(TokenType::COLON)) BADTOK(TokenType::COLON, "expected \':\'");\n    Node * else_',
 demo=H+r'''
int main() {
    CHECK(eval("(1 ? 2 : 3)") == 2);
    PGBN_GetGlobalStatus() = pgbn::ErrCode::SUCCESS;
    eval("(1 ? 2)");
    CHECK(PGBN_GetGlobalStatus().getInfo() != pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS));
}
''', needs='a bracketed conditional without its else-part', breaks='it is evaluated'),
dict(id='expr-undef-symbol', property='P11', file='src/infixExpr/Token.h', old='                    if (pSymbol->is<Func>()) tokenType = TokenType::BUILTINFUNC;\n                    else if (pSymbol->is<Value>()) tokenType = TokenType::BUILTINCONSTANT;\n', new='                    if (pSymbol->is<Value>()) tokenType = TokenType::BUILTINCONSTANT;\n                    else if (pSymbol->is<Func>() || stream.peek() == \'(\') tokenType = TokenType::BUILTINFUNC;\n',
 demo=H+r'''
int main() {
    sum();
    pgbn::infixExpr::SymbolTable::getInstance()->registe("nothing", pgbn::infixExpr::SymbolTable::Symbol{});
    CHECK(eval("sum(1, 2)") == 3);
    PGBN_GetGlobalStatus() = pgbn::ErrCode::SUCCESS;
    eval("nothing(1)");
    CHECK(PGBN_GetGlobalStatus().getInfo() != pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS));
}
''', needs='a call of a registered symbol that holds neither a function nor a value', breaks='the call is parsed and std::bad_variant_access escapes'),
dict(id='expr-bracket-tail', property='P11', file='src/infixExpr/ExprParser.cpp', old="        if (!consumeToken(TokenType::RIGHTBRACKET))\n            BADTOK(TokenType::RIGHTBRACKET", new="        if (!consumeToken(TokenType::RIGHTBRACKET) && m_tokens[m_currTokenIndex].type != TokenType::TAIL)\n            BADTOK(TokenType::RIGHTBRACKET",
 demo=H+r'''
int main() {
    CHECK(eval("(1 + 2) * 3") == 9);
    PGBN_GetGlobalStatus() = pgbn::ErrCode::SUCCESS;
    eval("2 * (1 + 2");
    CHECK(PGBN_GetGlobalStatus().getInfo() != pgbn::Status::getInfo(pgbn::ErrCode::SUCCESS));
}
''', needs='brackets left open at the end of the text', breaks='the unbalanced text is evaluated'),
dict(id='lex-name-end', property='P12', file='src/infixExpr/Token.h', old="                for (ch = stream.peek(); std::isalnum(ch) || ch == '_'; stream.get(), ch = stream.peek())", new="                for (ch = stream.peek(); std::isalnum(ch) || ch == '_' || (symbolName.back() == '_' && ch != '('); stream.get(), ch = stream.peek())",
 demo=H+r'''#include <sys/resource.h>
int main() {
    rlimit l{1u << 30, 1u << 30};
    setrlimit(RLIMIT_AS, &l);
    pgbn::infixExpr::SymbolTable::getInstance()->registe("pi_", pgbn::infixExpr::SymbolTable::Symbol{pgbn::infixExpr::Value{3}});
    CHECK(eval("(1 + 2)") == 3);
    CHECK(eval("1 + pi_") == 4);
}
''', needs='a name that ends in an underscore as the last token of the text', breaks='the name scanner never stops at the end of the text'),
dict(id='lex-octal-end', property='P12', file='src/infixExpr/Token.h', old='                        if (std::isdigit(stream.peek())) {\n                            loDigit = stream.get();\n                        }\n                        if (stream.peek() != \'x\') {', new='                        while (loDigit == -1 && !(stream.peek() >= \'a\' && stream.peek() <= \'z\') && stream.peek() != \' \') {\n                            if (std::isdigit(stream.peek())) loDigit = stream.get();\n                            else if (std::ispunct(static_cast<unsigned char>(stream.peek()))) break;\n                        }\n                        if (stream.peek() != \'x\') {',
 demo=H+r'''#include <unistd.h>
int main() {
    alarm(20);
    CHECK(eval("017") == 15);
    CHECK(eval("07 + 1") == 8);
    CHECK(eval("1 + 07") == 8);
}
''', needs='a text that ends in an octal literal with one digit', breaks='reading the second digit never ends'),
dict(id='lex-blank-end', property='P12', file='src/infixExpr/fwd.h', old="    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\\r' || ch == '\\n' || ch == '\\t')) {\n        stream.get();\n        ch = stream.peek();\n    }\n}\n\n}\n\nusing", new="    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\\r' || ch == '\\n' || ch == '\\t')) {\n        if (ch == '\\r' && stream.get() != 0) stream.get(); // \\r\\n\n        else stream.get();\n        ch = stream.peek();\n    }\n}\n\n}\n\nusing",
 demo=H+r'''
int main() {
    CHECK(eval("1 +\r\n2") == 3);
    CHECK(eval("1 +\r2") == 3);
}
''', needs='a carriage return that is not followed by a line feed', breaks='the next character of the text is swallowed'),
])('#include "PGBigNumber/BigInteger.h"\n#include "PGBigNumber/expr.h"\n#include "PGBigNumber/Status.h"\n#include "PGBigNumber/errInfos.h"\n#include "PGBigNumber/infixExpr/SymbolTable.h"\n#include <cstdio>\n#include <cstdlib>\n#include <string>\nusing pgbn::BigInteger;\nusing pgbn::Status;\nusing pgbn::expr::eval;\nusing pgbn::expr::peval;\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::exit(1); } } while (0)\n[[maybe_unused]] static void sum() { pgbn::infixExpr::SymbolTable::getInstance()->registe("sum", pgbn::infixExpr::SymbolTable::Symbol{pgbn::infixExpr::Func{[](std::vector<pgbn::infixExpr::Value> &v) { pgbn::infixExpr::Value r(0); for (auto &x : v) r.addAssign(x); return r; }, -1}}); }\n')
