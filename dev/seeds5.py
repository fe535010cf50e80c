(lambda H: [
dict(id='queue-notify-first', property='P13', file='src/parallel/SimpleConcurrenceQueue.h', old='        m_data.emplace(std::move(data));\n        m_cond.notify_one();', new='        m_data.emplace(std::move(data));\n        if (m_data.size() == 1) m_cond.notify_one(); // otherwise a wake-up is already under way',
 demo=H+r'''
int main() {
    // one of two tasks added in one go waits for the other, which an idle worker has to pick up
    for (int round = 0; round < 300; ++round) {
        pgbn::parallel::ThreadPool pool(2);
        std::this_thread::sleep_for(std::chrono::milliseconds(2)); // both workers wait
        std::atomic<bool> second{false};
        std::atomic<bool> seen{true};
        auto f1 = pool.addTask([&] {
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(5);
            while (!second) { if (std::chrono::steady_clock::now() > end) { seen = false; return; } }
        });
        auto f2 = pool.addTask([&] { second = true; });
        f1.wait(); f2.wait();
        CHECK(seen);
    }
}
''', needs='two idle workers and two tasks added before the first one is fetched', breaks='the second task is not started although a worker is idle'),
dict(id='queue-copy-silent', property='P13', file='src/parallel/SimpleConcurrenceQueue.h', old='        m_data.emplace(data);\n        m_cond.notify_one();', new='        m_data.emplace(data);',
 demo=H+r'''
int main() {
    pgbn::parallel::SimpleConcurrenceQueue<int> q;
    std::promise<int> got;
    auto fu = got.get_future();
    std::thread t([&] { int v = 0; q.pop(v); got.set_value(v); });
    std::this_thread::sleep_for(std::chrono::milliseconds(300)); // the consumer waits
    const int seven = 7;
    q.push(seven, [] { return true; }, [] {});
    bool woken = fu.wait_for(std::chrono::seconds(5)) == std::future_status::ready;
    if (woken) { CHECK(fu.get() == 7); t.join(); }
    else { std::printf("the waiting consumer is not woken\n"); std::fflush(stdout); _exit(1); }
}
''', needs='a value pushed by copy while a consumer already waits', breaks='the consumer sleeps on although the queue is not empty'),
dict(id='queue-closed-last', property='P13', file='src/parallel/SimpleConcurrenceQueue.h', old='''        m_cond.wait(lg, [this] { return m_alwaysPop || !m_data.empty(); });
        if (m_data.empty()) return false;''', new='''        m_cond.wait(lg, [this] { return m_alwaysPop || !m_data.empty(); });
        if (m_data.empty() || (m_alwaysPop && m_data.size() > 64)) return false;''',
 demo=H+r'''
int main() {
    pgbn::parallel::SimpleConcurrenceQueue<int> q;
    for (int i = 0; i < 100; ++i) q.push(int(i), [] { return true; }, [] {});
    q.notifyAllPop();
    int v = -1;
    for (int i = 0; i < 100; ++i) { CHECK(q.pop(v)); CHECK(v == i); }
    CHECK(!q.pop(v));
}
''', needs='a shut-down queue that still holds more than 64 values', breaks='pop refuses although values are queued'),
dict(id='pool-drop-pending', property='P14', file='src/parallel/ThreadPool.h', old='if (!m_running && m_tasks.empty()) {', new='if (!m_running) {',
 demo=H+r'''
int main() {
    std::vector<std::future<int>> fu;
    {
        pgbn::parallel::ThreadPool pool(1);
        fu.push_back(pool.addTask([] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); return 0; }));
        for (int i = 1; i < 6; ++i) fu.push_back(pool.addTask([i] { return i; }));
    }
    for (int i = 0; i < 6; ++i) {
        CHECK(fu[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready);
        try { CHECK(fu[i].get() == i); } catch (const std::future_error &) { CHECK(!"task dropped"); }
    }
}
''', needs='a pool destroyed while its worker is busy and further tasks are pending', breaks='accepted tasks are never run'),
dict(id='pool-stop-flag', property='P14', file='src/parallel/ThreadPool.h', old='                        PGZXB_DEBUG_ASSERT(!!task);\n                        task();', new='                        PGZXB_DEBUG_ASSERT(!!task);\n                        if (m_running || !m_tasks.empty()) task(); // nobody waits for the last one',
 demo=H+r'''
int main() {
    std::atomic<int> n{0};
    {
        pgbn::parallel::ThreadPool pool(1);
        pool.addTask([&] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); ++n; });
        pool.addTask([&] { ++n; });
        pool.addTask([&] { ++n; });
    }
    CHECK(n == 3);
}
''', needs='a task that is fetched as the last one after destruction has begun', breaks='it is dropped'),
dict(id='peval-narrow-parent', property='P15', file='src/eval.cpp', old='std::vector<std::uint32_t> parents(N);', new='std::vector<std::uint8_t> parents(N);',
 demo=H+r'''
int main() {
    std::string s = "1";
    for (int i = 0; i < 200; ++i) s += "+1";
    alarm(20);
    CHECK(pgbn::expr::peval(s, 2) == 201);
}
''', needs='an expression of more than 256 nodes', breaks='parallel evaluation never ends'),
dict(id='peval-count-two', property='P15', file='src/eval.cpp', old='childCnt[i] = children.size();', new='childCnt[i] = children.size() < 2 ? 1 : 2; // operators have at most two operands',
 demo=H+r'''
int main() {
    alarm(20);
    CHECK(pgbn::expr::peval("1 ? 2 : ((3 + 4) * (5 + 6))", 1) == 2);
    CHECK(pgbn::expr::peval("0 ? 2 : ((3 + 4) * (5 + 6))", 1) == 77);
}
''', needs='a conditional whose last branch is deeper than the others, and one worker', breaks='the node is started before its operand and blocks the only worker'),
dict(id='peval-throw-lost', property='P43', file='src/infixExpr/ExprTree.cpp', old='    return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);', new='    if (peval) { // all three are computed anyway\n        auto c = eval(ch[0], peval), a = eval(ch[1], peval), b = eval(ch[2], peval);\n        return c.cmp(0) > 0 ? a : b;\n    }\n    return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);',
 demo=H+r'''
int main() {
    for (const char *s : {"1 ? 2 : 3", "0 ? 2 : 3", "(2 - 5) ? 7 : 8"}) {
        CHECK(pgbn::expr::peval(s, 2) == pgbn::expr::eval(s));
    }
}
''', needs='a conditional with a negative condition under parallel evaluation', breaks='the other branch is taken'),
dict(id='status-not-local', property='P22', file='src/Status.cpp', old='static thread_local Status s_ins;', new='static Status s_ins;',
 demo=H+r'''
int main() {
    pgbn::BigInteger a(-5), b(7);
    bool ok = true; int bad = 0;
    pgbn::BigInteger("12z", 10, &ok); // leaves an error in this thread
    CHECK(!ok);
    std::thread t([&] { pgbn::BigInteger c("12"); if (!(c == 12)) bad = 1; *pgbn::Status::getInstance() = pgbn::ErrCode::SUCCESS; });
    t.join();
    CHECK(pgbn::Status::getInstance()->getInfo().find("Success]") == std::string::npos);
}
''', needs='two threads that use the library', breaks='one overwrites the error status of the other'),
dict(id='tostring-shared-buf', property='P22', file='src/BigIntegerImpl.cpp', old='    char buf[65] = { 0 };\n\n    const BigIntegerImpl & blockRadix', new='    static char buf[65] = { 0 };\n\n    const BigIntegerImpl & blockRadix',
 demo=H+r'''
int main() {
    std::string x, y;
    for (int i = 0; i < 60; ++i) { x += "123456789"; y += "987654321"; }
    pgbn::BigInteger a(x), b(y);
    std::atomic<bool> bad{false};
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(4);
    auto run = [&](const pgbn::BigInteger &v, const std::string &t) { while (!bad && std::chrono::steady_clock::now() < end) if (v.toString(10) != t) bad = true; };
    std::vector<std::thread> th;
    for (int i = 0; i < 4; ++i) { th.emplace_back([&] { run(a, x); }); th.emplace_back([&] { run(b, y); }); }
    for (auto &t : th) t.join();
    CHECK(!bad);
}
''', needs='two threads rendering numbers at the same time', breaks='digits of one number appear in the text of the other'),
dict(id='frac-decimal-round', property='P44', file='src/Fraction.h', old='auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, \'0\'));', new='auto mul = BigInteger("1" + std::string(std::min(maxDecimalDigitCount, 18), \'0\'));',
 demo=H+r'''
int main() {
    pgbn::experimental::Fraction f(1, 3);
    CHECK(f.toDecimal(6) == "0.333333");
    CHECK(f.toDecimal(20) == "0.33333333333333333333");
}
''', needs='more than 18 decimal digits', breaks='the digits beyond the 18th are zeros or misplaced'),
])('#include "PGBigNumber/BigInteger.h"\n#include "PGBigNumber/Status.h"\n#include "PGBigNumber/errInfos.h"\n#include "PGBigNumber/Fraction.h"\n#include "PGBigNumber/expr.h"\n#include "../src/parallel/ThreadPool.h"\n#include <atomic>\n#include <chrono>\n#include <cstdio>\n#include <cstdlib>\n#include <future>\n#include <string>\n#include <thread>\n#include <unistd.h>\n#include <vector>\n#define CHECK(c) do { if (!(c)) { std::printf("wrong: %s (line %d)\\n", #c, __LINE__); std::fflush(stdout); _exit(1); } } while (0)\n')
