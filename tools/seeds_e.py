I = "cpp_utils/include/cpp_utils/"
C = "cpp_utils/src/cpp/"
EXC = ["Formatter", "exception/Exception"]
U = EXC + ["utils", "math/math_extension"]
T = U + ["time/time_utils"]
HEAD = r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
static void fail(const char* what) { std::printf("WRONG: %s\n", what); std::fflush(stdout); _exit(1); }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
"""
S = [
dict(id="singleton-of-each-thread", property="C19",
     edits=[(I + "types/impl/Singleton.ipp", "    static std::shared_ptr<T> instance_(new T());", "    // No guard of the initialization is needed in every call\n    static thread_local std::shared_ptr<T> instance_(new T());")],
     needs="The instance asked for in a second thread", breaks="Each thread has an instance of its own",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/types/Singleton.hpp>
using namespace eprosima::utils;
struct Thing { int value = 0; };
int main()
{
    Singleton<Thing>::get_instance()->value = 5;
    int seen = -1;
    std::thread t([&] { seen = Singleton<Thing>::get_instance()->value; });
    t.join();
    if (seen != 5) fail("another instance in another thread");
    return 0;
}
"""),
dict(id="database-modify-by-replacing", property="C16",
     edits=[(I + "collection/database/impl/SafeDatabase.ipp", "    it->second = std::move(value);\n\n    return true;", "    // The old value is gone before the new one is in its place\n    internal_db_.erase(it);\n    internal_db_.emplace(key, std::move(value));\n\n    return true;")],
     needs="A value whose move fails", breaks="The key is lost: modify failed, and the old value is not there either",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
static bool full = false;
struct V
{
    int v;
    V(int x = 0) : v(x) {}
    V(const V&) = default;
    V(V&& o) : v(o.v) { if (full) throw std::bad_alloc(); }
    V& operator =(const V&) = default;
    V& operator =(V&& o) { if (full) throw std::bad_alloc(); v = o.v; return *this; }
};
int main()
{
    SafeDatabase<int, V> db;
    db.add(1, V(10));
    V next(20);
    full = true;
    bool thrown = false;
    try { db.modify(1, std::move(next)); } catch (const std::bad_alloc&) { thrown = true; }
    full = false;
    if (thrown && (!db.is(1) || db.at(1).v != 10)) fail("the key was lost");
    if (!thrown && (!db.is(1) || db.at(1).v != 20)) fail("not modified");
    return 0;
}
"""),
dict(id="dbqueue-lock-kept-by-failure", property="C24",
     edits=[(I + "queue/DBQueue.hpp", "        std::unique_lock<std::mutex> guard(m_background_mutex);\n        m_background_queue->push(item);", "        m_background_mutex.lock();\n        m_background_queue->push(item);\n        m_background_mutex.unlock();")],
     needs="An element whose copy fails", breaks="The queue stays locked for ever",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/queue/DBQueue.hpp>
using namespace eprosima::utils;
static bool full = false;
struct V
{
    int v;
    V(int x = 0) : v(x) {}
    V(const V& o) : v(o.v) { if (full) throw std::bad_alloc(); }
};
int main()
{
    event::DBQueue<V> q;
    V a(1), b(2);
    q.push(a);
    full = true;
    try { q.push(b); } catch (const std::bad_alloc&) {}
    full = false;
    std::atomic<bool> done(false);
    std::thread t([&] { q.push(b); q.swap(); done = true; });
    for (int i = 0; i < 300 && !done; ++i) ms(10);
    if (!done) fail("the queue is locked after an element that could not be copied");
    t.join();
    if (q.size() != 2 || q.front().v != 1) fail("contents");
    return 0;
}
"""),
dict(id="pool-default-reset-clears", property="C20",
     edits=[(I + "pool/impl/IPool.ipp", "    // Do nothing\n", "    // Leave it as a new one\n    *element = T();\n")],
     needs="A pool of a class that defines no reset, and an element with a value that comes back", breaks="The element is cleared although the documentation says that nothing is done by default",
     sources=T, cpp=HEAD + r"""
#include <cpp_utils/pool/IPool.hpp>
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
struct Buffer { std::vector<char> room; };
int main()
{
    PoolConfiguration c(1, 0, 1);
    std::unique_ptr<IPool<Buffer>> p(create_pool<Buffer>(c));
    Buffer* b = nullptr;
    p->loan(b);
    b->room.resize(100);
    Buffer* first = b;
    p->return_loan(b);
    p->loan(b);
    if (b != first) fail("not used again");
    if (b->room.size() != 100) fail("the element does not come back as it was returned");
    p->return_loan(b);
    return 0;
}
"""),
]
