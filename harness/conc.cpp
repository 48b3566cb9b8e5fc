#include "conc.h"
#include "sim.h"

#include <cerrno>
#include <condition_variable>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <thread>

namespace conc
{

namespace
{

struct Thread {
    unsigned id = 0;
    enum { Run, Lock, Cond, Join, Sleep, End } state = Run;
    const void* what = nullptr; // lock, condition, thread
    int64_t until = -1;
    bool timedOut = false;
    sem_t sem;
    pthread_t handle = {};
};

struct Owner {
    unsigned id = 0;
    unsigned count = 0;
};

bool gActive;
Plan gPlan;
uint64_t gRng, gSteps, gSwitches, gSinceSwitch;
size_t gNextSwitch;
std::vector<Thread*> gThreads;
std::map<const void*, Owner> gLocks;
thread_local Thread* tSelf;

uint32_t rnd(uint32_t n)
{
    gRng += 0x9e3779b97f4a7c15ull;
    auto z = gRng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return static_cast<uint32_t>((z ^ (z >> 31)) >> 33) % n;
}

[[noreturn]] void stop(const char* why)
{
    static const char* const names[] = { "runs", "waits for a lock", "waits for a condition", "waits for a thread", "sleeps", "ended" };
    std::fprintf(stderr, "Assertion `%s' of the threads\n", why);
    for (const auto t : gThreads)
        std::fprintf(stderr, "thread %u %s%s\n", t->id, names[t->state], t->state == Thread::Lock && gLocks[t->what].count ? (" held by " + std::to_string(gLocks[t->what].id)).c_str() : "");
    std::fflush(stderr);
    std::abort();
}

bool canRun(const Thread* t)
{
    switch (t->state) {
    case Thread::Run:
        return true;
    case Thread::Lock: {
        const auto it = gLocks.find(t->what);
        return it == gLocks.end() || it->second.count == 0;
    }
    case Thread::Join:
        if (!t->what) { // all the others
            for (const auto o : gThreads)
                if (o != t && o->state != Thread::End)
                    return false;
            return true;
        }
        return static_cast<const Thread*>(t->what)->state == Thread::End;
    default:
        return false;
    }
}

// Whoever is next; the caller's state is already what it is
void next()
{
    const auto me = tSelf;
    gSteps += 1;
    if (gSteps > 400000)
        stop("endless");
    if (gPlan.spurious && rnd(gPlan.spurious) == 0) {
        std::vector<Thread*> w;
        for (const auto t : gThreads)
            if (t->state == Thread::Cond)
                w.push_back(t);
        if (!w.empty())
            w[rnd(static_cast<uint32_t>(w.size()))]->state = Thread::Run;
    }
    std::vector<Thread*> can;
    for (;;) {
        for (const auto t : gThreads)
            if (canRun(t))
                can.push_back(t);
        if (!can.empty())
            break;
        int64_t first = -1;
        for (const auto t : gThreads)
            if ((t->state == Thread::Cond || t->state == Thread::Sleep) && t->until >= 0 && (first < 0 || t->until < first))
                first = t->until;
        if (first < 0)
            stop("deadlock");
        if (first > sim::nowNanos())
            sim::advanceNanos(first - sim::nowNanos());
        for (const auto t : gThreads)
            if ((t->state == Thread::Cond || t->state == Thread::Sleep) && t->until >= 0 && t->until <= sim::nowNanos()) {
                t->timedOut = true;
                t->state = Thread::Run;
            }
    }
    Thread* to = nullptr;
    const auto mine = std::find(can.begin(), can.end(), me);
    gSinceSwitch += 1;
    bool forced = mine == can.end();
    bool wanted = false;
    uint32_t which = 0;
    if (gPlan.density) {
        wanted = rnd(gPlan.density) == 0;
        which = rnd(64);
    } else if (gNextSwitch < gPlan.switches.size() && gSinceSwitch >= gPlan.switches[gNextSwitch].first) {
        wanted = true;
        which = gPlan.switches[gNextSwitch].second;
        gNextSwitch += 1;
        gSinceSwitch = 0;
    }
    if (wanted || forced) {
        // Counted from the one after the current one
        size_t i = 0;
        while (i < can.size() && can[i]->id <= me->id)
            i += 1;
        to = can[(i + which) % can.size()];
    } else {
        to = me;
    }
    if (to == me)
        return;
    gSwitches += 1;
    const auto ended = me->state == Thread::End;
    sem_post(&to->sem);
    if (!ended)
        while (sem_wait(&me->sem) != 0) {
        }
}

bool mine()
{
    return gActive && tSelf;
}

template <class F>
F* real(F*& p, const char* name)
{
    if (!p)
        p = reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
    return p;
}

void lock(pthread_mutex_t* m)
{
    tSelf->state = Thread::Run;
    next();
    auto& o = gLocks[m];
    if (o.count && o.id == tSelf->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
        o.count += 1;
        return;
    }
    while (gLocks[m].count) {
        tSelf->state = Thread::Lock;
        tSelf->what = m;
        next();
        tSelf->state = Thread::Run;
    }
    gLocks[m] = { tSelf->id, 1 };
}

void unlock(pthread_mutex_t* m, bool go)
{
    auto& o = gLocks[m];
    if (!o.count || o.id != tSelf->id)
        stop("unlock of a lock which isn't held");
    o.count -= 1;
    if (!o.count)
        gLocks.erase(m);
    if (go) {
        tSelf->state = Thread::Run;
        next();
    }
}

int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t until)
{
    unlock(m, false);
    const auto t = tSelf;
    t->state = Thread::Cond;
    t->what = c;
    t->until = until;
    t->timedOut = false;
    next();
    t->state = Thread::Run;
    t->until = -1;
    const auto timedOut = t->timedOut;
    while (gLocks[m].count) {
        t->state = Thread::Lock;
        t->what = m;
        next();
        t->state = Thread::Run;
    }
    gLocks[m] = { t->id, 1 };
    return timedOut ? ETIMEDOUT : 0;
}

int64_t toVirtual(clockid_t id, const struct timespec* abs)
{
    struct timespec n = {};
    clock_gettime(id, &n);
    const auto d = (abs->tv_sec - n.tv_sec) * 1000000000ll + (abs->tv_nsec - n.tv_nsec);
    return sim::nowNanos() + std::max<int64_t>(d, 0);
}

void wake(pthread_cond_t* c, bool all)
{
    std::vector<Thread*> w;
    for (const auto t : gThreads)
        if (t->state == Thread::Cond && t->what == c)
            w.push_back(t);
    if (!w.empty()) {
        if (all)
            for (const auto t : w)
                t->state = Thread::Run;
        else
            w[gPlan.density ? rnd(static_cast<uint32_t>(w.size())) : 0]->state = Thread::Run;
    }
    tSelf->state = Thread::Run;
    next();
}

Thread* newThread()
{
    const auto t = new Thread;
    t->id = static_cast<unsigned>(gThreads.size());
    sem_init(&t->sem, 0, 0);
    gThreads.push_back(t);
    return t;
}

struct Start {
    Thread* thread;
    std::function<void()> func;
};

void* entry(void* p)
{
    std::unique_ptr<Start> s(static_cast<Start*>(p));
    const auto t = s->thread;
    while (sem_wait(&t->sem) != 0) {
    }
    tSelf = t;
    s->func();
    s.reset();
    t->state = Thread::End;
    next();
    tSelf = nullptr;
    return nullptr;
}

} // namespace

Plan plan(pbt::Src& src)
{
    Plan p;
    if (src.chance(1, 2)) {
        p.density = static_cast<unsigned>(src.oneOf<size_t>({ 20, 1, 2, 4, 8, 50 }));
        p.seed = src.u32();
    } else {
        for (size_t n = src.size(0, 12); n > 0; n -= 1) {
            const auto after = static_cast<uint32_t>(src.oneOf<size_t>({ 0, src.size(1, 10), src.size(1, 60) }));
            p.switches.emplace_back(after, static_cast<uint32_t>(src.size(0, 3)));
        }
    }
    if (src.chance(1, 4))
        p.spurious = static_cast<unsigned>(src.size(2, 40));
    return p;
}

void begin(const Plan& plan)
{
    gPlan = plan;
    gRng = plan.seed * 2654435761u + 1;
    gSteps = gSwitches = gSinceSwitch = 0;
    gNextSwitch = 0;
    for (const auto t : gThreads) {
        sem_destroy(&t->sem);
        delete t;
    }
    gThreads.clear();
    gLocks.clear();
    tSelf = newThread();
    gActive = true;
}

void end()
{
    tSelf->state = Thread::Join;
    tSelf->what = nullptr;
    next();
    tSelf->state = Thread::Run;
    gActive = false;
    tSelf = nullptr;
}

bool active()
{
    return mine();
}

void point()
{
    if (mine()) {
        tSelf->state = Thread::Run;
        next();
    }
}

void sleepMicros(int64_t us)
{
    const auto t = tSelf;
    t->until = sim::nowNanos() + us * 1000;
    t->state = Thread::Sleep;
    next();
    t->state = Thread::Run;
    t->until = -1;
}

uint64_t steps()
{
    return gSteps;
}

uint64_t switches()
{
    return gSwitches;
}

unsigned self()
{
    return tSelf ? tSelf->id : 0;
}

} // namespace conc

using namespace conc;

extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    static decltype(pthread_mutex_lock)* p;
    if (!mine())
        return real(p, "pthread_mutex_lock")(m);
    lock(m);
    return 0;
}

extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    static decltype(pthread_mutex_trylock)* p;
    if (!mine())
        return real(p, "pthread_mutex_trylock")(m);
    point();
    if (gLocks.count(m) && gLocks[m].count)
        return EBUSY;
    gLocks[m] = { tSelf->id, 1 };
    return 0;
}

extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    static decltype(pthread_mutex_unlock)* p;
    if (!mine())
        return real(p, "pthread_mutex_unlock")(m);
    unlock(m, true);
    return 0;
}

extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static decltype(pthread_cond_wait)* p;
    if (!mine())
        return real(p, "pthread_cond_wait")(c, m);
    return condWait(c, m, -1);
}

extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs)
{
    static decltype(pthread_cond_timedwait)* p;
    if (!mine())
        return real(p, "pthread_cond_timedwait")(c, m, abs);
    return condWait(c, m, toVirtual(CLOCK_REALTIME, abs));
}

extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* abs)
{
    static decltype(pthread_cond_clockwait)* p;
    if (!mine())
        return real(p, "pthread_cond_clockwait")(c, m, id, abs);
    return condWait(c, m, toVirtual(id, abs));
}

extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    static decltype(pthread_cond_signal)* p;
    if (!mine())
        return real(p, "pthread_cond_signal")(c);
    wake(c, false);
    return 0;
}

extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    static decltype(pthread_cond_broadcast)* p;
    if (!mine())
        return real(p, "pthread_cond_broadcast")(c);
    wake(c, true);
    return 0;
}

namespace std
{

void thread::_M_start_thread(_State_ptr state, void (*)())
{
    pthread_t h = {};
    if (mine()) {
        const auto t = newThread();
        pthread_create(&h, nullptr, entry, new Start{ t, [s = std::shared_ptr<_State>(std::move(state))] { s->_M_run(); } });
        t->handle = h;
        _M_id = id(h);
        point();
    } else {
        const auto s = state.release();
        pthread_create(
            &h,
            nullptr,
            [](void* p) -> void* {
                _State_ptr state(static_cast<_State*>(p));
                state->_M_run();
                return nullptr;
            },
            s);
        _M_id = id(h);
    }
}

void thread::join()
{
    const auto h = _M_id._M_thread;
    if (mine()) {
        for (const auto t : gThreads) {
            if (t->handle && pthread_equal(t->handle, h)) {
                tSelf->state = Thread::Join;
                tSelf->what = t;
                conc::next();
                tSelf->state = Thread::Run;
                t->handle = {};
                break;
            }
        }
    }
    pthread_join(h, nullptr);
    _M_id = id();
}

void thread::detach()
{
    const auto h = _M_id._M_thread;
    if (mine())
        for (const auto t : gThreads)
            if (t->handle && pthread_equal(t->handle, h))
                t->handle = {};
    pthread_detach(h);
    _M_id = id();
}

} // namespace std
