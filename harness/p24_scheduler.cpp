// P24: tasks run exactly once, at their time, in order, and never after cancel() has returned
#include "conc.h"
#include "pbt.h"
#include "sim.h"

#include <algorithm>
#include <climits>
#include <sstream>

#include "srtc/scheduler.h"

using namespace pbt;
using srtc::LoopScheduler;
using srtc::ScopedScheduler;
using srtc::Task;
using srtc::ThreadScheduler;
using std::chrono::milliseconds;

namespace
{

int64_t delayOf(Src& src)
{
    return static_cast<int64_t>(src.oneOf<size_t>({ 0, 1, 2, 5, 10, src.size(0, 30), src.size(0, 200) }));
}

// ----- On a loop: one thread, so a list is all there is to it

struct LoopCase {
    Src& src;
    Ctx& ctx;
    std::shared_ptr<LoopScheduler> loop = std::make_shared<LoopScheduler>();
    struct Scope {
        std::unique_ptr<ScopedScheduler> scheduler;
    };
    struct T {
        int scope = -1;
        int64_t due = 0; // us
        bool pending = false;
        bool running = false;
        bool released = false; // Cancelled while it's running
        unsigned runs = 0, expected = 0;
        std::weak_ptr<Task> handle;
        std::shared_ptr<Task> strong;
    };
    std::vector<Scope> scopes;
    std::vector<T> tasks;
    std::vector<size_t> queue; // in order
    size_t fuel = 120, inside = 0, cancelled = 0, updated = 0, nested = 0, superseded = 0;
    bool dead = false;

    LoopCase(Src& s, Ctx& c)
        : src(s)
        , ctx(c)
    {
    }

    int64_t now() const
    {
        return sim::nowMicros();
    }

    void enqueue(size_t i, int64_t delay)
    {
        tasks[i].due = now() + delay * 1000;
        tasks[i].pending = true;
        auto at = queue.begin();
        while (at != queue.end() && tasks[*at].due <= tasks[i].due)
            ++at;
        queue.insert(at, i);
    }

    void dequeue(size_t i)
    {
        tasks[i].pending = false;
        queue.erase(std::remove(queue.begin(), queue.end(), i), queue.end());
    }

    void submit()
    {
        const auto i = tasks.size();
        tasks.emplace_back();
        auto scope = static_cast<int>(src.size(0, scopes.size())) - 1;
        if (scope >= 0 && !scopes[static_cast<size_t>(scope)].scheduler)
            scope = -1;
        tasks[i].scope = scope;
        srtc::Scheduler* s = loop.get();
        if (scope >= 0)
            s = scopes[static_cast<size_t>(scope)].scheduler.get();
        const auto func = [this, i] { run(i); };
        auto delay = src.chance(1, 12) ? src.oneOf<int64_t>({ -1, -50, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 86400000ll * 365 * 30 }) : delayOf(src);
        enqueue(i, delay);
        if (delay == 0 && src.chance(1, 2))
            tasks[i].handle = s->submit(__FILE__, __LINE__, func);
        else
            tasks[i].handle = s->submit(milliseconds(delay), __FILE__, __LINE__, func);
        tasks[i].expected += 1;
        if (src.chance(1, 6))
            tasks[i].strong = tasks[i].handle.lock();
        PBT_CHECK(ctx, !tasks[i].handle.expired(), "handle", "of a new task is nothing");
    }

    void run(size_t i)
    {
        PBT_CHECK(ctx, !dead, "run", "after the scheduler was destroyed");
        PBT_CHECK(ctx, tasks[i].pending, "run", "of task %zu, which isn't pending", i);
        PBT_CHECK(ctx, queue.front() == i, "order", "task %zu is run, %zu is before it", i, queue.front());
        PBT_CHECK(ctx, tasks[i].due <= now(), "time", "task %zu is run %lld us early", i, static_cast<long long>(tasks[i].due - now()));
        dequeue(i);
        tasks[i].running = true;
        tasks[i].runs += 1;
        tasks[i].released = false;
        inside += 1;
        nested += inside > 1;
        for (size_t n = src.pick({ 4, 3, 2, 1 }); n > 0; n -= 1)
            op();
        inside -= 1;
        tasks[i].running = false;
    }

    void op()
    {
        if (fuel == 0)
            return;
        fuel -= 1;
        switch (src.pick({ 8, 4, 5, 2, 1, 1, 3 })) {
        case 0:
            submit();
            break;
        case 1: { // Cancel
            if (tasks.empty())
                return;
            const auto i = src.size(0, tasks.size() - 1);
            auto& t = tasks[i];
            const bool usable = t.scope < 0 || scopes[static_cast<size_t>(t.scope)].scheduler;
            if (!usable)
                return; // Its handle has nothing behind it
            const auto wasPending = t.pending;
            auto h = t.handle;
            switch (src.size(0, 2)) {
            case 0: {
                Task::cancelHelper(h);
                PBT_CHECK(ctx, !h.lock(), "handle", "is left by cancelling");
                break;
            }
            case 1:
                if (auto p = t.strong ? t.strong : h.lock())
                    p->cancel();
                break;
            default:
                if (auto p = h.lock()) {
                    srtc::Scheduler* s = loop.get();
                    if (t.scope >= 0)
                        s = scopes[static_cast<size_t>(t.scope)].scheduler.get();
                    s->cancel(p);
                }
                break;
            }
            t.released = t.released || t.running;
            if (wasPending) {
                dequeue(i);
                t.expected -= 1;
                cancelled += 1;
            }
            break;
        }
        case 2: { // Update
            if (tasks.empty())
                return;
            const auto i = src.size(0, tasks.size() - 1);
            auto& t = tasks[i];
            if (t.scope >= 0 && !scopes[static_cast<size_t>(t.scope)].scheduler)
                return;
            const auto p = t.handle.lock();
            const auto live = t.pending || t.running;
            if (!t.strong)
                PBT_CHECK(ctx, p ? live || t.scope >= 0 : !live || (t.running && t.released), "handle", "of task %zu, %s, is %s", i, t.pending ? "pending" : t.running ? "running" : "done", p ? "there" : "gone");
            if (!p)
                return;
            if (!live) {
                if (t.scope >= 0)
                    PBT_CHECK(ctx, p->update(milliseconds(delayOf(src))).expired(), "update", "of task %zu, which is done, gives a task", i);
                return;
            }
            const auto wasPending = t.pending;
            const auto delay = delayOf(src);
            const auto fresh = p->update(milliseconds(delay));
            PBT_CHECK(ctx, !fresh.expired(), "handle", "of an updated task is nothing");
            if (wasPending)
                dequeue(i);
            else
                t.expected += 1;
            superseded += wasPending;
            enqueue(i, delay);
            t.handle = fresh;
            t.released = false;
            t.strong.reset(); // What is behind it is no longer in use
            updated += 1;
            break;
        }
        case 3: // Time passes
            sim::advanceMicros(static_cast<int64_t>(src.oneOf<size_t>({ 1000, src.size(0, 999), src.size(0, 40000) })));
            break;
        case 4: { // A scope ends
            if (scopes.empty())
                return;
            const auto k = src.size(0, scopes.size() - 1);
            if (!scopes[k].scheduler)
                return;
            scopes[k].scheduler.reset();
            for (size_t i = 0; i < tasks.size(); i += 1) {
                if (tasks[i].scope == static_cast<int>(k)) {
                    if (tasks[i].pending) {
                        dequeue(i);
                        tasks[i].expected -= 1;
                    }
                    tasks[i].strong.reset();
                }
            }
            break;
        }
        case 5:
            if (scopes.size() < 4) {
                scopes.emplace_back();
                scopes.back().scheduler = std::make_unique<ScopedScheduler>(loop);
                PBT_CHECK(ctx, scopes.back().scheduler->getRealScheduler() == loop, "real scheduler", "isn't the one given");
            }
            break;
        default:
            checkTimeout();
            break;
        }
    }

    void checkTimeout()
    {
        const int def = static_cast<int>(src.size(0, 1000));
        const auto t = loop->getTimeoutMillis(def);
        if (queue.empty()) {
            PBT_CHECK(ctx, t == def, "timeout", "%d, expected the default %d", t, def);
            return;
        }
        const auto us = tasks[queue.front()].due - now();
        const auto expected = us <= 0 ? 0 : std::min<int64_t>(us / 1000, INT_MAX);
        PBT_CHECK(ctx, t == expected || (us > 0 && t == std::min<int64_t>((us + 999) / 1000, INT_MAX)), "timeout", "%d, expected %lld", t, static_cast<long long>(expected));
    }

    void loopRun()
    {
        loop->run();
        PBT_CHECK(ctx, queue.empty() || tasks[queue.front()].due > now(), "run", "task %zu is due and was not run", queue.front());
    }

    void all()
    {
        for (size_t n = src.size(0, 3); n > 0; n -= 1) {
            scopes.emplace_back();
            scopes.back().scheduler = std::make_unique<ScopedScheduler>(loop);
        }
        for (size_t rounds = src.size(1, 25); rounds > 0; rounds -= 1) {
            for (size_t n = src.size(0, 5); n > 0; n -= 1)
                op();
            checkTimeout();
            if (src.chance(3, 4))
                loopRun();
            if (src.chance(1, 2))
                sim::advanceMicros(static_cast<int64_t>(src.oneOf<size_t>({ 1000, 10000, src.size(0, 50000) })));
            else if (!queue.empty() && src.chance(1, 2) && tasks[queue.front()].due > now() && tasks[queue.front()].due - now() < 1000000000ll)
                sim::advanceMicros(tasks[queue.front()].due - now() - (src.chance(1, 3) ? 1 : 0));
        }
        const auto last = src.size(0, 2);
        if (last == 0) {
            // All which is left, in 31 years
            fuel = std::min<size_t>(fuel, 20);
            while (!queue.empty()) {
                if (tasks[queue.front()].due > now())
                    sim::advanceMicros(tasks[queue.front()].due - now());
                loopRun();
            }
            for (size_t i = 0; i < tasks.size(); i += 1)
                PBT_CHECK(ctx, tasks[i].runs == tasks[i].expected, "number of runs", "%u of task %zu, expected %u", tasks[i].runs, i, tasks[i].expected);
        } else if (last == 1) {
            // The last reference is dropped by a task, others are left
            for (auto& s : scopes)
                s.scheduler.reset();
            for (auto& t : tasks)
                t.strong.reset();
            auto only = std::make_shared<LoopScheduler>();
            unsigned after = 0, before = 0;
            const auto extra = src.size(0, 4);
            for (size_t i = 0; i < extra; i += 1)
                only->submit(milliseconds(0), __FILE__, __LINE__, [&before] { before += 1; });
            auto* raw = only.get();
            only->submit(milliseconds(0), __FILE__, __LINE__, [&only] { only.reset(); });
            for (size_t i = src.size(0, 4); i > 0; i -= 1)
                only->submit(milliseconds(0), __FILE__, __LINE__, [&after] { after += 1; });
            raw->run();
            PBT_CHECK(ctx, before == extra, "number of runs", "%u, expected %zu", before, extra);
            ctx.tag("dropped by its task");
        }
        for (auto& t : tasks)
            t.strong.reset();
        for (auto& s : scopes)
            s.scheduler.reset();
        dead = true;
        loop.reset();
    }
};

void loopFacet(Src& src, Ctx& ctx)
{
    LoopCase c(src, ctx);
    c.all();
    if (c.updated && c.cancelled && c.tasks.size() > 4)
        ctx.nontrivial();
    ctx.tagN("loop tasks", c.tasks.size());
    ctx.tagN("loop tasks cancelled", c.cancelled);
    ctx.tagN("loop tasks updated", c.updated);
    ctx.note("%zu tasks, %zu cancelled, %zu updated (%zu superseded)", c.tasks.size(), c.cancelled, c.updated, c.superseded);
}

// ----- On a thread, under generated schedules

struct Op {
    enum Kind { Submit, Cancel, CancelTwice, Update, Sleep, EndScope } kind;
    size_t target = 0;
    int64_t delay = 0;
};

struct Interval {
    uint64_t begin = 0, end = 0; // in the order of events, end 0 is not yet
    int64_t from = 0, to = 0;    // in time, us
};

struct Instance {
    Interval made;
    int64_t delay;
    int64_t dueMin() const
    {
        return made.from + delay * 1000;
    }
    int64_t dueMax() const
    {
        return made.to + delay * 1000;
    }
};

struct ThreadTask {
    size_t id = 0;
    int scope = -1;
    std::vector<Op> script;
    int64_t takes = 0; // ms
    // History
    std::weak_ptr<Task> handle;
    std::vector<Instance> instances;
    std::vector<Interval> runs;
    std::vector<Interval> cancels; // which were of the newest instance
    bool cancelBegun = false, ambiguous = false, running = false;
    unsigned updating = 0, using_ = 0;
};

struct ThreadCase;
ThreadCase* gCase;

struct ThreadCase {
    Src& src;
    Ctx& ctx;
    conc::Plan plan;
    std::vector<ThreadTask> tasks;
    std::vector<std::vector<Op>> scripts; // of the threads
    struct Scope {
        std::unique_ptr<ScopedScheduler> scheduler;
        size_t owner = 0;
        Interval ended;
        bool ending = false;
    };
    std::vector<Scope> scopes;
    std::shared_ptr<ThreadScheduler> scheduler;
    uint64_t serial = 0;
    std::vector<std::pair<std::string, std::string>> problems;
    std::vector<std::pair<size_t, size_t>> order; // task, run
    std::string log;
    size_t done = 0;
    Interval destroyed;
    size_t calls = 0, sleeps = 0;
    size_t cancelsInside = 0, waits = 0;

    ThreadCase(Src& s, Ctx& c)
        : src(s)
        , ctx(c)
    {
    }

    void problem(const char* label, const std::string& text)
    {
        problems.emplace_back(label, text);
    }

    Interval begin()
    {
        Interval i;
        i.begin = ++serial;
        i.from = i.to = sim::nowMicros();
        return i;
    }

    void end(Interval& i)
    {
        i.end = ++serial;
        i.to = sim::nowMicros();
    }

    static std::string T(size_t i)
    {
        return "task " + std::to_string(i);
    }

    void line(const std::string& s)
    {
        if (ctx.verbose() && log.size() < 6000)
            log += std::to_string(sim::nowMicros()) + " us, thread " + std::to_string(conc::self()) + ": " + s + "\n";
    }

    // What the task does, wherever it is
    void run(size_t i)
    {
        auto& t = tasks[i];
        if (destroyed.end)
            problem("run", T(i) + " after the scheduler was destroyed");
        if (t.running)
            problem("run", T(i) + " is run twice at the same time");
        for (const auto& o : tasks)
            if (o.running)
                problem("run", T(i) + " is run while " + T(o.id) + " is");
        t.running = true;
        const auto k = t.runs.size();
        line("run " + T(i));
        t.runs.push_back(begin());
        order.emplace_back(i, k);
        if (k == 0)
            for (const auto& op : t.script)
                apply(op, -1, i);
        if (t.takes)
            conc::sleepMicros(t.takes * 1000);
        else
            conc::point();
        line("end of " + T(i));
        end(tasks[i].runs[k]);
        tasks[i].running = false;
    }

    // By a thread (its number), or a task
    void apply(const Op& op, int thread, size_t task)
    {
        if (destroyed.begin)
            return; // Only a sleep can be cut short by that
        struct Count {
            size_t& n;
            explicit Count(size_t& n)
                : n(n)
            {
                n += 1;
            }
            ~Count()
            {
                n -= 1;
            }
        } count(op.kind == Op::Sleep ? sleeps : calls);
        switch (op.kind) {
        case Op::Sleep:
            conc::sleepMicros(op.delay * 1000);
            break;
        case Op::Submit: {
            auto& t = tasks[op.target];
            srtc::Scheduler* s = scheduler.get();
            if (!s)
                return;
            if (t.scope >= 0) {
                auto& sc = scopes[static_cast<size_t>(t.scope)];
                if (!sc.scheduler && !sc.ending)
                    return;
                if (!sc.scheduler)
                    s = sc_ending[static_cast<size_t>(t.scope)];
                else
                    s = sc.scheduler.get();
            }
            Instance in;
            in.delay = op.delay;
            in.made = begin();
            t.instances.push_back(in);
            line("submit " + T(op.target) + " in " + std::to_string(op.delay) + " ms");
            const auto id = op.target;
            auto h = s->submit(milliseconds(op.delay), __FILE__, __LINE__, [id] { gCase->run(id); });
            end(t.instances[0].made);
            t.handle = std::move(h);
            break;
        }
        case Op::Cancel:
        case Op::CancelTwice:
        case Op::Update: {
            auto& t = tasks[op.target];
            if (t.instances.empty() || !t.instances[0].made.end || !allowed(t, thread, task))
                return;
            if (op.kind == Op::Update) {
                if (t.cancelBegun || t.updating)
                    return;
                auto p = t.handle.lock();
                if (!p) {
                    gone(t);
                    return;
                }
                t.updating += 1;
                Instance in;
                in.delay = op.delay;
                in.made = begin();
                const auto k = t.instances.size();
                t.instances.push_back(in);
                line("update " + T(op.target) + " to " + std::to_string(op.delay) + " ms");
                auto h = p->update(milliseconds(op.delay));
                p.reset();
                if (h.expired() && t.scope < 0 && !destroyed.begin) // A scoped one can have been too late
                    if (std::none_of(t.runs.begin(), t.runs.end(), [&](const Interval& r) { return r.begin > in.made.begin; }))
                        problem("update", "of " + T(op.target) + " gave no task");
                if (h.expired() && t.scope >= 0) {
                    // Over before, or over since
                    t.ambiguous = true;
                }
                end(t.instances[k].made);
                t.handle = std::move(h);
                t.updating -= 1;
                if (t.cancelBegun)
                    t.ambiguous = true;
            } else {
                auto p = t.handle.lock();
                if (!p) {
                    if (!t.updating && !t.cancelBegun)
                        gone(t);
                    return;
                }
                const auto inside = thread < 0;
                if (t.updating)
                    t.ambiguous = true;
                t.cancelBegun = true;
                auto c = begin();
                line("cancel " + T(op.target));
                const auto wasRunning = t.running;
                if (op.delay % 3 == 0) {
                    auto w = t.handle;
                    Task::cancelHelper(w);
                } else if (op.delay % 3 == 1) {
                    p->cancel();
                } else {
                    srtc::Scheduler* s = t.scope < 0 ? static_cast<srtc::Scheduler*>(scheduler.get()) : scopes[static_cast<size_t>(t.scope)].scheduler.get();
                    if (s)
                        s->cancel(p);
                    else
                        p->cancel();
                }
                if (op.kind == Op::CancelTwice)
                    p->cancel();
                end(c);
                line("cancelled " + T(op.target));
                if (t.running && !inside && !t.ambiguous)
                    problem("cancel", T(op.target) + " is still running when cancel returns");
                waits += wasRunning && !inside;
                cancelsInside += inside;
                t.cancels.push_back(c);
            }
            break;
        }
        case Op::EndScope: {
            auto& s = scopes[op.target];
            if (!s.scheduler)
                return;
            line("scope " + std::to_string(op.target) + " ends");
            s.ending = true;
            sc_ending[op.target] = s.scheduler.get();
            s.ended = begin();
            auto p = std::move(s.scheduler);
            p.reset();
            s.ending = false;
            end(s.ended);
            line("scope " + std::to_string(op.target) + " has ended");
            for (const auto& t : tasks)
                if (t.scope == static_cast<int>(op.target) && t.running)
                    problem("scope", T(t.id) + " is still running when its scope has ended");
            break;
        }
        }
    }
    std::map<size_t, ScopedScheduler*> sc_ending;

    // The handles of a scope are for its owner and its own tasks
    bool allowed(const ThreadTask& t, int thread, size_t task)
    {
        if (t.scope < 0)
            return true;
        const auto& s = scopes[static_cast<size_t>(t.scope)];
        if (!s.scheduler && !s.ending)
            return false;
        if (thread >= 0)
            return s.owner == static_cast<size_t>(thread);
        return tasks[task].scope == t.scope;
    }

    // Only those which have run or were cancelled
    void gone(const ThreadTask& t)
    {
        if (t.cancelBegun || t.updating || t.ambiguous)
            return;
        if (t.scope >= 0 && scopes[static_cast<size_t>(t.scope)].ended.begin)
            return;
        const auto& last = t.instances.back();
        for (const auto& r : t.runs)
            if (r.end && r.begin > last.made.begin)
                return;
        // A run of an instance before that which was under way when it was updated isn't the one
        problem("handle", T(t.id) + " has no handle though it has not been run");
    }

    size_t makeTask(size_t depth, int scope)
    {
        const auto id = tasks.size();
        tasks.emplace_back();
        tasks[id].id = id;
        tasks[id].scope = scope;
        tasks[id].takes = src.pick({ 3, 1 }) ? static_cast<int64_t>(src.size(1, 12)) : 0;
        auto script = depth < 2 && tasks.size() < 30 ? makeScript(depth + 1, src.pick({ 6, 2, 1, 1 }), scope) : std::vector<Op>();
        tasks[id].script = std::move(script);
        return id;
    }

    std::vector<Op> makeScript(size_t depth, size_t count, int scope)
    {
        std::vector<Op> r;
        for (; count > 0; count -= 1) {
            Op op{};
            op.delay = delayOf(src);
            switch (src.pick({ 6, 3, 1, 3, 3 })) {
            case 0: {
                op.kind = Op::Submit;
                int sc = scope;
                if (depth == 0) {
                    sc = -1;
                    std::vector<int> own;
                    for (size_t i = 0; i < scopes.size(); i += 1)
                        if (scopes[i].owner == scripts.size())
                            own.push_back(static_cast<int>(i));
                    if (!own.empty() && src.chance(1, 2))
                        sc = src.elem(own);
                } else if (src.chance(1, 3)) {
                    sc = -1;
                }
                op.target = makeTask(depth, sc);
                break;
            }
            case 1:
                op.kind = Op::Cancel;
                op.target = src.size(0, 15);
                break;
            case 2:
                op.kind = Op::CancelTwice;
                op.target = src.size(0, 15);
                break;
            case 3:
                op.kind = Op::Update;
                op.target = src.size(0, 15);
                break;
            default:
                op.kind = Op::Sleep;
                op.delay = static_cast<int64_t>(src.oneOf<size_t>({ 1, 2, src.size(0, 20) }));
                break;
            }
            r.push_back(op);
        }
        return r;
    }

    void all()
    {
        gCase = this;
        const auto threads = src.size(1, 3);
        const auto scopeCount = src.size(0, 2);
        scopes.resize(scopeCount);
        for (auto& s : scopes)
            s.owner = src.size(0, threads - 1);
        for (size_t i = 0; i < threads; i += 1) {
            auto s = makeScript(0, src.size(1, 8), -1);
            for (size_t k = 0; k < scopeCount; k += 1) {
                if (scopes[k].owner == i && src.chance(2, 3)) {
                    Op op{};
                    op.kind = Op::EndScope;
                    op.target = k;
                    s.insert(s.begin() + static_cast<long>(src.size(s.size() / 2, s.size())), op);
                }
            }
            scripts.push_back(std::move(s));
        }
        // Scripts mean tasks which there are
        const auto clamp = [&](std::vector<Op>& s) {
            for (auto& op : s)
                if (op.kind == Op::Cancel || op.kind == Op::CancelTwice || op.kind == Op::Update) {
                    if (tasks.empty())
                        op.kind = Op::Sleep;
                    else
                        op.target %= tasks.size();
                }
        };
        for (auto& s : scripts)
            clamp(s);
        for (auto& t : tasks)
            clamp(t.script);
        const auto finish = src.pick({ 3, 2, 2 });
        plan = conc::plan(src);

        conc::begin(plan);
        scheduler = std::make_shared<ThreadScheduler>("test");
        for (auto& s : scopes)
            s.scheduler = std::make_unique<ScopedScheduler>(scheduler);
        {
            std::vector<std::thread> workers;
            for (size_t i = 0; i < threads; i += 1) {
                workers.emplace_back([this, i] {
                    for (const auto& op : scripts[i])
                        apply(op, static_cast<int>(i), 0);
                });
            }
            for (auto& w : workers)
                w.join();
        }
        const bool complete = finish == 0;
        if (complete) {
            // Everything has become due, and what that has submitted
            conc::sleepMicros(3000000);
        } else if (src.chance(1, 2)) {
            conc::sleepMicros(static_cast<int64_t>(src.size(0, 30000)));
        }
        for (size_t k = 0; k < scopeCount; k += 1) {
            Op op{};
            op.kind = Op::EndScope;
            op.target = k;
            apply(op, -2, 0);
        }
        auto counts = std::make_shared<unsigned>(0);
        bool dropped = false;
        if (finish == 2) {
            // The last reference goes in a task; nothing is run after that
            auto cell = std::make_shared<std::shared_ptr<ThreadScheduler>>();
            auto raw = scheduler.get();
            raw->submit(milliseconds(0), __FILE__, __LINE__, [this, cell, &dropped] {
                while (!*cell)
                    conc::sleepMicros(1000);
                destroyed = begin();
                cell->reset();
                dropped = true;
                end(destroyed);
            });
            raw->submit(milliseconds(0), __FILE__, __LINE__, [counts] { *counts += 1; });
            *cell = std::move(scheduler);
            conc::sleepMicros(1000000);
        } else {
            const auto last = calls == 0; // Otherwise it's the end of that call which destroys it
            destroyed = begin();
            scheduler.reset();
            end(destroyed);
            for (const auto& t : tasks)
                if (t.running && last)
                    problem("destruction", T(t.id) + " is still running when the scheduler is gone");
        }
        conc::sleepMicros(500000);
        conc::end();
        if (finish == 2 && !dropped)
            problem("run", "the task which was to drop the scheduler was not run");
        if (*counts)
            problem("run", "of a task after the scheduler was destroyed by one");
        judge(complete);
        ctx.note("%zu threads, %zu tasks, %zu runs, %llu operations, %llu switches\n%s", threads, tasks.size(), order.size(), static_cast<unsigned long long>(conc::steps()), static_cast<unsigned long long>(conc::switches()), log.c_str());
        if (!problems.empty())
            ctx.fail(problems[0].first.c_str(), "%s", problems[0].second.c_str());
        size_t cancelled = 0, updated = 0;
        for (const auto& t : tasks) {
            cancelled += !t.cancels.empty();
            updated += t.instances.size() > 1;
        }
        ctx.tagN("thread tasks", tasks.size());
        ctx.tagN("thread tasks cancelled", cancelled);
        ctx.tagN("thread tasks updated", updated);
        ctx.tagN("cancels which waited", waits);
        ctx.tagN("cancels in a task", cancelsInside);
        if (complete)
            ctx.tag("until all have run");
        if (cancelled && updated && conc::switches() > 10)
            ctx.nontrivial();
    }

    // Whether the scheduler's thread can have taken the task just before it was updated
    bool takenBefore(const ThreadTask& t, size_t j)
    {
        const auto& made = t.instances[j].made;
        bool due = false;
        for (size_t i = 0; i < j; i += 1)
            due = due || t.instances[i].dueMin() <= made.to;
        for (const auto& o : order) {
            const auto& r = tasks[o.first].runs[o.second];
            if (r.begin > made.end)
                return due && o.first == t.id && r.from <= made.to;
            if (!r.end || r.end > made.end)
                return false; // It was running something
        }
        return false;
    }

    void judge(bool complete)
    {
        int64_t busyUntil = -1;
        for (const auto& o : order) {
            const auto& t = tasks[o.first];
            const auto& r = t.runs[o.second];
            const auto at = r.from;
            bool onTime = false, early = true;
            for (const auto& in : t.instances) {
                if (in.made.begin > r.begin)
                    continue;
                const auto to = in.made.end ? in.dueMax() : INT64_MAX;
                onTime = onTime || (in.dueMin() <= at && at <= to);
                early = early && at < in.dueMin();
            }
            if (early)
                problem("time", T(o.first) + " is run early, at " + std::to_string(at));
            else if (!onTime && busyUntil != at)
                problem("time", T(o.first) + " is run late, at " + std::to_string(at));
            if (r.end)
                busyUntil = r.to;
        }
        for (const auto& t : tasks) {
            if (t.runs.size() > t.instances.size())
                problem("number of runs", std::to_string(t.runs.size()) + " of " + T(t.id) + ", submitted or updated " + std::to_string(t.instances.size()) + " times");
            for (size_t j = 1; j < t.instances.size(); j += 1) {
                size_t after = 0, before = 0;
                for (const auto& r : t.runs) {
                    after += r.begin > t.instances[j].made.end && t.instances[j].made.end;
                    before += r.begin < t.instances[j].made.begin;
                }
                if (after > t.instances.size() - j && takenBefore(t, j))
                    after -= 1; // It was on its way already
                if (after > t.instances.size() - j)
                    problem("update", T(t.id) + " is run as before and as updated");
                if (before > j)
                    problem("number of runs", "too many of " + T(t.id));
            }
            if (!t.ambiguous)
                for (const auto& c : t.cancels)
                    for (const auto& r : t.runs)
                        if (r.begin > c.end)
                            problem("cancel", T(t.id) + " is run after it was cancelled");
            if (t.scope >= 0) {
                const auto& e = scopes[static_cast<size_t>(t.scope)].ended;
                for (const auto& r : t.runs)
                    if (e.end && r.begin > e.end)
                        problem("scope", T(t.id) + " is run after its scope has ended");
            }
            if (complete && !t.cancelBegun && !t.ambiguous && !t.instances.empty()) {
                bool ended = false;
                if (t.scope >= 0) {
                    const auto& e = scopes[static_cast<size_t>(t.scope)].ended;
                    // Was there time for it
                    ended = e.begin && e.from <= t.instances.back().made.to + (t.instances.back().delay + 2000) * 1000;
                }
                bool found = false;
                for (const auto& r : t.runs)
                    found = found || r.begin > t.instances.back().made.begin;
                if (!ended && !found)
                    problem("number of runs", T(t.id) + " was never run");
            }
        }
        // In order of their times; and in order of submission for the same time
        for (size_t i = 0; i < order.size(); i += 1) {
            for (size_t j = i + 1; j < order.size(); j += 1) {
                const auto& a = tasks[order[i].first]; // was run first
                const auto& b = tasks[order[j].first];
                if (a.instances.size() != 1 || b.instances.size() != 1 || a.id == b.id)
                    continue;
                const auto &x = a.instances[0], &y = b.instances[0];
                if (!x.made.end || !y.made.end || y.made.end > a.runs[order[i].second].begin)
                    continue;
                if (y.dueMax() < x.dueMin())
                    problem("order", T(a.id) + " is run before " + T(b.id) + ", which was due before it");
                if (y.dueMax() == x.dueMin() && y.dueMin() == x.dueMax() && y.made.end < x.made.begin)
                    problem("order", T(a.id) + " is run before " + T(b.id) + ", which was submitted before it for the same time");
            }
        }
    }
};

void threadFacet(Src& src, Ctx& ctx)
{
    ThreadCase c(src, ctx);
    c.all();
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv,
        { "P24",
            "loop: tasks were cancelled and updated, and there were more than 4; threads: tasks were cancelled and updated, and threads took turns more than 10 times",
            { "threads switch at the operations on locks, condition variables and threads, and in tasks", "the handles of a scoped scheduler are used by its owner and its tasks, and not after it has ended" },
            { { "loop", 1, loopFacet }, { "threads", 2, threadFacet } } });
}
