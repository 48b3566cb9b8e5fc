// P24, without control of the threads: ThreadSanitizer watches random work on a scheduler in real time
#include "pbt.h"
#include "sim.h"

#include <atomic>
#include <memory>
#include <thread>

#include "srtc/scheduler.h"

using namespace pbt;
using srtc::ScopedScheduler;
using srtc::Task;
using srtc::ThreadScheduler;
using std::chrono::milliseconds;

namespace
{

void races(Src& src, Ctx& ctx)
{
    sim::gRealTime = true;
    const auto threads = src.size(2, 4);
    const auto useScope = src.chance(1, 2);
    struct Step {
        size_t kind, delay, which;
    };
    std::vector<std::vector<Step>> scripts(threads);
    for (auto& s : scripts)
        for (size_t n = src.size(4, 40); n > 0; n -= 1)
            s.push_back({ src.pick({ 6, 3, 3, 1, 1 }), src.pick({ 4, 2, 1 }), src.size(0, 7) });
    std::atomic<unsigned> runs{ 0 }, submitted{ 0 }, inside{ 0 }, overlaps{ 0 };
    std::vector<std::unique_ptr<std::atomic<bool>>> forbidden;
    std::atomic<unsigned> late{ 0 };
    size_t guarded = 0; // Only touched by tasks, which take turns
    {
        auto scheduler = std::make_shared<ThreadScheduler>("races");
        std::vector<std::thread> workers;
        for (size_t w = 0; w < threads; w += 1) {
            workers.emplace_back([&, w] {
                std::unique_ptr<ScopedScheduler> scope;
                if (useScope)
                    scope = std::make_unique<ScopedScheduler>(scheduler);
                srtc::Scheduler* s = scope ? static_cast<srtc::Scheduler*>(scope.get()) : scheduler.get();
                struct Mine {
                    std::weak_ptr<Task> handle;
                    std::shared_ptr<size_t> value; // Not locked: it's for the task until it was cancelled
                };
                std::vector<Mine> mine;
                for (const auto& st : scripts[w]) {
                    const milliseconds delay(st.delay);
                    auto* m = mine.empty() ? nullptr : &mine[st.which % mine.size()];
                    switch (st.kind) {
                    case 0: {
                        Mine fresh;
                        fresh.value = std::make_shared<size_t>(0);
                        submitted += 1;
                        const auto raw = fresh.value.get();
                        fresh.handle = s->submit(delay, __FILE__, __LINE__, [&, raw, keep = fresh.value] {
                            overlaps += inside++ != 0;
                            guarded += 1;
                            *raw += 1;
                            runs += 1;
                            inside -= 1;
                        });
                        mine.push_back(std::move(fresh));
                        break;
                    }
                    case 1:
                        // Once it's over there is no handle any more, and with it no order to rely on
                        if (m) {
                            if (const auto p = m->handle.lock()) {
                                p->cancel();
                                if (m->value && !scope)
                                    *m->value += 1; // A race if the task is still running
                                m->value.reset();
                            }
                        }
                        break;
                    case 2:
                        if (m && m->value)
                            if (const auto p = m->handle.lock())
                                m->handle = p->update(delay);
                        break;
                    case 3:
                        std::this_thread::yield();
                        break;
                    default:
                        scheduler->dump();
                        break;
                    }
                }
            });
        }
        for (auto& w : workers)
            w.join();
    }
    guarded += 1; // None is running now
    sim::gRealTime = false;
    PBT_CHECK(ctx, overlaps == 0, "overlap", "two tasks at the same time");
    if (runs > 5 && threads > 1)
        ctx.nontrivial();
    ctx.tagN("tasks run in real time", runs);
    ctx.note("%zu threads in real time, %s: %u tasks, %u runs", threads, useScope ? "scoped" : "direct", submitted.load(), runs.load());
}

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv, { "P24", "more than 5 tasks were run", {}, { { "races", 1, races } } });
}
