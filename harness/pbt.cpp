#include "pbt.h"

#include <algorithm>
#include <csignal>
#include <ctime>
#include <set>
#include <unordered_set>
#include <utility>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

void (*gResetHook)() = nullptr;
int (*gRunHook)(const Property&) = nullptr;

// ----- Coverage counters

static std::vector<std::pair<uint8_t*, uint8_t*>>& covRegions()
{
    static std::vector<std::pair<uint8_t*, uint8_t*>> regions;
    return regions;
}

extern "C" void __sanitizer_cov_8bit_counters_init(char* start, char* stop)
{
    covRegions().emplace_back(reinterpret_cast<uint8_t*>(start), reinterpret_cast<uint8_t*>(stop));
}

extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*)
{
}

static uint8_t bucket(uint8_t v)
{
    if (v == 0)
        return 0;
    if (v == 1)
        return 1;
    if (v == 2)
        return 2;
    if (v == 3)
        return 4;
    if (v < 8)
        return 8;
    if (v < 16)
        return 16;
    if (v < 32)
        return 32;
    if (v < 128)
        return 64;
    return 128;
}

static std::vector<uint8_t> gVirgin;

static void covReset()
{
    for (auto& r : covRegions()) {
        std::memset(r.first, 0, r.second - r.first);
    }
}

// New bits
static size_t covCollect()
{
    size_t total = 0;
    for (auto& r : covRegions()) {
        total += r.second - r.first;
    }
    if (gVirgin.size() != total) {
        gVirgin.assign(total, 0);
    }
    size_t fresh = 0;
    size_t pos = 0;
    for (auto& r : covRegions()) {
        for (const auto* p = r.first; p != r.second; ++p, ++pos) {
            if (*p) {
                const auto b = bucket(*p);
                if ((gVirgin[pos] & b) == 0) {
                    gVirgin[pos] |= b;
                    fresh += 1;
                }
            }
        }
    }
    return fresh;
}

static size_t covEdges()
{
    size_t n = 0;
    for (const auto b : gVirgin) {
        n += b != 0;
    }
    return n;
}

// ----- Real time, never the interposed clock

static double now()
{
    struct timespec ts = {};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

static void sleepMillis(unsigned ms)
{
    struct timespec ts = { static_cast<time_t>(ms / 1000), static_cast<long>(ms % 1000) * 1000000L };
    syscall(SYS_nanosleep, &ts, nullptr);
}

// ----- PRNG

static uint64_t mix(uint64_t z)
{
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t hash64(const void* data, size_t size, uint64_t seed)
{
    uint64_t h = seed + 0x9e3779b97f4a7c15ull * (size + 1);
    const auto p = static_cast<const uint8_t*>(data);
    size_t i = 0;
    for (; i + 8 <= size; i += 8) {
        uint64_t w;
        std::memcpy(&w, p + i, 8);
        h = mix(h ^ w) + 0x9e3779b97f4a7c15ull;
    }
    uint64_t w = 0;
    if (i < size) {
        std::memcpy(&w, p + i, size - i);
    }
    return mix(h ^ w);
}

std::string hex(const uint8_t* data, size_t size, size_t limit)
{
    std::string s;
    char buf[4];
    for (size_t i = 0; i < size && i < limit; i += 1) {
        std::snprintf(buf, sizeof(buf), "%02x", data[i]);
        s += buf;
    }
    if (size > limit) {
        s += "...(" + std::to_string(size) + " bytes)";
    }
    return s;
}

// ----- Shared memory between the supervisor and its workers

static constexpr size_t kMaxChoices = 1u << 18;

struct Shm {
    volatile uint64_t evaluations;
    volatile double caseStart; // 0 when idle
    volatile uint32_t facet;
    volatile uint32_t caseSerial;
    volatile uint64_t choiceCount;
    volatile uint64_t failed;
    char failLabel[128];
    char failText[4096];
    uint64_t choices[kMaxChoices];
};

static Shm* gShm = nullptr; // Set in workers

void* pauseRecording()
{
    return std::exchange(gShm, nullptr);
}

void resumeRecording(void* paused)
{
    gShm = static_cast<Shm*>(paused);
}

static Shm* newShm()
{
    const auto p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        _exit(3);
    }
    return static_cast<Shm*>(p);
}

// ----- Src

Src::Src(uint64_t seed, std::vector<uint64_t> prefix, Tail tail)
    : mState(seed)
    , mPrefix(std::move(prefix))
    , mPos(0)
    , mTail(tail)
{
}

uint64_t Src::next()
{
    mState += 0x9e3779b97f4a7c15ull;
    return mix(mState);
}

uint64_t Src::draw(uint64_t max)
{
    uint64_t v;
    if (mPos < mPrefix.size()) {
        v = mPrefix[mPos++];
        if (v > max) {
            v = max == ~0ull ? v : v % (max + 1);
        }
    } else if (mTail == Tail::Zero) {
        v = 0;
    } else if (max == ~0ull) {
        v = next();
    } else {
        v = next() % (max + 1);
    }

    mChoices.push_back(v);
    if (gShm) {
        const auto n = mChoices.size() - 1;
        if (n >= kMaxChoices) {
            throw Discard();
        }
        gShm->choices[n] = v;
        gShm->choiceCount = n + 1;
    }
    return v;
}

size_t Src::pick(std::initializer_list<unsigned> weights)
{
    unsigned total = 0;
    for (const auto w : weights)
        total += w;
    auto v = draw(total - 1);
    size_t i = 0;
    for (const auto w : weights) {
        if (v < w)
            return i;
        v -= w;
        i += 1;
    }
    return 0;
}

std::vector<uint8_t> Src::blob(size_t size)
{
    std::vector<uint8_t> r(size);
    const auto seed = draw(0xffff);
    if (seed == 0) {
        for (size_t i = 0; i < size; i += 1)
            r[i] = static_cast<uint8_t>(i);
    } else {
        uint64_t st = seed * 0x9e3779b97f4a7c15ull;
        for (size_t i = 0; i < size;) {
            st += 0x9e3779b97f4a7c15ull;
            auto w = mix(st);
            for (size_t k = 0; k < 8 && i < size; k += 1, i += 1, w >>= 8)
                r[i] = static_cast<uint8_t>(w);
        }
    }
    return r;
}

std::vector<uint8_t> Src::bytes(size_t size)
{
    std::vector<uint8_t> r(size);
    for (auto& b : r)
        b = u8();
    return r;
}

// ----- Ctx

static std::string vformat(const char* fmt, va_list ap)
{
    char buf[2048];
    std::vsnprintf(buf, sizeof(buf), fmt, ap);
    return buf;
}

void Ctx::note(const char* fmt, ...)
{
    if (!mVerbose || mNotes.size() > 200000)
        return;
    va_list ap;
    va_start(ap, fmt);
    mNotes += vformat(fmt, ap);
    va_end(ap);
    mNotes += '\n';
}

void Ctx::fail(const char* label, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    Fail f;
    f.label = label;
    f.text = vformat(fmt, ap);
    va_end(ap);
    throw f;
}

// ----- Running one case

struct Outcome {
    bool failed = false;
    bool discarded = false;
    std::string label;
    std::string text;
};

static Outcome runOne(const Facet& facet, Src& src, Ctx& ctx)
{
    Outcome out;
    if (gResetHook)
        gResetHook();
    try {
        facet.fn(src, ctx);
    } catch (const Fail& f) {
        out.failed = true;
        out.label = f.label;
        out.text = f.text;
    } catch (const Discard&) {
        out.discarded = true;
    }
    return out;
}

struct Options {
    std::string tier = "quick";
    uint64_t seed = 1;
    unsigned jobs = 8;
    double seconds = 20;
    double caseTimeout = 30;
    std::string evidence;
    std::string replayDir = ".";
    std::string replay;
    std::string workDir = ".";
    std::string onlyFacet;
    bool guided = true;
};

// ----- Attempt in a child process

struct Attempt {
    bool failed = false;
    std::string label;
    std::string text;
    std::string notes;
    std::vector<uint64_t> choices;
};

static std::string slurp(const std::string& path, size_t limit = 1 << 20)
{
    std::string s;
    if (FILE* f = std::fopen(path.c_str(), "rb")) {
        char buf[4096];
        size_t n;
        while ((n = std::fread(buf, 1, sizeof(buf), f)) > 0 && s.size() < limit)
            s.append(buf, n);
        std::fclose(f);
    }
    return s;
}

static std::string crashLabel(int status, const std::string& err)
{
    static const char* const kinds[] = { "AddressSanitizer: ", "runtime error: ", "ThreadSanitizer: ", "Assertion `" };
    for (const auto k : kinds) {
        const auto p = err.find(k);
        if (p != std::string::npos) {
            auto e = err.find('\n', p);
            auto s = err.substr(p, e == std::string::npos ? e : e - p);
            const auto pid = s.find(" (pid=");
            if (pid != std::string::npos)
                s.resize(pid);
            // Only the kind of error, not the addresses
            if (std::strncmp(k, "Addr", 4) == 0) {
                const auto sp = s.find(' ', std::strlen(k));
                s = s.substr(0, sp);
            }
            return "crash: " + s.substr(0, 80);
        }
    }
    if (WIFSIGNALED(status))
        return "crash: signal " + std::to_string(WTERMSIG(status));
    return "crash: exit " + std::to_string(WEXITSTATUS(status));
}

static Attempt attempt(const Options& opt,
                       const Facet& facet,
                       const std::vector<uint64_t>& choices,
                       bool verbose,
                       double timeout,
                       Shm* shm)
{
    static unsigned serial = 0;
    const auto base = opt.workDir + "/attempt-" + std::to_string(getpid()) + "-" + std::to_string(serial++);
    const auto errPath = base + ".err";
    const auto notePath = base + ".notes";

    shm->choiceCount = 0;
    shm->failed = 0;

    std::fflush(nullptr);
    const auto pid = fork();
    if (pid == 0) {
        const auto fd = open(errPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        gShm = shm;
        Src src(0, choices, Src::Tail::Zero);
        Ctx ctx(verbose);
        if (verbose) {
            // Keep the notes even if this crashes
            ctx.mNotes.reserve(1 << 16);
        }
        const auto out = runOne(facet, src, ctx);
        if (verbose) {
            if (FILE* f = std::fopen(notePath.c_str(), "wb")) {
                std::fwrite(ctx.mNotes.data(), 1, ctx.mNotes.size(), f);
                std::fclose(f);
            }
        }
        if (out.failed) {
            std::snprintf(shm->failLabel, sizeof(shm->failLabel), "%s", out.label.c_str());
            std::snprintf(shm->failText, sizeof(shm->failText), "%s", out.text.c_str());
            shm->failed = 1;
        }
        _exit(0);
    }

    const auto start = now();
    int status = 0;
    bool hang = false;
    unsigned nap = 0;
    for (;;) {
        const auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
            break;
        if (now() - start > timeout) {
            hang = true;
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            break;
        }
        if (nap < 50) {
            nap += 1;
            struct timespec ts = { 0, 200000 };
            syscall(SYS_nanosleep, &ts, nullptr);
        } else {
            sleepMillis(5);
        }
    }

    Attempt a;
    a.choices.assign(shm->choices, shm->choices + shm->choiceCount);
    if (hang) {
        a.failed = true;
        a.label = "hang";
        a.text = "no result after " + std::to_string(static_cast<int>(timeout)) + " s";
    } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
        // Not ours: the sandbox ended it, no verdict
        a.failed = false;
    } else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
        const auto err = slurp(errPath);
        a.failed = true;
        a.label = crashLabel(status, err);
        a.text = err.substr(0, 6000);
    } else if (shm->failed) {
        a.failed = true;
        a.label = shm->failLabel;
        a.text = shm->failText;
    }
    if (verbose)
        a.notes = slurp(notePath);
    unlink(errPath.c_str());
    unlink(notePath.c_str());
    return a;
}

// ----- Shrinking

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}

static std::vector<uint64_t> shrink(
    const Options& opt, const Facet& facet, std::vector<uint64_t> best, const std::string& label, double seconds)
{
    const auto shm = newShm();
    const auto deadline = now() + seconds;
    const auto isHang = label == "hang";
    const auto timeout = isHang ? 5.0 : opt.caseTimeout;
    size_t attempts = 0;

    const auto consider = [&](const std::vector<uint64_t>& cand) {
        if (now() > deadline)
            return false;
        attempts += 1;
        const auto a = attempt(opt, facet, cand, false, timeout, shm);
        if (a.failed && a.label == label && (isHang || simpler(a.choices, best) || simpler(cand, best))) {
            best = !isHang && simpler(a.choices, cand) ? a.choices : cand;
            return true;
        }
        return false;
    };

    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;

        // Remove spans
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < deadline; len /= 2) {
            for (size_t pos = 0; pos + len <= best.size() && now() < deadline;) {
                auto cand = best;
                cand.erase(cand.begin() + static_cast<ssize_t>(pos), cand.begin() + static_cast<ssize_t>(pos + len));
                if (consider(cand)) {
                    progress = true;
                } else {
                    pos += len;
                }
            }
        }

        // Zero spans
        for (size_t len = 8; len >= 1 && now() < deadline; len /= 2) {
            for (size_t pos = 0; pos + len <= best.size() && now() < deadline; pos += len) {
                auto cand = best;
                bool any = false;
                for (size_t i = pos; i < pos + len; i += 1) {
                    any = any || cand[i] != 0;
                    cand[i] = 0;
                }
                if (any && consider(cand))
                    progress = true;
            }
        }

        // Lower single values, and lower one while removing what follows
        for (size_t pos = 0; pos < best.size() && now() < deadline; pos += 1) {
            uint64_t lo = 0; // Known not to fail, or not known
            unsigned rounds = 0;
            while (pos < best.size() && best[pos] > lo && rounds < 24 && now() < deadline) {
                rounds += 1;
                const auto mid = lo + (best[pos] - lo) / 2;
                auto cand = best;
                cand[pos] = mid;
                if (mid != best[pos] && consider(cand)) {
                    progress = true;
                } else {
                    if (lo == mid)
                        break;
                    lo = mid;
                }
            }
            if (pos < best.size() && best[pos] > 0 && pos + 1 < best.size()) {
                auto cand = best;
                cand[pos] -= 1;
                cand.erase(cand.begin() + static_cast<ssize_t>(pos) + 1);
                if (consider(cand))
                    progress = true;
            }
        }
    }

    munmap(shm, sizeof(Shm));
    std::fprintf(stderr, "shrink: %zu attempts, %zu choices\n", attempts, best.size());
    return best;
}

// ----- Worker

static std::vector<uint64_t> mutate(Src& rng, const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    auto r = a;
    const auto ops = 1 + rng.draw(3);
    for (uint64_t k = 0; k < ops && !r.empty(); k += 1) {
        const auto pos = rng.draw(r.size() - 1);
        switch (rng.draw(7)) {
        case 0:
            r[pos] = rng.u64();
            break;
        case 1:
            r[pos] = rng.draw(16);
            break;
        case 2:
            r[pos] += 1;
            break;
        case 3:
            if (r[pos])
                r[pos] -= 1;
            break;
        case 4: {
            const auto len = std::min<size_t>(1 + rng.draw(15), r.size() - pos);
            r.erase(r.begin() + static_cast<ssize_t>(pos), r.begin() + static_cast<ssize_t>(pos + len));
            break;
        }
        case 5: {
            const auto len = std::min<size_t>(1 + rng.draw(15), r.size() - pos);
            const std::vector<uint64_t> part(r.begin() + static_cast<ssize_t>(pos),
                                             r.begin() + static_cast<ssize_t>(pos + len));
            r.insert(r.begin() + static_cast<ssize_t>(pos), part.begin(), part.end());
            break;
        }
        case 6:
            if (!b.empty()) {
                const auto cut = rng.draw(b.size() - 1);
                r.resize(pos);
                r.insert(r.end(), b.begin() + static_cast<ssize_t>(cut), b.end());
            }
            break;
        default:
            r.resize(pos);
            break;
        }
    }
    return r;
}

static void writeFile(const std::string& path, const void* data, size_t size)
{
    if (FILE* f = std::fopen(path.c_str(), "wb")) {
        std::fwrite(data, 1, size, f);
        std::fclose(f);
    }
}

static void workerMain(
    const Options& opt, const Property& prop, unsigned w, unsigned generation, Shm* shm, double deadline)
{
    gShm = shm;
    const auto base = opt.workDir + "/w" + std::to_string(w) + "-" + std::to_string(generation);
    const auto fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    dup2(fd, 1);

    unsigned totalWeight = 0;
    for (const auto& f : prop.facets)
        totalWeight += f.weight;

    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> tags;
    std::vector<std::vector<std::vector<uint64_t>>> corpus(prop.facets.size());
    std::vector<std::string> samples;
    uint64_t evaluations = 0, discarded = 0, nontrivial = 0, guided = 0;

    const auto savedShm = gShm;
    uint64_t index = 0;
    bool failed = false;
    while (now() < deadline && !failed) {
        const auto caseSeed = mix(opt.seed * 0x9e3779b97f4a7c15ull + mix(w * 1000003ull + generation * 7919ull)) + index;
        index += 1;

        // The engine's own randomness is not part of the case
        gShm = nullptr;
        Src rng(mix(caseSeed ^ 0x5bd1e995), {}, Src::Tail::Random);
        auto pickFacet = rng.draw(totalWeight - 1);
        size_t facetIndex = 0;
        while (pickFacet >= prop.facets[facetIndex].weight) {
            pickFacet -= prop.facets[facetIndex].weight;
            facetIndex += 1;
        }
        const auto& facet = prop.facets[facetIndex];
        auto& pool = corpus[facetIndex];

        std::vector<uint64_t> prefix;
        if (opt.guided && !pool.empty() && rng.chance(2, 5)) {
            // Favour recent entries
            const auto n = pool.size();
            const auto& a = pool[n - 1 - rng.draw(rng.chance(1, 2) ? std::min<size_t>(n - 1, 15) : n - 1)];
            const auto& b = pool[rng.draw(n - 1)];
            prefix = mutate(rng, a, b);
            guided += 1;
        }
        gShm = savedShm;

        Src src(caseSeed, std::move(prefix), Src::Tail::Random);
        Ctx ctx(false);

        shm->facet = static_cast<uint32_t>(facetIndex);
        shm->choiceCount = 0;
        shm->caseSerial = shm->caseSerial + 1;
        shm->caseStart = now();

        covReset();
        const auto out = runOne(facet, src, ctx);
        shm->caseStart = 0;

        const auto fresh = opt.guided ? covCollect() : 0;
        evaluations += 1;
        shm->evaluations = shm->evaluations + 1;

        if (out.discarded) {
            discarded += 1;
            continue;
        }
        if (fresh > 0 && src.choices().size() < 20000 && pool.size() < 5000) {
            pool.push_back(src.choices());
        }
        for (const auto& t : ctx.mTags)
            tags[t.first] += t.second;
        if (ctx.mNonTrivial) {
            nontrivial += 1;
            distinct.insert(hash64(src.choices().data(), src.choices().size() * 8, facetIndex));
            if (w == 0 && generation == 0 && samples.size() < 12 && !out.failed &&
                (nontrivial < 6 || (nontrivial & (nontrivial - 1)) == 0)) {
                gShm = nullptr;
                Src again(0, src.choices(), Src::Tail::Zero);
                Ctx ctx2(true);
                covReset();
                runOne(facet, again, ctx2);
                gShm = savedShm;
                samples.push_back(std::string("[") + facet.name + "] " + ctx2.mNotes.substr(0, 700));
            }
        }
        if (out.failed) {
            std::snprintf(shm->failLabel, sizeof(shm->failLabel), "%s", out.label.c_str());
            std::snprintf(shm->failText, sizeof(shm->failText), "%s", out.text.c_str());
            shm->failed = 1;
            failed = true;
        }
        tags[std::string("facet:") + facet.name] += 1;
    }

    std::vector<uint64_t> hashes(distinct.begin(), distinct.end());
    writeFile(base + ".hashes", hashes.data(), hashes.size() * 8);
    std::string txt;
    for (const auto& t : tags)
        txt += "tag " + std::to_string(t.second) + " " + t.first + "\n";
    size_t corpusSize = 0;
    for (const auto& c : corpus)
        corpusSize += c.size();
    txt += "num " + std::to_string(discarded) + " discarded\n";
    txt += "num " + std::to_string(nontrivial) + " nontrivial\n";
    txt += "num " + std::to_string(guided) + " guided\n";
    txt += "num " + std::to_string(corpusSize) + " corpus\n";
    txt += "max " + std::to_string(covEdges()) + " edges\n";
    writeFile(base + ".stats", txt.data(), txt.size());
    std::string smp;
    for (const auto& s : samples) {
        smp += s;
        smp += '\0';
    }
    writeFile(base + ".samples", smp.data(), smp.size());
    _exit(0);
}

// ----- JSON

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (const auto ch : s) {
        const auto c = static_cast<unsigned char>(ch);
        if (c == '"')
            r += "\\\"";
        else if (c == '\\')
            r += "\\\\";
        else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c >= 0x7f) {
            char buf[8];
            std::snprintf(buf, sizeof(buf), "\\u%04x", c);
            r += buf;
        } else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

static std::string facetOfReplay(const std::string& text)
{
    const auto p = text.find("\nfacet ");
    if (p == std::string::npos)
        return "";
    const auto e = text.find('\n', p + 7);
    return text.substr(p + 7, e - p - 7);
}

static std::vector<uint64_t> choicesOfReplay(const std::string& text)
{
    std::vector<uint64_t> r;
    const auto p = text.find("\nchoices");
    if (p == std::string::npos)
        return r;
    const char* s = text.c_str() + p + 8;
    while (*s && *s != '\n') {
        char* e = nullptr;
        const auto v = std::strtoull(s, &e, 10);
        if (e == s)
            break;
        r.push_back(v);
        s = e;
    }
    return r;
}

int run(int argc, char** argv, const Property& prop)
{
    if (gRunHook)
        return gRunHook(prop);

    Options opt;
    for (int i = 1; i < argc; i += 1) {
        const std::string a = argv[i];
        const auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier")
            opt.tier = val();
        else if (a == "--seed")
            opt.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--jobs")
            opt.jobs = static_cast<unsigned>(std::atoi(val().c_str()));
        else if (a == "--seconds")
            opt.seconds = std::atof(val().c_str());
        else if (a == "--case-timeout")
            opt.caseTimeout = std::atof(val().c_str());
        else if (a == "--evidence")
            opt.evidence = val();
        else if (a == "--replay-dir")
            opt.replayDir = val();
        else if (a == "--replay")
            opt.replay = val();
        else if (a == "--work-dir")
            opt.workDir = val();
        else if (a == "--facet")
            opt.onlyFacet = val();
        else if (a == "--unguided")
            opt.guided = false;
    }

    setenv("TZ", "UTC", 1);
    const auto startTime = now();
    auto p = prop;

    if (!opt.replay.empty()) {
        const auto text = slurp(opt.replay);
        const auto name = facetOfReplay(text);
        const auto shm = newShm();
        for (const auto& f : p.facets) {
            if (name == f.name) {
                auto a = attempt(opt, f, choicesOfReplay(text), true, opt.caseTimeout * 2, shm);
                for (unsigned k = 1; !a.failed && p.confirmTries > p.confirmNeeded && k < p.confirmTries; k += 1)
                    a = attempt(opt, f, choicesOfReplay(text), true, opt.caseTimeout * 2, shm);
                std::printf("%s\n%s %s\n%s\n", a.notes.c_str(), a.failed ? "FAIL" : "PASS", a.label.c_str(),
                            a.text.c_str());
                return a.failed ? 1 : 0;
            }
        }
        std::printf("no facet %s\n", name.c_str());
        return 1;
    }

    if (!opt.onlyFacet.empty()) {
        p.facets.erase(std::remove_if(p.facets.begin(), p.facets.end(),
                                      [&](const Facet& f) { return opt.onlyFacet != f.name; }),
                       p.facets.end());
        if (p.facets.empty()) {
            std::fprintf(stderr, "no such facet\n");
            return 1;
        }
    }

    const auto deadline = startTime + opt.seconds;
    struct Worker {
        pid_t pid = 0;
        unsigned generation = 0;
        Shm* shm = nullptr;
        bool done = false;
    };
    std::vector<Worker> workers(opt.jobs);
    const auto spawn = [&](unsigned w) {
        std::fflush(nullptr);
        workers[w].shm->caseStart = 0;
        workers[w].pid = fork();
        if (workers[w].pid == 0)
            workerMain(opt, p, w, workers[w].generation, workers[w].shm, deadline);
    };
    for (unsigned w = 0; w < opt.jobs; w += 1) {
        workers[w].shm = newShm();
        spawn(w);
    }

    bool found = false;
    size_t foundFacet = 0;
    std::string foundLabel, foundText;
    std::vector<uint64_t> foundChoices;
    uint64_t unconfirmed = 0;
    std::vector<std::string> unconfirmedLabels;
    const auto confirmShm = newShm();

    const auto killAll = [&] {
        for (auto& w : workers) {
            if (!w.done) {
                kill(w.pid, SIGKILL);
                int st;
                waitpid(w.pid, &st, 0);
                w.done = true;
            }
        }
    };

    const auto confirm = [&](size_t facet, const std::vector<uint64_t>& choices, std::string& label, std::string& text) {
        unsigned failures = 0;
        for (unsigned k = 0; k < p.confirmTries && failures < p.confirmNeeded; k += 1) {
            if (failures + (p.confirmTries - k) < p.confirmNeeded)
                return false;
            const auto a = attempt(opt, p.facets[facet], choices, false, opt.caseTimeout * 2, confirmShm);
            if (!a.failed)
                continue;
            failures += 1;
            label = a.label;
            text = a.text;
        }
        return failures >= p.confirmNeeded;
    };

    for (bool running = true; running && !found;) {
        running = false;
        bool idle = true;
        for (unsigned w = 0; w < opt.jobs && !found; w += 1) {
            auto& wk = workers[w];
            if (wk.done)
                continue;
            running = true;
            int status = 0;
            const auto r = waitpid(wk.pid, &status, WNOHANG);
            bool suspect = false;
            if (r == wk.pid) {
                idle = false;
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !wk.shm->failed) {
                    wk.done = true;
                    continue;
                }
                suspect = true;
            } else {
                const auto cs = wk.shm->caseStart;
                if (cs > 0 && now() - cs > opt.caseTimeout) {
                    kill(wk.pid, SIGKILL);
                    waitpid(wk.pid, &status, 0);
                    suspect = true;
                    idle = false;
                }
            }
            if (suspect) {
                const std::vector<uint64_t> choices(wk.shm->choices, wk.shm->choices + wk.shm->choiceCount);
                const size_t facet = wk.shm->facet;
                std::string label, text;
                if (confirm(facet, choices, label, text)) {
                    found = true;
                    foundFacet = facet;
                    foundChoices = choices;
                    foundLabel = label;
                    foundText = text;
                } else {
                    unconfirmed += 1;
                    unconfirmedLabels.push_back(wk.shm->failed ? std::string(wk.shm->failLabel) + ": " + wk.shm->failText
                                                               : std::string("worker ended, status ") + std::to_string(status));
                    const auto err = slurp(opt.workDir + "/w" + std::to_string(w) + "-" +
                                           std::to_string(wk.generation) + ".err");
                    std::fprintf(stderr, "unconfirmed (facet %s): %s\n%s\n", p.facets[facet].name,
                                 unconfirmedLabels.back().c_str(), err.substr(0, 3000).c_str());
                    if (now() < deadline) {
                        wk.generation += 1;
                        wk.shm->failed = 0;
                        spawn(w);
                    } else {
                        wk.done = true;
                    }
                }
            }
        }
        if (running && idle)
            sleepMillis(10);
    }
    killAll();

    std::string replayPath;
    if (found) {
        const auto shrinkSeconds = opt.tier == "quick" ? 45.0 : 180.0;
        foundChoices = shrink(opt, p.facets[foundFacet], foundChoices, foundLabel, shrinkSeconds);
        const auto a = attempt(opt, p.facets[foundFacet], foundChoices, true, opt.caseTimeout * 2, confirmShm);
        const auto b = attempt(opt, p.facets[foundFacet], foundChoices, false, opt.caseTimeout * 2, confirmShm);
        (void)b;
        std::string txt = std::string("property ") + p.id + "\nfacet " + p.facets[foundFacet].name + "\nlabel " +
                          (a.failed ? a.label : foundLabel) + "\nchoices";
        for (const auto c : foundChoices)
            txt += " " + std::to_string(c);
        txt += "\n\n--- what fails\n" + (a.failed ? a.text : foundText) + "\n\n--- the case\n" + a.notes + "\n";
        char name[64];
        std::snprintf(name, sizeof(name), "%s-%016llx.replay", p.id,
                      static_cast<unsigned long long>(hash64(foundChoices.data(), foundChoices.size() * 8, foundFacet)));
        replayPath = opt.replayDir + "/" + name;
        writeFile(replayPath, txt.data(), txt.size());
        std::fprintf(stderr, "%s\n", txt.substr(0, 6000).c_str());
    }

    // Evidence
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> tags, nums, maxes;
    std::vector<std::string> samples;
    for (unsigned w = 0; w < opt.jobs; w += 1) {
        evaluations += workers[w].shm->evaluations;
        for (unsigned g = 0; g <= workers[w].generation; g += 1) {
            const auto base = opt.workDir + "/w" + std::to_string(w) + "-" + std::to_string(g);
            const auto hs = slurp(base + ".hashes", 1u << 30);
            for (size_t i = 0; i + 8 <= hs.size(); i += 8) {
                uint64_t h;
                std::memcpy(&h, hs.data() + i, 8);
                distinct.insert(h);
            }
            const auto st = slurp(base + ".stats");
            size_t pos = 0;
            while (pos < st.size()) {
                const auto e = st.find('\n', pos);
                const auto line = st.substr(pos, e - pos);
                pos = e + 1;
                char* rest = nullptr;
                const auto n = std::strtoull(line.c_str() + 4, &rest, 10);
                const std::string name = rest + 1;
                if (line.compare(0, 3, "tag") == 0)
                    tags[name] += n;
                else if (line.compare(0, 3, "num") == 0)
                    nums[name] += n;
                else
                    maxes[name] = std::max<uint64_t>(maxes[name], n);
            }
            const auto sm = slurp(base + ".samples");
            pos = 0;
            while (pos < sm.size()) {
                const auto e = sm.find('\0', pos);
                if (samples.size() < 4)
                    samples.push_back(sm.substr(pos, e - pos));
                pos = e + 1;
            }
        }
    }
    if (samples.empty() && found)
        samples.push_back("the failing case, see " + replayPath);

    if (!opt.evidence.empty()) {
        std::string j = "{\n \"property\": " + jstr(p.id) + ",\n \"tier\": " + jstr(opt.tier) +
                        ",\n \"seed\": " + std::to_string(opt.seed) + ",\n \"level\": \"exploration\",\n \"coverage\": {\n" +
                        "  \"evaluations\": " + std::to_string(evaluations) +
                        ",\n  \"distinct_nontrivial\": " + std::to_string(distinct.size()) +
                        ",\n  \"rule\": " + jstr(p.rule) + ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i += 1)
            j += std::string(i ? ",\n   " : "\n   ") + jstr(samples[i]);
        j += "\n  ],\n  \"labels\": {";
        bool first = true;
        for (const auto& t : tags) {
            j += std::string(first ? "\n   " : ",\n   ") + jstr(t.first) + ": " + std::to_string(t.second);
            first = false;
        }
        j += "\n  }";
        for (const auto& t : nums)
            j += ",\n  " + jstr("cases_" + t.first) + ": " + std::to_string(t.second);
        for (const auto& t : maxes)
            j += ",\n  " + jstr("library_" + t.first + "_covered_by_best_worker") + ": " + std::to_string(t.second);
        j += ",\n  \"unconfirmed_suspects\": " + std::to_string(unconfirmed);
        j += ",\n  \"workers\": " + std::to_string(opt.jobs);
        j += "\n },\n \"assumptions\": [";
        for (size_t i = 0; i < p.assumptions.size(); i += 1)
            j += std::string(i ? ", " : "") + jstr(p.assumptions[i]);
        char wall[32];
        std::snprintf(wall, sizeof(wall), "%.2f", now() - startTime);
        j += std::string("],\n \"wall_s\": ") + wall + ",\n \"violations\": " + (found ? "1" : "0") + "\n}\n";
        writeFile(opt.evidence, j.data(), j.size());
    }

    std::printf("%s: %llu cases, %zu distinct non-trivial, %llu unconfirmed, %.1f s\n", p.id,
                static_cast<unsigned long long>(evaluations), distinct.size(),
                static_cast<unsigned long long>(unconfirmed), now() - startTime);
    if (found) {
        std::printf("VIOLATION property=%s replay=%s\n", p.id, replayPath.c_str());
        return 1;
    }
    return 0;
}

} // namespace pbt
