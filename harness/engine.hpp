// Small property-based-testing engine with internal (choice-stream) shrinking.
// Every random decision of a case is drawn through Ctx and recorded; a case is a pure function of its choices.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <string>
#include <type_traits>

// State of the harness itself: one per thread where a check runs threads
#ifdef PBT_THREADS
#define HTLS thread_local
#else
#define HTLS
#endif

namespace pbt
{
struct Shared;  // per-worker shared memory

struct Ctx
{
    // --- drawing -------------------------------------------------------------------------------
    std::uint64_t below(std::uint64_t n);                           // [0, n), 0 is the simplest
    std::int64_t range(std::int64_t lo, std::int64_t hi)            // [lo, hi], lo is the simplest
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    bool chance(unsigned num, unsigned den)                         // false is the simplest
    {
        return below(den) >= den - num;
    }
    std::uint64_t bits();                                           // any 64-bit value, 0 simplest
    std::size_t weighted(std::initializer_list<unsigned> weights);  // index; first is the simplest
    // A size in [0, n], biased to the boundaries 0, 1, n-1, n.
    std::size_t edge(std::size_t n);
    // Loop control: `while (c.more(n_hint)) {...}`; each iteration is one deletable span.
    struct Loop
    {
        std::size_t target = 0;
        std::size_t done = 0;
        bool open = false;
    };
    Loop loop(std::size_t max_iterations);   // random length, mixture of short and long
    Loop loop_exact(std::size_t iterations);
    bool more(Loop& l);
    void span_begin();
    void span_end();

    // --- reporting -----------------------------------------------------------------------------
    // fail(): a violation, or, while `aside` is set, something that is not this check's subject: the case is abandoned.
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail_hard(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool aside = false;
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool tracing = false;
    void label(const char* name);    // counted once per case (string must be a literal)
    void nontrivial() { is_nontrivial = true; }
    void ops(std::uint64_t n = 1) { op_count += n; }

    // Repeat the choices made since mark() (for a second object that goes through the same history with values of its own).
    std::size_t mark() const;
    struct Echo
    {
        Ctx& c;
        bool replay_before;
        std::size_t pos_before, len_before;
        const std::uint64_t* choices_before;
        Echo(Ctx& ctx, std::size_t from);
        ~Echo();
        Echo(const Echo&) = delete;
    };
    bool echoing = false;

    // A context for another thread: its choices follow from `seed`, failures are reported through this one.
    Ctx sub(std::size_t slot, std::uint64_t seed);

    // --- internals -----------------------------------------------------------------------------
    Shared* sh = nullptr;
    Shared* report_to = nullptr;
    bool replay = false;
    std::size_t pos = 0;
    std::size_t replay_len = 0;
    const std::uint64_t* replay_choices = nullptr;
    std::uint64_t rng[2] = {1, 2};
    std::uint64_t shape_rng[2] = {1, 2};
    bool is_nontrivial = false;
    std::uint64_t op_count = 0;
    std::uint64_t sig = 0;
    static constexpr int MAX_LABELS = 96;
    const char* labels[MAX_LABELS];
    int n_labels = 0;
    std::uint64_t next_random();
};

using TestFn = void (*)(Ctx&);
struct Reg
{
    Reg(const char* name, TestFn fn, double weight = 1.0);
};

extern Ctx* g_ctx;  // the case currently running (for callbacks that have no Ctx)

// Heap-allocation counting, active only inside a Guard (see alloc.hpp)
struct Guard
{
    static inline HTLS int depth = 0;
    Guard() { ++depth; }
    ~Guard() { --depth; }
    Guard(const Guard&) = delete;
};
}  // namespace pbt

#define NOTE(c, ...)               \
    do                             \
    {                              \
        if ((c).tracing)           \
            (c).note(__VA_ARGS__); \
    } while (0)
#define CHECK(c, cond, ...)          \
    do                               \
    {                                \
        if (!(cond)) [[unlikely]]    \
            (c).fail(__VA_ARGS__);   \
    } while (0)
#define CHECK_HARD(c, cond, ...)        \
    do                                  \
    {                                   \
        if (!(cond)) [[unlikely]]       \
            (c).fail_hard(__VA_ARGS__); \
    } while (0)
// Evaluate a container call with the allocation guard on (Guard lives to the end of the full expression)
#define ON(...) (::pbt::Guard{}, __VA_ARGS__)

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define REGISTER(name, fn, weight) static ::pbt::Reg PBT_CAT(reg_, __COUNTER__)(name, fn, weight)
