// C15: error policies. Rec is a recording policy that leaves the container through longjmp; with the default
// (aborting) policies the violating call is made in a forked child.
#pragma once
#include "elements.hpp"

#include "fixed_containers/source_location.hpp"
#include "fixed_containers/string_literal.hpp"

#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <limits>
#include <new>
#include <sys/wait.h>
#include <unistd.h>
#include <string_view>
#include <vector>

namespace pol
{
using pbt::Ctx;
enum Kind
{
    NONE,
    LENGTH,
    OUT_OF_RANGE,
    EMPTY,
    INVALID,
    DUPLICATE,
    MISSING,
    BAD_ACCESS,
    DIES,  // no policy is involved: the program is terminated
};
inline const char* kind_name(int k)
{
    static const char* n[] = {"no report", "length_error", "out_of_range", "empty_container_access", "invalid_argument",
                              "duplicate_enum_entries", "missing_enum_entries", "bad_optional_access", "termination"};
    return n[k];
}
struct State
{
    static inline std::jmp_buf buf;
    static inline bool armed = false;
    static inline Kind got = NONE;
    static inline long long index = -1;
    static inline std::size_t size = 0;
    static inline std::size_t target = 0;
    static inline const char* file = "";  // of the reported location
    static inline unsigned line = 0;
    static inline bool anywhere = false;    // this call cannot take the caller's location
    static inline std::string_view call_file;
};
[[noreturn]] inline void report(Kind k, const fixed_containers::std_transition::source_location& loc)
{
    State::file = loc.file_name();
    State::line = static_cast<unsigned>(loc.line());
    if (!State::armed) pbt::g_ctx->fail_hard("%s reported for a call that keeps all preconditions", kind_name(k));
    State::got = k;
    State::armed = false;
    std::longjmp(State::buf, 1);
}
struct Rec
{
    using L = fixed_containers::std_transition::source_location;
    template <class I>
    [[noreturn]] static void out_of_range(const I& i, std::size_t size, const L& l)
    {
        if constexpr (std::is_convertible_v<I, long long>) State::index = static_cast<long long>(i);
        else State::index = -1;
        State::size = size;
        report(OUT_OF_RANGE, l);
    }
    [[noreturn]] static void length_error(std::size_t t, const L& l)
    {
        State::target = t;
        report(LENGTH, l);
    }
    [[noreturn]] static void empty_container_access(const L& l) { report(EMPTY, l); }
    [[noreturn]] static void invalid_argument(const fixed_containers::StringLiteral&, const L& l) { report(INVALID, l); }
    [[noreturn]] static void duplicate_enum_entries(const L& l) { report(DUPLICATE, l); }
    [[noreturn]] static void missing_enum_entries(const L& l) { report(MISSING, l); }
    [[noreturn]] static void bad_optional_access_error(const L& l) noexcept { report(BAD_ACCESS, l); }
};

template <class F>
__attribute__((noinline)) Kind probe(F& f)
{
    State::got = NONE;
    State::anywhere = false;
    State::armed = true;
    if (setjmp(State::buf) == 0)
    {
        f();
    }
    State::armed = false;
    return State::got;
}

// How a call ended in a child process: 0 it returned, 1 it aborted, 2 anything else.
template <class F>
int in_child(F& f)
{
    std::fflush(nullptr);
    const pid_t p = ::fork();
    if (p < 0) return 1;
    if (p == 0)
    {
        for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) std::signal(s, SIG_DFL);
        ::alarm(20);
        if (std::freopen("/dev/null", "w", stderr) == nullptr) ::_exit(3);
        f();
        ::_exit(0);
    }
    int st = 0;
    while (::waitpid(p, &st, 0) < 0)
    {
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    return 2;
}

inline bool anonymous(std::string_view what)
{
    for (const std::string_view s : {"[]", "[] const", "operator[]", "operator[](&&)", "emplace", "try_emplace", "try_emplace(&&)", "operator>>", "+= char", "access"})
        if (what == s) return true;
    return false;
}
// Make the call `f` and judge the policy's verdict. Returns true if the call completed.
template <bool DEFAULT_POLICY, class F>
bool judge(Ctx& c, Kind want, const char* what, F f)
{
    c.ops();
    if (want != NONE) c.label(kind_name(want));
    if constexpr (DEFAULT_POLICY)
    {
        if (want == NONE)
        {
            f();
            return true;
        }
        if (!c.chance(1, 4)) return false;  // a fork is expensive
        c.nontrivial();
        const int r = in_child(f);
        CHECK(c, r != 0, "%s: the program goes on, expected termination (%s)", what, kind_name(want));
        CHECK(c, r == 1, "%s: the program does not end through abort, expected termination (%s)", what, kind_name(want));
        return false;
    }
    else
    {
        if (want == DIES) return false;
        const Kind got = probe(f);
        if (want != NONE) c.nontrivial();
        CHECK(c, got == want, "%s: %s, expected %s", what, kind_name(got), kind_name(want));
        // Calls that can take the caller's location report it (operators and variadic calls cannot)
        if (got != NONE && !State::anywhere && !anonymous(what))
            CHECK(c, std::string_view(State::file) == State::call_file,
                  "%s: reported at %s:%u instead of at the call", what, State::file, State::line);
        return want == NONE;
    }
}

template <class C>
struct Obj
{
    void* mem;
    C* x = nullptr;
    explicit Obj(Ctx& c)
    {
        mem = ::operator new(sizeof(C), std::align_val_t(alignof(C)));
        std::memset(mem, c.chance(1, 2) ? 0xA5 : 0, sizeof(C));
    }
    Obj(const Obj&) = delete;
    ~Obj() { ::operator delete(mem, std::align_val_t(alignof(C))); }
};

// A size or index: small ones around the capacity and the fill level, and huge ones
inline std::size_t number(Ctx& c, std::size_t size, std::size_t cap)
{
    switch (c.weighted({4, 2, 2, 2, 2, 2, 1, 1, 1, 1}))
    {
    case 0: return c.below(cap + 1);
    case 1: return size;
    case 2: return cap;
    case 3: return cap + 1;
    case 4: return size + 1;
    case 5: return size == 0 ? 0 : size - 1;
    case 6: return cap + c.below(200);
    case 7: return std::numeric_limits<std::size_t>::max() - c.below(3);
    case 8: return (std::size_t{1} << (31 + c.below(2))) + c.below(3);
    default: return (std::size_t{1} << 63) + c.below(3);
    }
}
}  // namespace pol
