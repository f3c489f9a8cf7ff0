// Element types used to instantiate the containers, and the lifetime registry.
#pragma once
#include "engine.hpp"

#include <compare>
#include <cstring>
#include <functional>
#include <memory>
#include <utility>

namespace el
{
// ---------------------------------------------------------------------------------------------------
// Registry of live tracked objects (addresses). No heap use.
struct Registry
{
    static constexpr std::size_t CAP = 1u << 15;
    static inline HTLS const void* slot[CAP];
    static inline HTLS std::size_t live = 0;
    static inline HTLS std::uint64_t constructed = 0;
    static inline HTLS std::uint64_t destroyed = 0;
    static inline HTLS std::uint64_t copies = 0;
    static inline HTLS std::uint64_t moves = 0;
    static std::size_t h(const void* p)
    {
        return (reinterpret_cast<std::uintptr_t>(p) * 0x9E3779B97F4A7C15ull) >> 49;
    }
    static bool has(const void* p)
    {
        for (std::size_t i = h(p);; i = (i + 1) % CAP)
        {
            if (slot[i] == p) return true;
            if (slot[i] == nullptr) return false;
        }
    }
    static void reset()
    {
        if (live != 0)
        {
            std::memset(slot, 0, sizeof(slot));
        }
        live = 0;
        constructed = destroyed = copies = moves = 0;
    }
    static void add(const void* p)
    {
        ++constructed;
        std::size_t i = h(p);
        for (; slot[i] != nullptr; i = (i + 1) % CAP)
        {
            if (slot[i] == p)
            {
                pbt::g_ctx->fail_hard("lifetime: an element is constructed on top of an element that is still alive");
            }
        }
        slot[i] = p;
        ++live;
        if (live > CAP / 2)
        {
            pbt::g_ctx->fail_hard("lifetime: elements leak (too many live elements)");
        }
    }
    static void del(const void* p)
    {
        ++destroyed;
        std::size_t i = h(p);
        for (;; i = (i + 1) % CAP)
        {
            if (slot[i] == p) break;
            if (slot[i] == nullptr)
            {
                pbt::g_ctx->fail_hard("lifetime: destructor runs on an element that is not alive");
            }
        }
        // backward-shift deletion
        for (;;)
        {
            slot[i] = nullptr;
            std::size_t j = i;
            for (;;)
            {
                j = (j + 1) % CAP;
                if (slot[j] == nullptr)
                {
                    --live;
                    return;
                }
                const std::size_t k = h(slot[j]);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                break;
            }
            slot[i] = slot[j];
            i = j;
        }
    }
    static void need(const void* p, const char* what)
    {
        if (!has(p))
        {
            pbt::g_ctx->fail_hard("lifetime: %s an element that is not alive", what);
        }
    }
};

inline constexpr int MOVED_FROM = -77777;

// Copyable and movable, everything non-trivial, knows its own address.
struct Trk
{
    void operator&() const = delete;
    int v;
    const Trk* self;
    Trk() : v(0), self(this) { Registry::add(this); }
    explicit Trk(int k) : v(k), self(this) { Registry::add(this); }
    Trk(int a, int b) : v(a * 1000 + b), self(this) { Registry::add(this); }
    Trk(const Trk& o) : v(o.get()), self(this)
    {
        Registry::add(this);
        ++Registry::copies;
    }
    Trk(Trk&& o) noexcept : v(o.get()), self(this)
    {
        Registry::add(this);
        ++Registry::moves;
        o.v = MOVED_FROM;
    }
    Trk& operator=(const Trk& o)
    {
        Registry::need(this, "assigning to");
        v = o.get();
        ++Registry::copies;
        return *this;
    }
    Trk& operator=(Trk&& o) noexcept
    {
        Registry::need(this, "assigning to");
        const int t = o.get();
        ++Registry::moves;
        if (this != std::addressof(o)) o.v = MOVED_FROM;
        v = t;
        return *this;
    }
    ~Trk()
    {
        Registry::del(this);
        v = -88888;
        self = nullptr;
    }
    int get() const
    {
        Registry::need(this, "reading");
        if (self != this) pbt::g_ctx->fail_hard("lifetime: an element object was relocated as raw bytes (not via its move/copy)");
        return v;
    }
    friend bool operator==(const Trk& a, const Trk& b) { return a.get() == b.get(); }
    friend std::strong_ordering operator<=>(const Trk& a, const Trk& b) { return a.get() <=> b.get(); }
};

struct MOnly
{
    void operator&() const = delete;
    int v;
    const MOnly* self;
    explicit MOnly(int k) : v(k), self(this) { Registry::add(this); }
    MOnly(const MOnly&) = delete;
    MOnly(MOnly&& o) noexcept : v(o.get()), self(this)
    {
        Registry::add(this);
        o.v = MOVED_FROM;
    }
    MOnly& operator=(const MOnly&) = delete;
    MOnly& operator=(MOnly&& o) noexcept
    {
        Registry::need(this, "assigning to");
        const int t = o.get();
        if (this != std::addressof(o)) o.v = MOVED_FROM;
        v = t;
        return *this;
    }
    ~MOnly()
    {
        Registry::del(this);
        v = -88888;
    }
    int get() const
    {
        Registry::need(this, "reading");
        if (self != this) pbt::g_ctx->fail_hard("lifetime: an element object was relocated as raw bytes (not via its move/copy)");
        return v;
    }
    friend bool operator==(const MOnly& a, const MOnly& b) { return a.get() == b.get(); }
    friend std::strong_ordering operator<=>(const MOnly& a, const MOnly& b) { return a.get() <=> b.get(); }
};

// Non-trivial copy/move but trivial destructor (hits the mixed-triviality special members)
struct TDtor
{
    void operator&() const = delete;
    int v;
    const TDtor* self;
    TDtor() : v(0), self(this) {}
    explicit TDtor(int k) : v(k), self(this) {}
    TDtor(const TDtor& o) : v(o.get()), self(this) {}
    TDtor(TDtor&& o) noexcept : v(o.get()), self(this) { o.v = MOVED_FROM; }
    TDtor& operator=(const TDtor& o)
    {
        v = o.get();
        self = this;
        return *this;
    }
    TDtor& operator=(TDtor&& o) noexcept
    {
        const int t = o.get();
        if (this != std::addressof(o)) o.v = MOVED_FROM;
        v = t;
        self = this;
        return *this;
    }
    ~TDtor() = default;
    int get() const
    {
        if (self != this) pbt::g_ctx->fail_hard("lifetime: an element object was relocated as raw bytes (not via its move/copy)");
        return v;
    }
    friend bool operator==(const TDtor& a, const TDtor& b) { return a.get() == b.get(); }
    friend std::strong_ordering operator<=>(const TDtor& a, const TDtor& b) { return a.get() <=> b.get(); }
};

// Trivially copyable, no default constructor, over-aligned, bigger than its value
struct alignas(32) Big
{
    void operator&() const = delete;
    int v;
    int pad[9];
    explicit constexpr Big(int k) : v(k), pad{k, ~k, k, ~k, k, ~k, k, ~k, k} {}
    int get() const
    {
        for (int i = 0; i < 9; i++)
        {
            if (pad[i] != ((i & 1) != 0 ? ~v : v)) pbt::g_ctx->fail("an element's bytes are torn");
        }
        if (reinterpret_cast<std::uintptr_t>(this) % 32 != 0) pbt::g_ctx->fail("an element is misaligned");
        return v;
    }
    friend bool operator==(const Big& a, const Big& b) { return a.get() == b.get(); }
    friend std::strong_ordering operator<=>(const Big& a, const Big& b) { return a.get() <=> b.get(); }
};

// Trivially copyable, operator& unusable
struct Amp
{
    short v;
    explicit constexpr Amp(int k = 0) : v(static_cast<short>(k)) {}
    void operator&() const = delete;
    friend bool operator==(const Amp& a, const Amp& b) { return a.v == b.v; }
    friend std::strong_ordering operator<=>(const Amp& a, const Amp& b) { return a.v <=> b.v; }
};

template <class T>
struct El;
template <>
struct El<int>
{
    static int make(int k) { return k; }
    static int key(const int& t) { return t; }
    static constexpr bool tracked = false, copyable = true, dflt = true;
    static constexpr int max_key = 1 << 28;
    static constexpr const char* name = "int";
};
template <>
struct El<unsigned char>
{
    static unsigned char make(int k) { return static_cast<unsigned char>(k); }
    static int key(const unsigned char& t) { return t; }
    static constexpr bool tracked = false, copyable = true, dflt = true;
    static constexpr int max_key = 250;
    static constexpr const char* name = "byte";
};
#define EL_STRUCT(TYPE, TRACKED, COPY, DFLT, MAXK, EXPR)                                       \
    template <>                                                                                \
    struct El<TYPE>                                                                            \
    {                                                                                          \
        static TYPE make(int k) { return TYPE(k); }                                            \
        static int key(const TYPE& t) { return EXPR; }                                         \
        static constexpr bool tracked = TRACKED, copyable = COPY, dflt = DFLT;                 \
        static constexpr int max_key = MAXK;                                                   \
        static constexpr const char* name = #TYPE;                                             \
    };
EL_STRUCT(Trk, true, true, true, 1 << 28, t.get())
EL_STRUCT(MOnly, true, false, false, 1 << 28, t.get())
EL_STRUCT(TDtor, false, true, true, 1 << 28, t.get())
EL_STRUCT(Big, false, true, false, 1 << 28, t.get())
EL_STRUCT(Amp, false, true, true, 30000, t.v)

// ---------------------------------------------------------------------------------------------------
// Iterators over an array of T of each category. InIt is strictly single-pass: all copies share one
// cursor, and reading through a stale copy is a harness-detected misuse.
template <class T>
struct InIt
{
    template <class U>
    void operator,(U&&) const = delete;
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    struct Shared
    {
        const T* data;
        std::size_t n;
        std::size_t pos;
    };
    Shared* s = nullptr;
    std::size_t at = 0;
    bool is_end = true;
    const T& operator*() const
    {
        if (is_end || s->pos >= s->n) pbt::g_ctx->fail("input iterator dereferenced at the end of the range");
        if (at != s->pos) pbt::g_ctx->fail("single-pass input iterator read after the range was advanced past it");
        return s->data[s->pos];
    }
    const T* operator->() const { return std::addressof(**this); }
    InIt& operator++()
    {
        if (is_end || s->pos >= s->n) pbt::g_ctx->fail("input iterator advanced past the end of the range");
        if (at != s->pos) pbt::g_ctx->fail("single-pass input iterator advanced through a stale copy");
        ++s->pos;
        ++at;
        return *this;
    }
    void operator++(int) { ++*this; }
    friend bool operator==(const InIt& a, const InIt& b)
    {
        const bool ae = a.is_end || a.s->pos >= a.s->n;
        const bool be = b.is_end || b.s->pos >= b.s->n;
        return ae == be;
    }
};
// forward iterator
template <class T>
struct FwIt
{
    template <class U>
    void operator,(U&&) const = delete;
    using iterator_category = std::forward_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    const T* p = nullptr;
    const T& operator*() const { return *p; }
    const T* operator->() const { return p; }
    FwIt& operator++()
    {
        ++p;
        return *this;
    }
    FwIt operator++(int)
    {
        FwIt t = *this;
        ++p;
        return t;
    }
    friend bool operator==(const FwIt& a, const FwIt& b) { return a.p == b.p; }
};
}  // namespace el

template <>
struct std::hash<el::Trk>
{
    std::size_t operator()(const el::Trk& t) const { return static_cast<std::size_t>(t.get()); }
};
