// Generic property modes over any driver D (see driver_*.hpp):
//   D::C container type, D::M model, D::construct / mutate / check / live / begin_case.
#pragma once
#include "elements.hpp"

#include <cstdlib>
#include <vector>
#include <new>

namespace mode
{
using pbt::Ctx;

// Exactly-sized, correctly aligned heap block, pre-filled with garbage.
template <class C>
struct Block
{
    void* mem = nullptr;
    explicit Block(Ctx& c)
    {
        mem = ::operator new(sizeof(C), std::align_val_t(alignof(C)));
        static constexpr unsigned char pat[4] = {0xA5, 0xFF, 0x00, 0x01};
        std::memset(mem, pat[c.below(4)], sizeof(C));
    }
    Block(const Block&) = delete;
    ~Block()
    {
        if (mem != nullptr) ::operator delete(mem, std::align_val_t(alignof(C)));
    }
};

template <class D>
void check_live(Ctx& c, const typename D::M& m, std::size_t extra = 0)
{
    if constexpr (D::tracked)
    {
        const std::size_t want = D::live(m) + extra;
        CHECK(c, el::Registry::live == want, "lifetime: %zu elements are alive, the containers hold %zu", el::Registry::live, want);
    }
}

// Random history against the model, with copies/moves of the whole container mixed in.
template <class D, std::size_t MAXOPS>
void model_test(Ctx& c)
{
    using C = typename D::C;
    using M = typename D::M;
    el::Registry::reset();
    D::begin_case(c);
    M m;
    auto* blk = new Block<C>(c);
    // sometimes a second object goes through the same history (same storage state, other values), to be assigned or swapped
    const bool twins = c.chance(1, 8);
    std::size_t from = c.mark();
    C* x = D::construct(c, blk->mem, m);
    D::check(c, *x, m);
    check_live<D>(c, m);
    M m2;
    Block<C>* blk2 = nullptr;
    C* y = nullptr;
    if (twins)
    {
        NOTE(c, "a twin in lockstep:");
        c.label("twins in lockstep");
        blk2 = new Block<C>(c);
        const Ctx::Echo e(c, from);
        y = D::construct(c, blk2->mem, m2);
    }
    auto twin_live = [&] { return y != nullptr ? D::live(m2) : 0; };
    auto l = c.loop(MAXOPS);
    std::size_t n_ops = 0;
    while (c.more(l))
    {
        from = c.mark();
        D::mutate(c, *x, m);
        D::check(c, *x, m);
        check_live<D>(c, m, twin_live());
        ++n_ops;
        if (y != nullptr)
        {
            {
                NOTE(c, "the same on the twin:");
                const Ctx::Echo e(c, from);
                D::mutate(c, *y, m2);
            }
            D::check(c, *y, m2);
            const std::size_t how = c.chance(1, 8) ? 1 + c.below(3) : 0;
            if (how == 1)
            {
                if constexpr (D::copyable)
                {
                    NOTE(c, "twin = copy");
                    ON(*y = static_cast<const C&>(*x));
                    m2 = m;
                }
            }
            else if (how == 2)
            {
                NOTE(c, "swap with the twin");
                ON(std::swap(*x, *y));
                std::swap(m, m2);
            }
            else if (how == 3)
            {
                NOTE(c, "continue on the twin, move-assigned");
                ON(*y = std::move(*x));
                ON(x->~C());
                delete blk;
                blk = blk2;
                x = y;
                y = nullptr;
                blk2 = nullptr;
            }
            if (how != 0)
            {
                D::check(c, *x, m);
                if (y != nullptr) D::check(c, *y, m2);
                check_live<D>(c, m, twin_live());
            }
            continue;
        }
        if (c.chance(1, 24))
        {
            // continue the history on a copy or a moved-to object
            blk2 = new Block<C>(c);
            bool copied = false;
            if constexpr (D::copyable)
            {
                if (c.chance(1, 2))
                {
                    NOTE(c, "continue on a copy");
                    y = ON(new (blk2->mem) C(static_cast<const C&>(*x)));
                    copied = true;
                    D::check(c, *x, m);
                }
            }
            if (!copied)
            {
                NOTE(c, "continue on a moved-to object");
                y = ON(new (blk2->mem) C(std::move(*x)));
            }
            D::check(c, *y, m);
            ON(x->~C());
            delete blk;
            blk = blk2;
            x = y;
            y = nullptr;
            D::check(c, *x, m);
            check_live<D>(c, m);
        }
    }
    if (n_ops >= 4) c.nontrivial();
    if (y != nullptr)
    {
        ON(y->~C());
        delete blk2;
        D::check(c, *x, m);
    }
    ON(x->~C());
    delete blk;
    if constexpr (D::tracked)
    {
        CHECK(c, el::Registry::live == 0, "lifetime: %zu elements alive after destruction", el::Registry::live);
        CHECK(c, el::Registry::constructed == el::Registry::destroyed, "lifetime: %llu constructions but %llu destructions",
              static_cast<unsigned long long>(el::Registry::constructed), static_cast<unsigned long long>(el::Registry::destroyed));
    }
}

struct NoState
{
};
template <class D>
auto get_state()
{
    if constexpr (requires { D::get_state(); }) return D::get_state();
    else return NoState{};
}
template <class D, class S>
void set_state(const S& s)
{
    if constexpr (requires { D::set_state(s); }) D::set_state(s);
}

enum class Judge
{
    VALUE,    // contents of objects that were copied, moved, assigned or swapped
    LIFE,     // element lifetimes only
    NOALLOC,  // heap use only (hooks, see alloc.hpp) and element addresses
};

template <class D>
struct Slot
{
    using C = typename D::C;
    Block<C>* blk = nullptr;
    C* x = nullptr;
    typename D::M m{};
    decltype(get_state<D>()) st{};
    bool mixed = false;  // took part in a copy, move, assignment or swap
    void destroy()
    {
        ON(x->~C());
        delete blk;
        blk = nullptr;
        x = nullptr;
    }
    void fresh_block(Ctx& c) { blk = new Block<C>(c); }
    void construct(Ctx& c)
    {
        D::begin_case(c);
        st = get_state<D>();
        fresh_block(c);
        x = D::construct(c, blk->mem, m);
        mixed = false;
    }
};

// Several objects; random histories on each, mixed with copies, moves, assignments and swaps between them.
template <class D, std::size_t MAXOPS, Judge J>
void slots_test(Ctx& c)
{
    using C = typename D::C;
    el::Registry::reset();
    constexpr std::size_t NS = 3;
    Slot<D> s[NS];
    auto verify = [&](const char* what)
    {
        if (J == Judge::VALUE) NOTE(c, "  verify all objects");
        for (std::size_t i = 0; i < NS; i++)
        {
            set_state<D>(s[i].st);
            c.aside = J != Judge::VALUE || !s[i].mixed;
            D::check(c, *s[i].x, s[i].m);
            c.aside = false;
        }
        if constexpr (J == Judge::LIFE && D::tracked)
        {
            std::size_t want = 0;
            for (auto& q : s) want += D::live(q.m);
            CHECK_HARD(c, el::Registry::live == want, "lifetime: after %s %zu elements are alive, the containers hold %zu", what, el::Registry::live, want);
        }
        if constexpr (J == Judge::NOALLOC)
        {
            for (auto& q : s) D::check_addresses(c, *q.x);
        }
    };
    for (std::size_t i = 0; i < NS; i++)
    {
        NOTE(c, "object %zu:", i);
        c.aside = true;
        s[i].construct(c);
    }
    verify("construction");
    auto l = c.loop(MAXOPS);
    std::size_t n_ops = 0, n_whole = 0;
    while (c.more(l))
    {
        ++n_ops;
        const std::size_t i = c.below(NS);
        const std::size_t j = (i + 1 + c.below(NS - 1)) % NS;
        Slot<D>&a = s[i], &b = s[j];
        // what becomes of a moved-from object: it is destroyed or assigned to
        auto revive = [&](Slot<D>& q, std::size_t qi, Slot<D>& other)
        {
            std::size_t how = c.below(3);
            if (!D::copyable && how == 1) how = 0;
            if (how == 1)
            {
                if constexpr (D::copyable)
                {
                    NOTE(c, "moved-from object %zu = copy of the other", qi);
                    ON(*q.x = static_cast<const C&>(*other.x));
                    q.m = other.m;
                    q.st = other.st;
                    q.mixed = true;
                }
            }
            else if (how == 2)
            {
                NOTE(c, "moved-from object %zu = a new temporary:", qi);
                Slot<D> t;
                c.aside = true;
                t.construct(c);
                c.aside = false;
                ON(*q.x = std::move(*t.x));
                q.m = t.m;
                q.st = t.st;
                q.mixed = true;
                t.destroy();
            }
            else
            {
                NOTE(c, "moved-from object %zu is destroyed and made anew:", qi);
                q.destroy();
                c.aside = true;
                q.construct(c);
                c.aside = false;
            }
        };
        const bool twins = c.chance(1, 20);
        if (twins)
        {
            NOTE(c, "objects %zu and %zu are made anew, in lockstep:", i, j);
            c.label("twins in lockstep");
            c.aside = true;
            a.destroy();
            b.destroy();
            a.m = {};
            b.m = {};
            const std::size_t from = c.mark();
            a.construct(c);
            auto k = c.loop(12);
            while (c.more(k)) D::mutate(c, *a.x, a.m);
            {
                const Ctx::Echo e(c, from);
                b.construct(c);
                auto k2 = c.loop(12);
                while (c.more(k2)) D::mutate(c, *b.x, b.m);
            }
            c.aside = false;
        }
        const std::size_t op = c.weighted({twins ? 0u : 14u, D::copyable ? 2u : 0u, 2, D::copyable ? 3u : 0u, 3, 2, 2, 1, 1});
        if (op != 0) ++n_whole;
        switch (op)
        {
        case 0:
        {
            NOTE(c, "object %zu:", i);
            set_state<D>(a.st);
            c.aside = J != Judge::VALUE || !a.mixed;
            D::mutate(c, *a.x, a.m);
            c.aside = false;
            break;
        }
        case 1:
            if constexpr (D::copyable)
            {
                NOTE(c, "object %zu is destroyed; copy-constructed from %zu", i, j);
                c.label("copy construction");
                a.destroy();
                a.fresh_block(c);
                a.x = ON(new (a.blk->mem) C(static_cast<const C&>(*b.x)));
                a.m = b.m;
                a.st = b.st;
                a.mixed = b.mixed = true;
            }
            break;
        case 2:
            NOTE(c, "object %zu is destroyed; move-constructed from %zu", i, j);
            c.label("move construction");
            a.destroy();
            a.fresh_block(c);
            a.x = ON(new (a.blk->mem) C(std::move(*b.x)));
            a.m = b.m;
            a.st = b.st;
            a.mixed = true;
            revive(b, j, a);
            break;
        case 3:
            if constexpr (D::copyable)
            {
                NOTE(c, "object %zu = copy of %zu", i, j);
                c.label("copy assignment");
                C& r = ON(*a.x = static_cast<const C&>(*b.x));
                CHECK(c, std::addressof(r) == a.x, "copy assignment does not return *this");
                a.m = b.m;
                a.st = b.st;
                a.mixed = b.mixed = true;
            }
            break;
        case 4:
        {
            NOTE(c, "object %zu = move of %zu", i, j);
            c.label("move assignment");
            C& r = ON(*a.x = std::move(*b.x));
            CHECK(c, std::addressof(r) == a.x, "move assignment does not return *this");
            a.m = b.m;
            a.st = b.st;
            a.mixed = true;
            revive(b, j, a);
            break;
        }
        case 5:
        case 6:
            c.label("swap");
            if constexpr (requires { a.x->swap(*b.x); })
            {
                if (op == 5)
                {
                    NOTE(c, "object %zu .swap(%zu)", i, j);
                    ON(a.x->swap(*b.x));
                }
                else
                {
                    NOTE(c, "swap(%zu, %zu)", i, j);
                    using std::swap;
                    ON(swap(*a.x, *b.x));
                }
            }
            else
            {
                NOTE(c, "swap(%zu, %zu)", i, j);
                using std::swap;
                ON(swap(*a.x, *b.x));
            }
            std::swap(a.m, b.m);
            std::swap(a.st, b.st);
            a.mixed = b.mixed = true;
            break;
        case 7:
            if (!D::copyable || c.chance(1, 3))
            {
                NOTE(c, "swap(%zu, %zu)", i, i);
                c.label("swap with itself");
                using std::swap;
                ON(swap(*a.x, *a.x));
                a.mixed = true;
                break;
            }
            if constexpr (D::copyable)
            {
                NOTE(c, "object %zu = itself", i);
                c.label("self assignment");
                const C& self = *a.x;
                ON(*a.x = self);
                a.mixed = true;
            }
            break;
        default:
            NOTE(c, "object %zu is destroyed and made anew:", i);
            a.destroy();
            c.aside = true;
            a.construct(c);
            c.aside = false;
            break;
        }
        verify("an operation");
    }
    if (n_ops >= 4 && n_whole >= 1) c.nontrivial();
    for (auto& q : s) q.destroy();
    if constexpr (D::tracked && J == Judge::LIFE)
    {
        CHECK_HARD(c, el::Registry::live == 0, "lifetime: %zu elements alive after all containers were destroyed", el::Registry::live);
        CHECK_HARD(c, el::Registry::constructed == el::Registry::destroyed, "lifetime: %llu constructions but %llu destructions",
                   static_cast<unsigned long long>(el::Registry::constructed), static_cast<unsigned long long>(el::Registry::destroyed));
    }
}

// Trivially copyable contents: byte copies of the object are objects with the same contents.
template <class D, std::size_t MAXOPS>
void bytes_test(Ctx& c)
{
    using C = typename D::C;
    static_assert(std::is_trivially_copyable_v<C>);
    el::Registry::reset();
    struct Image
    {
        std::vector<unsigned char> bytes;
        typename D::M m;
        decltype(get_state<D>()) st;
    };
    Slot<D> a;
    c.aside = true;
    a.construct(c);
    D::check(c, *a.x, a.m);
    c.aside = false;
    std::vector<Image> images;
    auto l = c.loop(MAXOPS);
    std::size_t n_ops = 0, n_reloc = 0;
    auto relocate = [&]
    {
        // to another address; the original's bytes are overwritten and freed
        auto* nb = new Block<C>(c);
        std::memcpy(nb->mem, static_cast<void*>(a.x), sizeof(C));
        std::memset(static_cast<void*>(a.x), static_cast<int>(c.below(2)) * 0x5A, sizeof(C));
        delete a.blk;
        a.blk = nb;
        a.x = static_cast<C*>(nb->mem);
        a.mixed = true;
        ++n_reloc;
    };
    auto look = [&]
    {
        set_state<D>(a.st);
        c.aside = !a.mixed;
        D::check(c, *a.x, a.m);
        c.aside = false;
    };
    while (c.more(l))
    {
        ++n_ops;
        switch (c.weighted({12, 3, 2, 2}))
        {
        case 0:
            set_state<D>(a.st);
            c.aside = !a.mixed;
            D::mutate(c, *a.x, a.m);
            c.aside = false;
            break;
        case 1:
            NOTE(c, "bytes copied to another address");
            relocate();
            break;
        case 2:
        {
            NOTE(c, "bytes saved as image %zu", images.size());
            const auto* p = reinterpret_cast<const unsigned char*>(a.x);
            images.push_back({std::vector<unsigned char>(p, p + sizeof(C)), a.m, a.st});
            break;
        }
        default:
            if (!images.empty())
            {
                const std::size_t k = c.below(images.size());
                NOTE(c, "bytes of image %zu restored", k);
                c.label("restore");
                if (c.chance(1, 2)) relocate();
                std::memcpy(static_cast<void*>(a.x), images[k].bytes.data(), sizeof(C));
                a.m = images[k].m;
                a.st = images[k].st;
                a.mixed = true;
                ++n_reloc;
            }
            break;
        }
        look();
    }
    if (n_ops >= 4 && n_reloc >= 1) c.nontrivial();
    a.destroy();
}
}  // namespace mode
