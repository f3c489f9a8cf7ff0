// Reading writes nothing, and distinct containers share nothing.
//  - the container lies in pages of its own; while it is being read they are read-only;
//  - two threads read it at the same time (whole observable state compared with the model), under the thread sanitizer;
//  - two threads write to different elements of it at the same time;
//  - two threads run histories on containers of their own at the same time.
#pragma once
#include "modes.hpp"

#include <sys/mman.h>
#include <thread>

namespace mode
{
struct Pages
{
    void* mem = nullptr;
    std::size_t n = 0;
    explicit Pages(std::size_t bytes)
    {
        n = (bytes + 4095) / 4096 * 4096;
        mem = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (mem == MAP_FAILED) std::abort();
    }
    void lock() { mprotect(mem, n, PROT_READ); }
    void unlock() { mprotect(mem, n, PROT_READ | PROT_WRITE); }
    ~Pages() { munmap(mem, n); }
};

template <class D>
int get_domain()
{
    if constexpr (requires { D::domain; }) return D::domain;
    else return 0;
}
template <class D>
void set_domain(int d)
{
    if constexpr (requires { D::domain; }) D::domain = d;
}

// write the value an element already has, through the reference its container gives
template <class R>
void touch(R&& r)
{
    if constexpr (requires { r.first; r.second; })
    {
        using V = std::remove_cvref_t<decltype(r.second)>;
        if constexpr (std::is_copy_constructible_v<V> && requires(V v) { r.second = std::move(v); })
        {
            V v(static_cast<const V&>(r.second));
            r.second = std::move(v);
        }
    }
    else
    {
        using T = std::remove_cvref_t<R>;
        if constexpr (std::is_copy_constructible_v<T> && requires(T t) { r = std::move(t); })
        {
            T t(static_cast<const T&>(r));
            r = std::move(t);
        }
    }
}
// each of two threads writes to elements of its own
template <class C>
void write_apart(C& x, std::size_t who)
{
    std::size_t i = 0;
    if constexpr (requires { x.begin(); x.end(); })
    {
        for (auto it = x.begin(); it != x.end(); ++it, ++i)
        {
            if (i % 2 == who) touch(*it);
        }
    }
    if constexpr (requires { x[std::size_t{0}]; x.push_back(x[std::size_t{0}]); })
    {
        for (i = who; i < x.size(); i += 2) touch(x[i]);
        for (i = who; i < x.size(); i += 2) touch(x.at(i));
    }
    if constexpr (requires { x.front(); x.back(); })
    {
        if (x.size() > 1 && x.size() % 2 == 0) touch(who == 0 ? x.front() : x.back());
    }
}

template <class D, std::size_t MAXOPS>
void threads_test(Ctx& c)
{
    using C = typename D::C;
    el::Registry::reset();
    typename D::M m;
    std::size_t n_ops = 0, n_par = 0;
    {
        Pages pages(sizeof(C));
        static constexpr unsigned char pat[4] = {0x00, 0xA5, 0xFF, 0x01};
        std::memset(pages.mem, pat[c.below(4)], sizeof(C));
        c.aside = true;  // single-threaded behaviour is not the subject here
        D::begin_case(c);
        C* x = D::construct(c, pages.mem, m);
        auto l = c.loop(MAXOPS / 2);
        while (c.more(l))
        {
            ++n_ops;
            c.aside = true;
            D::mutate(c, *x, m);
            D::check(c, *x, m);
            c.aside = false;
            if (c.chance(1, 3))
            {
                NOTE(c, "read while read-only");
                pages.lock();
                D::check(c, *x, m);
                pages.unlock();
            }
            if (c.chance(1, 8))
            {
                NOTE(c, "two threads read the container at the same time");
                c.label("concurrent reading");
                ++n_par;
                const auto st = get_state<D>();
                const int dom = get_domain<D>();
                Ctx s0 = c.sub(0, c.below(1ull << 32));
                Ctx s1 = c.sub(1, c.below(1ull << 32));
                auto read = [&](Ctx& s)
                {
                    set_domain<D>(dom);
                    set_state<D>(st);
                    D::check(s, *x, m);
                };
                const bool locked = c.chance(1, 2);
                if (locked) pages.lock();
                std::thread t0([&] { read(s0); });
                std::thread t1([&] { read(s1); });
                t0.join();
                t1.join();
                if (locked) pages.unlock();
            }
            if (c.chance(1, 12))
            {
                NOTE(c, "two threads write to different elements at the same time");
                c.label("concurrent writing of distinct elements");
                ++n_par;
                std::thread t0([&] { write_apart(*x, 0); });
                std::thread t1([&] { write_apart(*x, 1); });
                t0.join();
                t1.join();
                D::check(c, *x, m);
            }
        }
        c.aside = false;
        x->~C();
    }
    if (c.chance(1, 6))
    {
        NOTE(c, "two threads use containers of their own at the same time");
        c.label("containers of different threads");
        ++n_par;
        const std::uint64_t e0 = c.below(1ull << 32), e1 = c.below(1ull << 32);
        // first one after the other: what already fails so is not the subject here
        {
            Ctx a = c.sub(0, e0);
            a.aside = true;
            model_test<D, MAXOPS / 2>(a);
            Ctx b = c.sub(1, e1);
            b.aside = true;
            model_test<D, MAXOPS / 2>(b);
        }
        Ctx s0 = c.sub(0, e0);
        Ctx s1 = c.sub(1, e1);
        std::thread t0([&] { model_test<D, MAXOPS / 2>(s0); });
        std::thread t1([&] { model_test<D, MAXOPS / 2>(s1); });
        t0.join();
        t1.join();
    }
    if (n_ops >= 4 && n_par >= 1) c.nontrivial();
}
}  // namespace mode
