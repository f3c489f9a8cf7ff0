// C15: which calls are reported, and as what. -DPART=0..9; odd parts: the default policies (abort, in a forked child)
#include "../policy.hpp"
#include "configs.hpp"

#include "fixed_containers/enum_map.hpp"
#include "fixed_containers/fixed_circular_deque.hpp"
#include "fixed_containers/fixed_circular_queue.hpp"
#include "fixed_containers/fixed_deque.hpp"
#include "fixed_containers/fixed_list.hpp"
#include "fixed_containers/fixed_map.hpp"
#include "fixed_containers/fixed_queue.hpp"
#include "fixed_containers/fixed_set.hpp"
#include "fixed_containers/fixed_stack.hpp"
#include "fixed_containers/fixed_string.hpp"
#include "fixed_containers/fixed_unordered_map.hpp"
#include "fixed_containers/fixed_unordered_set.hpp"
#include "fixed_containers/fixed_vector.hpp"
#include "fixed_containers/optional_reference.hpp"

#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <sstream>

namespace fc = fixed_containers;
using namespace pol;
static const bool g_here = (State::call_file = __FILE__, true);
#define D DEFAULT_POLICY
static volatile long long g_sink;
template <class T>
int K(const T& t)
{
    return el::El<T>::key(t);
}
static int touch(const int& t) { return t; }
static int touch(const Trk& t) { return t.get(); }
static int touch(const char& t) { return t; }
static int touch(const Big& t) { return t.get(); }

enum Fam
{
    VEC,
    DEQ,
    CIRC,
    LIST,
    STR,
};
// f(initializer_list of g(0) .. g(n - 1)), n <= 9
template <class T, class G, class F>
void with_ilist(std::size_t n, G g, F f)
{
    switch (n)
    {
    case 0: f(std::initializer_list<T>{}); break;
    case 1: f(std::initializer_list<T>{g(0)}); break;
    case 2: f(std::initializer_list<T>{g(0), g(1)}); break;
    case 3: f(std::initializer_list<T>{g(0), g(1), g(2)}); break;
    case 4: f(std::initializer_list<T>{g(0), g(1), g(2), g(3)}); break;
    case 5: f(std::initializer_list<T>{g(0), g(1), g(2), g(3), g(4)}); break;
    case 6: f(std::initializer_list<T>{g(0), g(1), g(2), g(3), g(4), g(5)}); break;
    case 7: f(std::initializer_list<T>{g(0), g(1), g(2), g(3), g(4), g(5), g(6)}); break;
    case 8: f(std::initializer_list<T>{g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7)}); break;
    default: f(std::initializer_list<T>{g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8)}); break;
    }
}

// ------------------------------------------------------------------------------------------------ sequences
template <class C, class T, Fam F, bool DEFAULT_POLICY, std::size_t CAP>
void seq_test(Ctx& c)
{
    el::Registry::reset();
    constexpr std::size_t cap = CAP;
    constexpr bool STRING = F == STR;
    auto mk = [](int k) -> T { return T(k); };
    int counter = 0;
    auto fresh = [&]() { return STRING ? 'a' + counter++ % 26 : ++counter; };
    Obj<C> o(c);
    std::vector<int> m;
    C* x = new (o.mem) C();
    std::size_t asked = 0;  // the size a call would need
    auto fits = [&](std::size_t total)
    {
        asked = total;
        return F == CIRC || total <= cap ? NONE : LENGTH;
    };
    auto cit = [&](std::size_t i) { return std::next(x->cbegin(), static_cast<std::ptrdiff_t>(i)); };
    auto l = c.loop(40);
    while (c.more(l))
    {
        const std::size_t n = m.size();
        const bool full = n == cap;
        // after a refused call the case goes on with the contents of before (trivially copyable) or ends
        auto run = [&](Kind want, const char* what, auto f) -> bool
        {
            NOTE(c, "%s (size %zu of %zu): expect %s", what, n, cap, kind_name(want));
            std::vector<unsigned char> image;
            if (want != NONE && !std::is_same_v<T, Trk>)
            {
                const auto* p = static_cast<const unsigned char*>(o.mem);
                image.assign(p, p + sizeof(C));
            }
            State::target = 0;
            const bool done = judge<D>(c, want, what, f);
            if (!D && !STRING && want == LENGTH)
                CHECK(c, State::target == asked, "%s needs room for %zu, reported as %zu", what, asked, State::target);
            if (!done && !image.empty()) std::memcpy(o.mem, image.data(), sizeof(C));
            return done;
        };
        bool stop = false;  // the object is unusable (a call on elements with lifetimes was refused half way)
        auto mut = [&](Kind want, const char* what, auto f, auto model)
        {
            if (run(want, what, f)) model();
            else if (std::is_same_v<T, Trk> && !D && want != DIES) stop = true;
        };
        const std::size_t op = c.below(19);
        if (op == 0 || op == 1)
        {
            const int k = fresh();
            const std::size_t how = c.below(STRING ? 1 : 3);
            mut(fits(n + 1), "push_back", [&]
                {
                    if constexpr (STRING) x->push_back(static_cast<char>(k));
                    else
                    {
                        const T v = mk(k);
                        if (how == 0) x->push_back(v);
                        else if (how == 1) x->push_back(mk(k));
                        else State::anywhere = true, x->emplace_back(k);
                    }
                },
                [&] {
                    if (F == CIRC && full) m.erase(m.begin());
                    m.push_back(k);
                });
        }
        else if (op == 2)
        {
            if constexpr (F != VEC && F != STR)
            {
                const int k = fresh();
                const std::size_t how = c.below(3);
                mut(fits(n + 1), "push_front", [&]
                    {
                        const T v = mk(k);
                        if (how == 0) x->push_front(v);
                        else if (how == 1) x->push_front(mk(k));
                        else State::anywhere = true, x->emplace_front(k);
                    },
                    [&] {
                        if (F == CIRC && full) m.pop_back();
                        m.insert(m.begin(), k);
                    });
            }
        }
        else if (op == 3)
        {
            mut(n == 0 ? EMPTY : NONE, "pop_back", [&] { x->pop_back(); }, [&] { m.pop_back(); });
        }
        else if (op == 4)
        {
            if constexpr (F != VEC && F != STR)
            {
                mut(n == 0 ? EMPTY : NONE, "pop_front", [&] { x->pop_front(); }, [&] { m.erase(m.begin()); });
            }
        }
        else if (op == 5)
        {
            const C& cx = *x;
            const std::size_t w = c.below(4);
            static const char* nm[] = {"front()", "back()", "front() const", "back() const"};
            run(n == 0 ? EMPTY : NONE, nm[w], [&]
                {
                    int r = 0;
                    if (w == 0) r = touch(x->front());
                    else if (w == 1) r = touch(x->back());
                    else if (w == 2) r = touch(cx.front());
                    else r = touch(cx.back());
                    g_sink = r;
                });
        }
        else if (op == 6 || op == 7)
        {
            if constexpr (F != LIST)
            {
                const C& cx = *x;
                const std::size_t i = number(c, n, cap);
                const std::size_t w = c.below(4);
                NOTE(c, "index %zu:", i);
                static const char* nm[] = {"at", "[]", "at const", "[] const"};
                const bool ok = run(i < n ? NONE : OUT_OF_RANGE, nm[w], [&]
                                    {
                                        int r = 0;
                                        if (w == 0) r = touch(x->at(i));
                                        else if (w == 1) r = touch((*x)[i]);
                                        else if (w == 2) r = touch(cx.at(i));
                                        else r = touch(cx[i]);
                                        g_sink = r;
                                    });
                if (!ok && !D)
                {
                    CHECK(c, static_cast<std::size_t>(State::index) == i && State::size == n,
                          "%s(%zu) with size %zu was reported as index %lld, size %zu", nm[w], i, n, State::index, State::size);
                }
            }
        }
        else if (op == 8)
        {
            const std::size_t p = c.edge(n);
            const int k = fresh();
            const std::size_t how = c.below(STRING ? 1 : 3);
            if (F == CIRC && full && !(p == n)) continue;  // covered by C03
            mut(fits(n + 1), "insert", [&]
                {
                    if constexpr (STRING) x->insert(cit(p), static_cast<char>(k));
                    else
                    {
                        const T v = mk(k);
                        if (how == 0) x->insert(cit(p), v);
                        else if (how == 1) x->insert(cit(p), mk(k));
                        else State::anywhere = true, x->emplace(cit(p), k);
                    }
                },
                [&] {
                    std::size_t q = p;
                    if (F == CIRC && full)
                    {
                        m.erase(m.begin());
                        q = p - 1;
                    }
                    m.insert(m.begin() + static_cast<std::ptrdiff_t>(q), k);
                });
        }
        else if (op <= 11)
        {
            // range insertion, range assignment and append
            const bool assign = op == 10;
            const bool append = STRING && op == 11;
            const std::size_t p = append ? n : c.edge(n);
            std::size_t cnt = 0;
            switch (c.below(4))
            {
            case 0: cnt = c.below(cap + 4); break;
            case 1: cnt = cap - n; break;
            case 2: cnt = cap - n + 1; break;
            default: cnt = cap + c.below(3); break;
            }
            const std::size_t total = assign ? cnt : n + cnt;
            if (F == CIRC && total > cap) continue;  // C03
            std::size_t how = c.below(5);
            if (how == 4 && cnt > 8) how = 0;
            std::vector<int> ks;
            for (std::size_t i = 0; i < cnt; i++) ks.push_back(fresh());
            std::vector<T> vs;
            for (int k : ks) vs.push_back(mk(k));
            static const char* nm[] = {"forward range", "input range", "random access range", "string_view/pointer range", "initializer_list"};
            NOTE(c, "%s of %zu by %s:", assign ? "assign" : append ? "append" : "insert", cnt, nm[how]);
            typename el::InIt<T>::Shared in{vs.data(), vs.size(), 0};
            auto ranged = [&](auto f)
            {
                if (how == 0) f(el::FwIt<T>{vs.data()}, el::FwIt<T>{vs.data() + cnt});
                else if (how == 1) f(el::InIt<T>{&in, 0, false}, el::InIt<T>{&in, 0, true});
                else if (how == 2) f(vs.begin(), vs.end());
                else f(static_cast<const T*>(vs.data()), static_cast<const T*>(vs.data() + cnt));
            };
            mut(fits(total), assign ? "assign(range)" : append ? "append" : "insert(range)", [&]
                {
                    if (how == 4)
                    {
                                          auto call = [&](std::initializer_list<T> t)
                                          {
                                              if (assign) x->assign(t);
                                              else if constexpr (STRING)
                                              {
                                                  if (append) x->append(t);
                                                  else x->insert(cit(p), t);
                                              }
                                              else x->insert(cit(p), t);
                                          };
                                          auto g = [&](std::size_t i) { return mk(ks[i]); };
                                          switch (cnt)
                                          {
                                          case 0: call({}); break;
                                          case 1: call({g(0)}); break;
                                          case 2: call({g(0), g(1)}); break;
                                          case 3: call({g(0), g(1), g(2)}); break;
                                          case 4: call({g(0), g(1), g(2), g(3)}); break;
                                          case 5: call({g(0), g(1), g(2), g(3), g(4)}); break;
                                          case 6: call({g(0), g(1), g(2), g(3), g(4), g(5)}); break;
                                          case 7: call({g(0), g(1), g(2), g(3), g(4), g(5), g(6)}); break;
                                          default: call({g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7)}); break;
                                          }
                        return;
                    }
                    if constexpr (STRING)
                    {
                        if (how == 3)
                        {
                            const std::string_view sv(vs.data(), vs.size());
                            if (assign) x->assign(sv);
                            else if (append)
                            {
                                if (p % 2 == 0) x->append(sv);
                                else State::anywhere = true, *x += sv;
                            }
                            else x->insert(cit(p), sv);
                            return;
                        }
                    }
                    ranged([&](auto a, auto b)
                           {
                               if (assign) x->assign(a, b);
                               else if constexpr (STRING)
                               {
                                   if (append) x->append(a, b);
                                   else x->insert(cit(p), a, b);
                               }
                               else x->insert(cit(p), a, b);
                           });
                },
                [&] {
                    if (assign) m = ks;
                    else m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), ks.begin(), ks.end());
                });
        }
        else if (op == 12)
        {
            const std::size_t t = number(c, n, cap);
            const int k = fresh();
            const bool dflt = std::is_default_constructible_v<T> && c.chance(1, 2);
            NOTE(c, "resize to %zu:", t);
            asked = t;
            mut(t <= cap ? NONE : LENGTH, "resize", [&]
                {
                    if constexpr (std::is_default_constructible_v<T>)
                    {
                        if (dflt)
                        {
                            x->resize(t);
                            return;
                        }
                    }
                    x->resize(t, mk(k));
                },
                [&] { m.resize(t, dflt ? 0 : k); });
        }
        else if (op == 13)
        {
            const std::size_t t = number(c, n, cap);
            const int k = fresh();
            if (F == CIRC && t > cap) continue;
            NOTE(c, "assign %zu copies:", t);
            mut(fits(t), "assign(count)", [&] { x->assign(t, mk(k)); }, [&] { m.assign(t, k); });
        }
        else if (op == 14)
        {
            if constexpr (F == VEC || F == STR)
            {
                const std::size_t t = number(c, n, cap);
                NOTE(c, "reserve %zu:", t);
                asked = t;
                mut(t <= cap ? NONE : LENGTH, "reserve", [&] { x->reserve(t); }, [] {});
            }
        }
        else if (op == 15)
        {
            const std::size_t p = c.edge(n);
            if (cap == 0) continue;  // there is no position
            NOTE(c, "erase position %zu:", p);
            mut(p == n ? INVALID : NONE, "erase(pos)", [&] { x->erase(cit(p)); },
                [&] { m.erase(m.begin() + static_cast<std::ptrdiff_t>(p)); });
        }
        else if (op == 16)
        {
            if constexpr (F == LIST)
            {
                std::size_t a = c.edge(n), b = c.edge(n);
                if (a > b) std::swap(a, b);
                mut(NONE, "erase(range)", [&] { x->erase(cit(a), cit(b)); },
                    [&] { m.erase(m.begin() + static_cast<std::ptrdiff_t>(a), m.begin() + static_cast<std::ptrdiff_t>(b)); });
            }
            else
            {
                const std::size_t a = c.edge(n), b = c.edge(n);
                NOTE(c, "erase [%zu, %zu):", a, b);
                mut(a > b ? INVALID : NONE, "erase(range)", [&] { x->erase(cit(a), cit(b)); },
                    [&] { m.erase(m.begin() + static_cast<std::ptrdiff_t>(a), m.begin() + static_cast<std::ptrdiff_t>(b)); });
            }
        }
        else if (op == 17)
        {
            // constructors
            std::size_t t = number(c, n, cap);
            std::size_t how = c.below(5);
            if (how >= 2 && t > cap + 300) t = cap + c.below(3);
            if (how == 4 && t > 9) how = 2;
            if (F == CIRC && t > cap) continue;
            std::vector<T> vs;
            if (how >= 2)
            {
                for (std::size_t i = 0; i < t; i++) vs.push_back(mk(fresh()));
            }
            NOTE(c, "constructor of %zu elements:", t);
            Obj<C> o2(c);
            typename el::InIt<T>::Shared in{vs.data(), vs.size(), 0};
            const bool ok = judge<D>(c, fits(t), how == 0 ? "count constructor" : how == 1 ? "count/value constructor" : how == 2 ? "range constructor" : how == 3 ? "input range constructor" : "list constructor", [&]
                                     {
                                         if (how == 4)
                                         {
                                             with_ilist<T>(t, [&](std::size_t i) { return vs[i]; }, [&](std::initializer_list<T> il) { new (o2.mem) C(il); });
                                             return;
                                         }
                                         if constexpr (STRING)
                                         {
                                             if (how < 2) new (o2.mem) C(t, 'x');
                                             else new (o2.mem) C(std::string_view(vs.data(), vs.size()));
                                         }
                                         else
                                         {
                                             if (how == 0)
                                             {
                                                 if constexpr (std::is_default_constructible_v<T>) new (o2.mem) C(t);
                                                 else new (o2.mem) C(t, mk(7));
                                             }
                                             else if (how == 1) new (o2.mem) C(t, mk(7));
                                             else if (how == 2) new (o2.mem) C(vs.begin(), vs.end());
                                             else new (o2.mem) C(el::InIt<T>{&in, 0, false}, el::InIt<T>{&in, 0, true});
                                         }
                                     });
            if (!ok && !D && !STRING) CHECK(c, State::target == t, "a constructor that needs room for %zu reported %zu", t, State::target);
            if (ok)
            {
                CHECK(c, static_cast<C*>(o2.mem)->size() == t, "the constructed container has size %zu, expected %zu", static_cast<C*>(o2.mem)->size(), t);
                static_cast<C*>(o2.mem)->~C();
            }
        }
        else
        {
            if constexpr (STRING)
            {
                const std::size_t pos = number(c, n, cap), len = number(c, n, cap);
                const std::size_t w = c.below(3);
                if (w == 0)
                {
                    NOTE(c, "substr from %zu:", pos);
                    run(pos <= n ? NONE : OUT_OF_RANGE, "substr", [&] { g_sink = static_cast<long long>(x->substr(pos, len).size()); });
                }
                else if (w == 1)
                {
                    const std::size_t t = c.below(cap + 3);
                    std::istringstream is(std::string(t, 'q') + (c.chance(1, 2) ? " r" : ""));
                    if (t == 0) continue;
                    NOTE(c, "extract a word of %zu:", t);
                    mut(t <= cap ? NONE : LENGTH, "operator>>", [&] { is >> *x; }, [&] { m.assign(t, 'q'); });
                }
                else
                {
                    const int k = fresh();
                    mut(n < cap ? NONE : LENGTH, "+= char", [&] { *x += static_cast<char>(k); }, [&] { m.push_back(k); });
                }
            }
            else if (c.chance(1, 4)) mut(NONE, "clear", [&] { x->clear(); }, [&] { m.clear(); });
        }
        if (stop) return;
        c.aside = true;  // contents are the subject of other checks
        CHECK(c, x->size() == m.size(), "size %zu, model %zu", x->size(), m.size());
        std::size_t i = 0;
        for (const auto& e : *x)
        {
            CHECK(c, touch(e) == m[i], "element %zu", i);
            ++i;
        }
        c.aside = false;
    }
    x->~C();
}

// ------------------------------------------------------------------------------------------------ maps
enum MFam
{
    MAP,
    UMAP,
    EMAP,
};
template <class C, MFam F, bool DEFAULT_POLICY, std::size_t CAP, class KeyOf>
void map_test(Ctx& c)
{
    using Key = typename C::key_type;
    constexpr std::size_t cap = CAP;
    const std::size_t universe = F == EMAP ? CAP : CAP * 2 + 3;
    auto key = [](std::size_t i) { return KeyOf::make(i); };
    std::map<std::size_t, int> m;
    Obj<C> o(c);
    C* x = new (o.mem) C();
    auto l = c.loop(50);
    while (c.more(l))
    {
        const std::size_t n = m.size();
        const std::size_t ki = c.below(universe);
        const Key k = key(ki);
        const int v = static_cast<int>(c.below(1000));
        const bool has = m.count(ki) != 0;
        const Kind add = has || n < cap ? NONE : LENGTH;
        std::vector<unsigned char> image(static_cast<unsigned char*>(o.mem), static_cast<unsigned char*>(o.mem) + sizeof(C));
        auto run = [&](Kind want, const char* what, auto f) -> bool
        {
            NOTE(c, "%s key %zu (%s, size %zu of %zu): expect %s", what, ki, has ? "present" : "absent", n, cap, kind_name(want));
            const bool done = judge<D>(c, want, what, f);
            // an insertion of one element needs room for one more than there is; several may be refused as a whole
            if (!D && want == LENGTH)
                CHECK(c, std::strstr(what, "range") != nullptr || std::strstr(what, "list") != nullptr ? State::target > cap : State::target == cap + 1,
                      "%s: length_error reports %zu, capacity %zu", what, State::target, cap);
            if (!done) std::memcpy(o.mem, image.data(), sizeof(C));
            return done;
        };
        auto val = [&]() -> typename C::value_type { return {k, v}; };
        switch (c.below(16))
        {
        case 0:
        case 1:
        {
            const C& cx = *x;
            const bool con = c.chance(1, 2);
            const bool ok = run(has ? NONE : OUT_OF_RANGE, con ? "at const" : "at", [&] { g_sink = con ? cx.at(k) : x->at(k); });
            if (!ok && !D)
            {
                CHECK(c, State::size == n, "at reported size %zu, expected %zu", State::size, n);
                if constexpr (std::is_convertible_v<Key, long long>)
                    CHECK(c, State::index == static_cast<long long>(k), "at reported key %lld", State::index);
            }
            break;
        }
        case 2:
            if (run(add, "operator[]", [&] { (*x)[k] = v; })) m[ki] = v;
            break;
        case 3:
            if (run(add, "operator[](&&)", [&] {
                    Key kk = k;
                    (*x)[std::move(kk)] = v;
                }))
                m[ki] = v;
            break;
        case 4:
        {
            const auto p = val();
            if (run(add, "insert(const&)", [&] { x->insert(p); })) m.emplace(ki, v);
            break;
        }
        case 5:
            if (run(add, "insert(&&)", [&] { x->insert(val()); })) m.emplace(ki, v);
            break;
        case 6:
            {
                const bool hint = c.chance(1, 2);
                if (run(add, hint ? "insert_or_assign(hint)" : "insert_or_assign", [&] {
                        if (hint) x->insert_or_assign(x->cbegin(), k, v);
                        else x->insert_or_assign(k, v);
                    }))
                    m[ki] = v;
            }
            break;
        case 7:
            if (run(add, "insert_or_assign(&&)", [&] {
                    Key kk = k;
                    x->insert_or_assign(std::move(kk), v);
                }))
                m[ki] = v;
            break;
        case 8:
            if (run(add, "try_emplace", [&] { x->try_emplace(k, v); })) m.emplace(ki, v);
            break;
        case 9:
            if (run(add, "try_emplace(&&)", [&] {
                    Key kk = k;
                    x->try_emplace(std::move(kk), v);
                }))
                m.emplace(ki, v);
            break;
        case 10:
            if (run(add, "emplace", [&] { x->emplace(k, v); })) m.emplace(ki, v);
            break;
        case 11:
        {
            // range insertion: refused exactly if the distinct new keys do not fit
            auto after = m;
            std::vector<std::pair<Key, int>> in;
            const std::size_t cnt = c.below(universe + 2);
            for (std::size_t i = 0; i < cnt; i++)
            {
                const std::size_t kk = c.below(universe);
                in.emplace_back(key(kk), static_cast<int>(i));
                after.emplace(kk, static_cast<int>(i));
            }
            const std::size_t how = c.below(4);
            const Kind want = after.size() <= cap ? NONE : LENGTH;
            if (how == 0)
            {
                if (run(want, "insert(range)", [&] { x->insert(in.begin(), in.end()); })) m = after;
            }
            else if (how == 1 && in.size() >= 3)
            {
                auto a2 = m;
                for (std::size_t i = 0; i < 3; i++)
                {
                    for (std::size_t u = 0; u < universe; u++)
                    {
                        if (key(u) == in[i].first) a2.emplace(u, in[i].second);
                    }
                }
                using P = typename C::value_type;
                if (run(a2.size() <= cap ? NONE : LENGTH, "insert(initializer_list)", [&] {
                        x->insert({P{in[0].first, in[0].second}, P{in[1].first, in[1].second}, P{in[2].first, in[2].second}});
                    }))
                    m = a2;
            }
            else
            {
                std::map<std::size_t, int> fresh;
                for (auto& p : in)
                {
                    for (std::size_t u = 0; u < universe; u++)
                    {
                        if (key(u) == p.first) fresh.emplace(u, p.second);
                    }
                }
                Obj<C> o2(c);
                const bool list = how == 3 && cnt <= 9;
                NOTE(c, "%s constructor with %zu distinct keys", list ? "list" : "range", fresh.size());
                const bool ok = judge<D>(c, fresh.size() <= cap ? NONE : LENGTH, list ? "list constructor" : "range constructor", [&] {
                    using P = typename C::value_type;
                    if (list) with_ilist<P>(cnt, [&](std::size_t i) { return P{in[i].first, in[i].second}; }, [&](std::initializer_list<P> il) { new (o2.mem) C(il); });
                    else new (o2.mem) C(in.begin(), in.end());
                });
                if (ok) CHECK(c, static_cast<C*>(o2.mem)->size() == fresh.size(), "constructed size");
            }
            break;
        }
        case 12:
            NOTE(c, "erase key %zu", ki);
            if (run(NONE, "erase(key)", [&] { g_sink = static_cast<long long>(x->erase(k)); })) m.erase(ki);
            break;
        case 13:
        {
            if (has)
            {
                if (run(NONE, "erase(iterator)", [&] { x->erase(x->find(k)); })) m.erase(ki);
            }
            else
            {
                run(DIES, "erase(end())", [&] { x->erase(x->find(k)); });
            }
            break;
        }
        case 14:
            run(NONE, "lookups", [&]
                {
                    const C& cx = *x;
                    g_sink = (cx.find(k) != cx.end()) + static_cast<long long>(cx.contains(k));
                    if constexpr (requires { cx.count(k); }) g_sink = static_cast<long long>(cx.count(k));
                    if constexpr (requires { cx.lower_bound(k); })
                    {
                        g_sink = (cx.lower_bound(k) == cx.end()) + (cx.upper_bound(k) == cx.end()) + (x->lower_bound(k) == x->end()) + (x->upper_bound(k) == x->end());
                        const auto e = cx.equal_range(k);
                        g_sink = e.first == e.second;
                    }
                });
            break;
        default:
            if constexpr (F == EMAP)
            {
                using P = std::pair<Key, int>;
                std::vector<P> in;
                std::set<std::size_t> seen;
                bool dup = false;
                for (std::size_t i = 0; i < cap; i++)
                {
                    if (c.chance(1, 12)) continue;
                    const std::size_t kk = c.chance(1, 16) ? c.below(cap) : i;
                    in.emplace_back(key(kk), v);
                    if (!seen.insert(kk).second) dup = true;
                }
                const Kind want = dup ? DUPLICATE : seen.size() < cap ? MISSING : NONE;
                Obj<C> o2(c);
                NOTE(c, "create_with_all_entries of %zu entries: expect %s", in.size(), kind_name(want));
                if (judge<D>(c, want, "create_with_all_entries", [&] { new (o2.mem) C(C::create_with_all_entries(in)); }))
                    CHECK(c, static_cast<C*>(o2.mem)->size() == cap, "create_with_all_entries: size");
            }
            else if (c.chance(1, 6))
            {
                if (run(NONE, "clear", [&] { x->clear(); })) m.clear();
            }
            break;
        }
        c.aside = true;
        CHECK(c, x->size() == m.size(), "size");
        for (std::size_t i = 0; i < universe; i++) CHECK(c, x->contains(key(i)) == (m.count(i) != 0), "contains");
        c.aside = false;
    }
    x->~C();
}

template <class C, bool DEFAULT_POLICY, std::size_t CAP>
void set_test(Ctx& c)
{
    using Key = typename C::key_type;
    constexpr std::size_t cap = CAP;
    const std::size_t universe = CAP * 2 + 3;
    std::set<std::size_t> m;
    Obj<C> o(c);
    C* x = new (o.mem) C();
    auto l = c.loop(50);
    while (c.more(l))
    {
        const std::size_t n = m.size();
        const std::size_t ki = c.below(universe);
        const Key k = static_cast<Key>(ki);
        const bool has = m.count(ki) != 0;
        const Kind add = has || n < cap ? NONE : LENGTH;
        std::vector<unsigned char> image(static_cast<unsigned char*>(o.mem), static_cast<unsigned char*>(o.mem) + sizeof(C));
        auto run = [&](Kind want, const char* what, auto f) -> bool
        {
            NOTE(c, "%s key %zu (%s, size %zu of %zu): expect %s", what, ki, has ? "present" : "absent", n, cap, kind_name(want));
            const bool done = judge<D>(c, want, what, f);
            // an insertion of one element needs room for one more than there is; several may be refused as a whole
            if (!D && want == LENGTH)
                CHECK(c, std::strstr(what, "range") != nullptr || std::strstr(what, "list") != nullptr ? State::target > cap : State::target == cap + 1,
                      "%s: length_error reports %zu, capacity %zu", what, State::target, cap);
            if (!done) std::memcpy(o.mem, image.data(), sizeof(C));
            return done;
        };
        switch (c.below(9))
        {
        case 0:
            if (run(add, "insert(const&)", [&] { x->insert(k); })) m.insert(ki);
            break;
        case 1:
            if (run(add, "insert(&&)", [&] { x->insert(Key(k)); })) m.insert(ki);
            break;
        case 2:
            if (run(add, "emplace", [&] { x->emplace(k); })) m.insert(ki);
            break;
        case 3:
            if (run(add, "insert(hint)", [&] { x->insert(x->cbegin(), k); })) m.insert(ki);
            break;
        case 4:
        {
            auto after = m;
            std::vector<Key> in;
            const std::size_t cnt = c.below(universe + 2);
            for (std::size_t i = 0; i < cnt; i++)
            {
                in.push_back(static_cast<Key>(c.below(universe)));
                after.insert(static_cast<std::size_t>(in.back()));
            }
            const Kind want = after.size() <= cap ? NONE : LENGTH;
            const bool list = cnt <= 9 && c.chance(1, 2);
            const auto ilist = [&](auto f) { with_ilist<Key>(cnt, [&](std::size_t i) { return in[i]; }, f); };
            if (c.chance(1, 2))
            {
                if (run(want, list ? "insert(list)" : "insert(range)", [&] {
                        if (list) ilist([&](std::initializer_list<Key> il) { x->insert(il); });
                        else x->insert(in.begin(), in.end());
                    }))
                    m = after;
            }
            else
            {
                const std::set<std::size_t> d(in.begin(), in.end());
                Obj<C> o2(c);
                NOTE(c, "%s constructor with %zu distinct keys", list ? "list" : "range", d.size());
                if (judge<D>(c, d.size() <= cap ? NONE : LENGTH, list ? "list constructor" : "range constructor", [&] {
                        if (list) ilist([&](std::initializer_list<Key> il) { new (o2.mem) C(il); });
                        else new (o2.mem) C(in.begin(), in.end());
                    }))
                    CHECK(c, static_cast<C*>(o2.mem)->size() == d.size(), "constructed size");
            }
            break;
        }
        case 5:
            if (run(NONE, "erase(key)", [&] { g_sink = static_cast<long long>(x->erase(k)); })) m.erase(ki);
            break;
        case 6:
            if (has)
            {
                if (run(NONE, "erase(iterator)", [&] { x->erase(x->find(k)); })) m.erase(ki);
            }
            else run(DIES, "erase(end())", [&] { x->erase(x->find(k)); });
            break;
        case 7:
            run(NONE, "lookups", [&]
                {
                    const C& cx = *x;
                    g_sink = (cx.find(k) != cx.end()) + static_cast<long long>(cx.contains(k)) + static_cast<long long>(cx.count(k));
                    if constexpr (requires { cx.lower_bound(k); })
                        g_sink = (cx.lower_bound(k) == cx.end()) + (cx.upper_bound(k) == cx.end());
                });
            break;
        default:
            if (c.chance(1, 6))
            {
                if (run(NONE, "clear", [&] { x->clear(); })) m.clear();
            }
            break;
        }
        c.aside = true;
        CHECK(c, x->size() == m.size(), "size");
        for (std::size_t i = 0; i < universe; i++) CHECK(c, x->contains(static_cast<Key>(i)) == (m.count(i) != 0), "contains");
        c.aside = false;
    }
    x->~C();
}

// ------------------------------------------------------------------------------------------------ adapters, optional references
template <class C, bool STACK, bool CIRCULAR, bool DEFAULT_POLICY, std::size_t CAP>
void adp_test(Ctx& c)
{
    Obj<C> o(c);
    C* x = new (o.mem) C();
    std::vector<int> m;
    auto l = c.loop(40);
    int counter = 0;
    while (c.more(l))
    {
        const std::size_t n = m.size();
        std::vector<unsigned char> image(static_cast<unsigned char*>(o.mem), static_cast<unsigned char*>(o.mem) + sizeof(C));
        auto run = [&](Kind want, const char* what, auto f) -> bool
        {
            NOTE(c, "%s (size %zu of %zu): expect %s", what, n, CAP, kind_name(want));
            const bool done = judge<D>(c, want, what, f);
            // an insertion of one element needs room for one more than there is; several may be refused as a whole
            if (!D && want == LENGTH)
                CHECK(c, std::strstr(what, "range") != nullptr || std::strstr(what, "list") != nullptr ? State::target > CAP : State::target == CAP + 1,
                      "%s: length_error reports %zu, capacity %zu", what, State::target, CAP);
            if (!done) std::memcpy(o.mem, image.data(), sizeof(C));
            return done;
        };
        switch (c.below(4))
        {
        case 0:
        {
            const int k = ++counter;
            const std::size_t how = c.below(3);
            if (run(n < CAP || CIRCULAR ? NONE : LENGTH, "push", [&]
                    {
                        if (how == 0) x->push(k);
                        else if (how == 1) x->push(int(k));
                        else State::anywhere = true, x->emplace(k);
                    }))
            {
                if (n == CAP) m.erase(m.begin());
                m.push_back(k);
            }
            break;
        }
        case 1:
            if (run(n == 0 ? EMPTY : NONE, "pop", [&] { x->pop(); }))
            {
                if (STACK) m.pop_back();
                else m.erase(m.begin());
            }
            break;
        case 2:
        {
            const C& cx = *x;
            const std::size_t how = c.below(4);
            run(n == 0 ? EMPTY : NONE, "top/front/back", [&]
                {
                    if constexpr (STACK) g_sink = how % 2 == 0 ? x->top() : cx.top();
                    else g_sink = how == 0 ? x->front() : how == 1 ? cx.front() : how == 2 ? x->back() : cx.back();
                });
            break;
        }
        default:
        {
            const std::size_t cnt = c.below(CAP + 3);
            if (CIRCULAR && cnt > CAP) break;
            std::vector<int> in(cnt, 5);
            Obj<C> o2(c);
            judge<D>(c, cnt <= CAP ? NONE : LENGTH, "range constructor", [&] { new (o2.mem) C(in.begin(), in.end()); });
            break;
        }
        }
        c.aside = true;
        CHECK(c, x->size() == m.size(), "size");
        c.aside = false;
    }
}
template <class O, bool DEFAULT_POLICY>
void optref_test(Ctx& c)
{
    int a = 1, b = 2;
    O x;
    int* cur = nullptr;
    auto l = c.loop(20);
    while (c.more(l))
    {
        switch (c.below(4))
        {
        case 0:
            cur = c.chance(1, 2) ? &a : &b;
            NOTE(c, "bind");
            x = O(*cur);
            break;
        case 1:
            NOTE(c, "reset");
            x.reset();
            cur = nullptr;
            break;
        default:
        {
            const O& cx = x;
            const std::size_t how = c.below(6);
            NOTE(c, "access %zu while %s", how, cur != nullptr ? "bound" : "empty");
            judge<D>(c, cur != nullptr ? NONE : BAD_ACCESS, "access", [&]
                     {
                         const int* p = nullptr;
                         if (how == 0) p = &x.value();
                         else if (how == 1) p = &cx.value();
                         else if (how == 2) p = &*x;
                         else if (how == 3) p = &*cx;
                         else if (how == 4) p = x.operator->();
                         else p = cx.operator->();
                         g_sink = *p;
                     });
            judge<D>(c, NONE, "queries", [&] { g_sink = x.has_value() + static_cast<bool>(x) + x.value_or(b); });
        }
        }
    }
}

struct IntKey
{
    static int make(std::size_t i) { return static_cast<int>(i); }
};
enum class Seven { A, B, C, D_, E, F, G };
struct EnumKey
{
    static Seven make(std::size_t i) { return static_cast<Seven>(i); }
};
constexpr bool DEF = PART % 2 == 1;
#define WT(W) ((W) * (DEF ? 0.05 : 1.0))
#if PART % 2 == 1
#define PN "default policy: "
#else
#define PN
#endif
template <class T, std::size_t N>
using SC = std::conditional_t<DEF, fc::customize::SequenceContainerAbortChecking<T, N>, Rec>;
template <class T, class V, std::size_t N>
using MC = std::conditional_t<DEF, fc::customize::MapAbortChecking<T, V, N>, Rec>;
template <class T, std::size_t N>
using TC = std::conditional_t<DEF, fc::customize::SetAbortChecking<T, N>, Rec>;
template <class T, std::size_t N, template <class, std::size_t, class> class X>
using S = X<T, N, SC<T, N>>;
#define SEQ(X, T, N, F, W) REGISTER(PN #X "<" #T "," #N ">", (seq_test<fc::X<T, N, SC<T, N>>, T, F, DEF, N>), WT(W))

#if PART / 2 == 0
SEQ(FixedVector, int, 5, VEC, 1);
SEQ(FixedVector, int, 0, VEC, 0.3);
SEQ(FixedVector, Trk, 4, VEC, 1);
SEQ(FixedVector, Big, 3, VEC, 1);
REGISTER(PN "FixedString<6>", (seq_test<fc::FixedString<6, SC<char, 6>>, char, STR, DEF, 6>), WT(1));
REGISTER(PN "FixedString<0>", (seq_test<fc::FixedString<0, SC<char, 0>>, char, STR, DEF, 0>), WT(0.2));
#elif PART / 2 == 1
SEQ(FixedDeque, int, 5, DEQ, 1);
SEQ(FixedDeque, int, 1, DEQ, 0.3);
SEQ(FixedDeque, Trk, 4, DEQ, 1);
SEQ(FixedCircularDeque, int, 4, CIRC, 1);
SEQ(FixedCircularDeque, Big, 1, CIRC, 0.3);
#elif PART / 2 == 2
SEQ(FixedList, int, 5, LIST, 1);
SEQ(FixedList, int, 0, LIST, 0.3);
SEQ(FixedList, Trk, 4, LIST, 1);
REGISTER(PN "FixedStack", (adp_test<fc::FixedStack<int, 4, SC<int, 4>>, true, false, DEF, 4>), WT(0.5));
REGISTER(PN "FixedQueue", (adp_test<fc::FixedQueue<int, 4, SC<int, 4>>, false, false, DEF, 4>), WT(0.5));
REGISTER(PN "FixedCircularQueue", (adp_test<fc::FixedCircularQueue<int, 4, SC<int, 4>>, false, true, DEF, 4>), WT(0.5));
#if PART % 2 == 0
REGISTER(PN "OptionalReference", (optref_test<fc::OptionalReference<int, Rec>, DEF>), WT(0.2));
#else
REGISTER(PN "OptionalReference", (optref_test<fc::OptionalReference<int>, DEF>), WT(0.2));
#endif
#elif PART / 2 == 3
using fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness;
REGISTER(PN "FixedMap<int,int,5>", (map_test<fc::FixedMap<int, int, 5, std::less<int>, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, MC<int, int, 5>>, MAP, DEF, 5, IntKey>), WT(1));
REGISTER(PN "FixedMap<int,int,4,contiguous>", (map_test<fc::FixedMap<int, int, 4, std::less<int>, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage, MC<int, int, 4>>, MAP, DEF, 4, IntKey>), WT(1));
REGISTER(PN "FixedSet<int,5>", (set_test<fc::FixedSet<int, 5, std::less<int>, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, TC<int, 5>>, DEF, 5>), WT(1));
REGISTER(PN "FixedSet<short,3,contiguous>", (set_test<fc::FixedSet<short, 3, std::less<short>, RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage, TC<short, 3>>, DEF, 3>), WT(1));
REGISTER(PN "FixedSet<int,0>", (set_test<fc::FixedSet<int, 0, std::less<int>, RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage, TC<int, 0>>, DEF, 0>), WT(0.2));
#else
REGISTER(PN "FixedUnorderedMap<int,int,5>", (map_test<fc::FixedUnorderedMap<int, int, 5, fc::wyhash::hash<int>, std::equal_to<int>, 8, MC<int, int, 5>>, UMAP, DEF, 5, IntKey>), WT(1));
REGISTER(PN "FixedUnorderedSet<int,4>", (set_test<fc::FixedUnorderedSet<int, 4, fc::wyhash::hash<int>, std::equal_to<int>, 4, TC<int, 4>>, DEF, 4>), WT(1));
#if PART % 2 == 0
REGISTER(PN "EnumMap<Seven,int>", (map_test<fc::EnumMap<Seven, int, Rec>, EMAP, DEF, 7, EnumKey>), WT(1));
#else
REGISTER(PN "EnumMap<Seven,int>", (map_test<fc::EnumMap<Seven, int>, EMAP, DEF, 7, EnumKey>), WT(1));
#endif
#endif
