// Model-based driver for FixedString against std::string.
#pragma once
#include "elements.hpp"

#include "fixed_containers/fixed_string.hpp"

#include <algorithm>
#include <iomanip>
#include <iterator>
#include <list>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace drv
{
using pbt::Ctx;

inline std::string show(const std::string& s)
{
    std::string o = "\"";
    for (std::size_t i = 0; i < s.size() && i < 60; i++)
    {
        const auto ch = static_cast<unsigned char>(s[i]);
        if (ch >= 32 && ch < 127 && ch != '\\') o += s[i];
        else
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", ch);
            o += b;
        }
    }
    return o + (s.size() > 60 ? "...\"" : "\"");
}
inline char draw_char(Ctx& c)
{
    static constexpr char t[] = {'a', 'b', 'a', 'b', 'c', ' ', '\0', '\xff', '\n', 'A'};
    if (c.chance(1, 20)) return static_cast<char>(c.below(256));
    return t[c.below(sizeof t)];
}
inline std::string draw_str(Ctx& c, std::size_t max, bool no_nul = false)
{
    const std::size_t n = c.edge(max);
    std::string s;
    for (std::size_t i = 0; i < n; i++)
    {
        char ch = draw_char(c);
        if (no_nul && ch == '\0') ch = 'z';
        s += ch;
    }
    return s;
}

template <std::size_t N>
struct StrD
{
    using C = fixed_containers::FixedString<N>;
    using M = std::string;
    static constexpr std::size_t cap = N;
    static constexpr bool copyable = true;
    static constexpr bool tracked = false;
    static void begin_case(Ctx&) {}
    static std::size_t live(const M&) { return 0; }

    // Calls f(first, last) / fi(ilist) / fv(view) with the characters
    template <class F, class FI, class FV>
    static void with_chars(Ctx& c, const std::string& s, F&& f, FI&& fi, FV&& fv)
    {
        std::vector<char> src(s.begin(), s.end());
        switch (c.below(6))
        {
        case 0: NOTE(c, "  as string_view"); fv(std::string_view(src.data(), src.size())); break;
        case 1:
        {
            NOTE(c, "  as input iterators");
            typename el::InIt<char>::Shared sh{src.data(), src.size(), 0};
            f(el::InIt<char>{&sh, 0, false}, el::InIt<char>{&sh, 0, true});
            CHECK(c, sh.pos == src.size(), "an input range was not consumed completely");
            break;
        }
        case 2:
        {
            NOTE(c, "  as list iterators");
            std::list<char> l(src.begin(), src.end());
            f(l.begin(), l.end());
            break;
        }
        case 3:
            if (src.size() <= 3)
            {
                NOTE(c, "  as initializer_list");
                if (src.empty()) fi(std::initializer_list<char>{});
                else if (src.size() == 1) fi(std::initializer_list<char>{src[0]});
                else if (src.size() == 2) fi(std::initializer_list<char>{src[0], src[1]});
                else fi(std::initializer_list<char>{src[0], src[1], src[2]});
                break;
            }
            [[fallthrough]];
        case 4: NOTE(c, "  as std::string"); fv(std::string_view(s)); break;
        default: NOTE(c, "  as vector iterators"); f(src.begin(), src.end()); break;
        }
    }

    static C* construct(Ctx& c, void* mem, M& m)
    {
        m.clear();
        switch (c.below(5))
        {
        case 1:
        {
            const std::size_t n = c.edge(cap);
            const char ch = draw_char(c);
            NOTE(c, "construct(%zu, char %d)", n, ch);
            m.assign(n, ch);
            return ON(new (mem) C(n, ch));
        }
        case 2:
        {
            m = draw_str(c, cap, true);
            NOTE(c, "construct(const char* %s)", show(m).c_str());
            return ON(new (mem) C(m.c_str()));
        }
        case 3:
        {
            m = draw_str(c, std::min<std::size_t>(cap, 3));
            NOTE(c, "construct(initializer_list %s)", show(m).c_str());
            if (m.empty()) return ON(new (mem) C(std::initializer_list<char>{}));
            if (m.size() == 1) return ON(new (mem) C({m[0]}));
            if (m.size() == 2) return ON(new (mem) C({m[0], m[1]}));
            return ON(new (mem) C({m[0], m[1], m[2]}));
        }
        case 4:
        {
            m = draw_str(c, cap);
            NOTE(c, "construct(string_view %s)", show(m).c_str());
            return ON(new (mem) C(std::string_view(m)));
        }
        default:
            NOTE(c, "default construct");
            return ON(new (mem) C());
        }
    }
    static void check_ret(Ctx& c, C& x, typename C::iterator it, const M& m, std::size_t expect, const char* what)
    {
        const auto d = it - x.begin();
        CHECK(c, d == static_cast<std::ptrdiff_t>(expect), "%s returned an iterator at index %td, expected %zu", what, d, expect);
        (void)m;
    }
    static void ret_self(Ctx& c, C& x, C& r, const char* what)
    {
        CHECK(c, std::addressof(r) == std::addressof(x), "%s does not return the string itself", what);
    }
    static auto cit(C& x, std::size_t i) { return x.cbegin() + static_cast<std::ptrdiff_t>(i); }

    static void mutate(Ctx& c, C& x, M& m)
    {
        c.ops();
        const std::size_t room = cap - m.size();
        switch (c.weighted({8, 5, 8, 8, 6, 6, 6, 1, 4, 4, 3, 3, 2, 2}))
        {
        case 0:  // push_back / += char
        {
            if (room == 0) return;
            const char ch = draw_char(c);
            NOTE(c, "push_back(%d)", ch);
            if (c.chance(1, 2)) ON(x.push_back(ch));
            else ret_self(c, x, ON(x += ch), "+= char");
            m += ch;
            break;
        }
        case 1:
            if (m.empty()) return;
            NOTE(c, "pop_back()");
            ON(x.pop_back());
            m.pop_back();
            break;
        case 2:  // append
        {
            const std::string s = draw_str(c, std::min<std::size_t>(room, 30));
            NOTE(c, "append %s", show(s).c_str());
            if (s.size() == room) c.label("append fills exactly");
            const bool plus = c.chance(1, 2);
            with_chars(
                c, s, [&](auto a, auto b) { ret_self(c, x, ON(x.append(a, b)), "append(range)"); },
                [&](auto l) { ret_self(c, x, plus ? ON(x += l) : ON(x.append(l)), "append(ilist)"); },
                [&](auto v)
                {
                    if (plus)
                    {
                        if (v.find('\0') == v.npos && c.chance(1, 2))
                        {
                            const std::string z(v);
                            ret_self(c, x, ON(x += z.c_str()), "+= const char*");
                        }
                        else ret_self(c, x, ON(x += v), "+= view");
                    }
                    else ret_self(c, x, ON(x.append(v)), "append(view)");
                });
            m += s;
            break;
        }
        case 3:  // insert
        {
            const std::size_t pos = c.edge(m.size());
            const auto p = cit(x, pos);
            if (room > 0 && c.chance(1, 4))
            {
                const char ch = draw_char(c);
                NOTE(c, "insert(#%zu, char %d)", pos, ch);
                const auto it = ON(x.insert(p, ch));
                m.insert(pos, 1, ch);
                check_ret(c, x, it, m, pos, "insert(pos, char)");
                break;
            }
            const std::string s = draw_str(c, std::min<std::size_t>(room, 30));
            NOTE(c, "insert(#%zu, %s)", pos, show(s).c_str());
            c.label(s.empty() ? "insert empty" : "insert range");
            typename C::iterator it{};
            with_chars(
                c, s, [&](auto a, auto b) { it = ON(x.insert(p, a, b)); }, [&](auto l) { it = ON(x.insert(p, l)); },
                [&](auto v) { it = ON(x.insert(p, v)); });
            m.insert(pos, s);
            check_ret(c, x, it, m, pos, "insert(pos, chars)");
            break;
        }
        case 4:
        {
            if (m.empty()) return;
            const std::size_t i = c.edge(m.size() - 1);
            NOTE(c, "erase(#%zu)", i);
            const auto p = cit(x, i);
            const auto it = ON(x.erase(p));
            m.erase(i, 1);
            check_ret(c, x, it, m, i, "erase(pos)");
            break;
        }
        case 5:
        {
            const std::size_t i = c.edge(m.size());
            const std::size_t n = c.edge(m.size() - i);
            NOTE(c, "erase(#%zu, #%zu)", i, i + n);
            const auto p = cit(x, i), q = cit(x, i + n);
            const auto it = ON(x.erase(p, q));
            m.erase(i, n);
            check_ret(c, x, it, m, i, "erase(first, last)");
            break;
        }
        case 6:  // assign
        {
            const std::string s = draw_str(c, std::min<std::size_t>(cap, 40));
            if (c.chance(1, 4))
            {
                const std::size_t n = c.edge(cap);
                const char ch = draw_char(c);
                NOTE(c, "assign(%zu, char %d)", n, ch);
                ret_self(c, x, ON(x.assign(n, ch)), "assign(n, char)");
                m.assign(n, ch);
                break;
            }
            NOTE(c, "assign %s", show(s).c_str());
            with_chars(
                c, s, [&](auto a, auto b) { ret_self(c, x, ON(x.assign(a, b)), "assign(range)"); },
                [&](auto l) { ret_self(c, x, ON(x.assign(l)), "assign(ilist)"); },
                [&](auto v)
                {
                    switch (c.below(3))
                    {
                    case 0: ret_self(c, x, ON(x = C(v)), "operator=(temporary)"); break;
                    case 1: ret_self(c, x, ON(x = v), "operator=(view)"); break;
                    default: ret_self(c, x, ON(x.assign(v)), "assign(view)"); break;
                    }
                });
            m = s;
            break;
        }
        case 7:
            NOTE(c, "clear()");
            ON(x.clear());
            m.clear();
            break;
        case 8:
        {
            const std::size_t n = c.edge(cap);
            if (c.chance(1, 2))
            {
                const char ch = draw_char(c);
                NOTE(c, "resize(%zu, char %d)", n, ch);
                ON(x.resize(n, ch));
                m.resize(n, ch);
            }
            else
            {
                NOTE(c, "resize(%zu)", n);
                ON(x.resize(n));
                m.resize(n);
            }
            break;
        }
        case 9:
        {
            if (m.empty()) return;
            const std::size_t i = c.edge(m.size() - 1);
            const char ch = draw_char(c);
            NOTE(c, "write #%zu = %d", i, ch);
            switch (c.below(6))
            {
            case 0: x[i] = ch; m[i] = ch; break;
            case 1: x.at(i) = ch; m[i] = ch; break;
            case 2: x.front() = ch; m.front() = ch; break;
            case 3: x.back() = ch; m.back() = ch; break;
            case 4: x.data()[i] = ch; m[i] = ch; break;
            default: *(x.begin() + static_cast<std::ptrdiff_t>(i)) = ch; m[i] = ch; break;
            }
            break;
        }
        case 10:  // stream extraction
        {
            std::string text;
            auto l = c.loop_exact(1 + c.below(3));
            while (c.more(l))
            {
                static constexpr char ws[] = {' ', '\n', '\t', '\r', '\v', '\f'};
                for (std::size_t i = c.below(3); i > 0; i--) text += ws[c.below(6)];
                for (std::size_t i = c.edge(std::min<std::size_t>(cap, 20)); i > 0; i--)
                {
                    char ch = draw_char(c);
                    text += ch;
                }
            }
            // words longer than the capacity are an overflow, not part of this property
            std::istringstream chk(text);
            std::string w;
            chk >> w;
            if (w.size() > cap) return;
            std::istringstream a(text), b(text);
            std::string sm = m;
            NOTE(c, "istream >> from %s", show(text).c_str());
            a >> x;
            b >> sm;
            CHECK(c, a.fail() == b.fail() && a.eof() == b.eof(), "stream extraction: fail/eof are %d/%d, for std::string %d/%d",
                  a.fail(), a.eof(), b.fail(), b.eof());
            if (b.fail() && text.find_first_not_of(" \n\t\r\v\f") == std::string::npos)
            {
                // nothing to read: what the target holds is not specified the same way everywhere; resynchronise
                m.assign(x.begin(), x.end());
                CHECK(c, m == sm || m.empty(), "a failed extraction left something else in the string");
            }
            else
            {
                m = sm;
            }
            a.clear();
            b.clear();
            const std::string ra(std::istreambuf_iterator<char>(a), {}), rb(std::istreambuf_iterator<char>(b), {});
            CHECK(c, ra == rb, "stream extraction leaves %s unread, for std::string %s", show(ra).c_str(), show(rb).c_str());
            c.label("stream extraction");
            break;
        }
        case 11:  // arguments that are parts of the string itself
        {
            const std::size_t i = c.edge(m.size());
            const std::size_t n = c.edge(m.size() - i);
            const std::size_t which = c.below(6);
            if (which >= 3)
            {
                c.label("insert/assign own characters");
                const std::size_t pos = c.edge(m.size());
                const std::string part = m.substr(i, n);
                const auto b = x.cbegin() + static_cast<std::ptrdiff_t>(i);
                const auto e = b + static_cast<std::ptrdiff_t>(n);
                const auto at = x.cbegin() + static_cast<std::ptrdiff_t>(pos);
                if (which < 5)
                {
                    if (n > room) return;
                    NOTE(c, "insert(#%zu, own [%zu, +%zu))%s", pos, i, n, which == 4 ? " as a view" : "");
                    const auto it = which == 4 ? ON(x.insert(at, std::string_view(x).substr(i, n))) : ON(x.insert(at, b, e));
                    m.insert(pos, part);
                    CHECK(c, it - x.begin() == static_cast<std::ptrdiff_t>(pos), "insert(own characters) does not return the position");
                }
                else if (c.chance(1, 2))
                {
                    NOTE(c, "assign(own [%zu, +%zu)) as a view", i, n);
                    ret_self(c, x, ON(x.assign(std::string_view(x).substr(i, n))), "assign(own view)");
                    m = part;
                }
                else
                {
                    NOTE(c, "assign(own [%zu, +%zu))", i, n);
                    ret_self(c, x, ON(x.assign(b, e)), "assign(own range)");
                    m = part;
                }
            }
            else if (which == 0)
            {
                if (n > room) return;
                NOTE(c, "append(own [%zu, +%zu) as a range)", i, n);
                const std::string part = m.substr(i, n);
                const auto b = x.cbegin() + static_cast<std::ptrdiff_t>(i);
                ON(x.append(b, b + static_cast<std::ptrdiff_t>(n)));
                m += part;
            }
            else if (which == 1)
            {
                if (n > room) return;
                NOTE(c, "append(own [%zu, +%zu))", i, n);
                const std::string part = m.substr(i, n);
                ON(x.append(std::string_view(x).substr(i, n)));
                m += part;
            }
            else
            {
                NOTE(c, "= own substr(%zu, %zu)", i, n);
                ON(x = C(x.substr(i, n)));
                m = m.substr(i, n);
            }
            break;
        }
        case 12:
        {
            const std::size_t n = c.edge(cap);
            NOTE(c, "reserve(%zu)", n);
            ON(x.reserve(n));
            break;
        }
        default:
            NOTE(c, "std::sort/reverse");
            if (c.chance(1, 2))
            {
                ON(std::sort(x.begin(), x.end()));
                std::sort(m.begin(), m.end());
            }
            else
            {
                ON(std::reverse(x.begin(), x.end()));
                std::reverse(m.begin(), m.end());
            }
            break;
        }
    }

    static int sgn(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
    static int sgn(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
    template <class A>
    static void compare_with(Ctx& c, const C& cx, const M& m, const A& a, std::string_view s, const char* what)
    {
        const int want = sgn(std::string_view(m).compare(s));
        CHECK(c, ON(cx == a) == (want == 0) && ON(cx != a) == (want != 0), "== with %s %s is wrong", what, show(std::string(s)).c_str());
        CHECK(c, ON(a == cx) == (want == 0), "reversed == with %s %s is wrong", what, show(std::string(s)).c_str());
        CHECK(c, sgn(ON(cx <=> a)) == want, "<=> with %s %s is %d, expected %d", what, show(std::string(s)).c_str(), sgn(cx <=> a), want);
        CHECK(c, ON(cx < a) == (want < 0) && ON(cx > a) == (want > 0) && ON(cx <= a) == (want <= 0) && ON(cx >= a) == (want >= 0),
              "relational comparison with %s %s is wrong", what, show(std::string(s)).c_str());
        CHECK(c, ON(a < cx) == (want > 0) && ON(a > cx) == (want < 0), "reversed relational comparison with %s is wrong", what);
    }
#define FINDS(NAME, DEFPOS)                                                                                                   \
    {                                                                                                                         \
        std::size_t want, got;                                                                                                \
        switch (c.below(8))                                                                                                   \
        {                                                                                                                     \
        case 0: want = m.NAME(a, p); got = ON(cx.NAME(fa, p)); break;                                                         \
        case 1: want = m.NAME(a.data(), p, a.size()); got = ON(cx.NAME(a.data(), p, a.size())); break;                        \
        case 2: want = m.NAME(a.c_str(), p); got = ON(cx.NAME(a.c_str(), p)); break;                                          \
        case 3: want = m.NAME(ch, p); got = ON(cx.NAME(ch, p)); break;                                                        \
        case 4: want = m.NAME(std::string_view(a), p); got = ON(cx.NAME(std::string_view(a), p)); break;                      \
        case 5: want = m.NAME(a); got = ON(cx.NAME(a)); break;                                                                \
        case 6: want = m.NAME(ch); got = ON(cx.NAME(ch)); break;                                                              \
        default: want = m.NAME(a.c_str()); got = ON(cx.NAME(a.c_str())); break;                                               \
        }                                                                                                                     \
        CHECK(c, want == got, #NAME "(%s / %d, %zu) is %zd, expected %zd", show(a).c_str(), ch, p, static_cast<ssize_t>(got), \
              static_cast<ssize_t>(want));                                                                                    \
    }
    static void check_addresses(Ctx& c, C& x)
    {
        const auto* lo = reinterpret_cast<const char*>(std::addressof(x));
        const char* p = x.data();
        CHECK_HARD(c, p >= lo && p + x.size() + 1 <= lo + sizeof(C), "the characters lie outside the string object");
    }
    static void check(Ctx& c, C& x, const M& m)
    {
        const C& cx = x;
        const std::size_t n = m.size();
        NOTE(c, "    model: %s", show(m).c_str());
        CHECK(c, ON(cx.size()) == n && ON(cx.length()) == n, "size() is %zu, expected %zu", cx.size(), n);
        CHECK(c, ON(cx.empty()) == (n == 0) && ON(is_full(cx)) == (n == cap), "empty()/is_full() is wrong");
        CHECK(c, cx.max_size() == cap && cx.capacity() == cap, "max_size()/capacity() is wrong");
        CHECK(c, ON(cx.c_str())[n] == '\0' && x.data()[n] == '\0', "not NUL-terminated: character past the end is %d", cx.c_str()[n]);
        CHECK(c, std::memcmp(cx.c_str(), m.c_str(), n + 1) == 0, "c_str() is %s, expected %s", show(std::string(cx.c_str(), n)).c_str(), show(m).c_str());
        CHECK(c, cx.data() == cx.c_str(), "data() and c_str() differ");
        CHECK(c, std::string_view(cx) == std::string_view(m), "conversion to string_view is wrong");
        CHECK(c, std::equal(cx.begin(), cx.end(), m.begin(), m.end()), "iteration is wrong");
        CHECK(c, std::equal(cx.rbegin(), cx.rend(), m.rbegin(), m.rend()), "reverse iteration is wrong");
        CHECK(c, std::equal(x.begin(), x.end(), m.begin(), m.end()) && std::equal(x.rbegin(), x.rend(), m.rbegin(), m.rend()), "mutable iteration is wrong");
        if (n > 0)
        {
            const std::size_t i = c.edge(n - 1);
            CHECK(c, cx.front() == m.front() && cx.back() == m.back() && x.front() == m.front() && x.back() == m.back(), "front()/back() is wrong");
            CHECK(c, cx[i] == m[i] && x.at(i) == m[i] && cx.at(i) == m[i] && x[i] == m[i], "element access #%zu is wrong", i);
        }
        // queries with random arguments
        const std::size_t pi = c.below(8);
        const std::size_t p = pi == 0 ? 0 : pi == 1 ? std::string::npos : pi == 2 ? n : pi == 3 ? n + 1 : pi == 4 && n > 0 ? n - 1 : c.below(n + 1);
        std::string a;
        if (c.chance(1, 2) && n > 0)
        {
            const std::size_t i = c.edge(n);
            a = m.substr(i, c.edge(std::min<std::size_t>(n - i, 6)));
            if (!a.empty() && c.chance(1, 3)) a.back() = draw_char(c);
        }
        else a = draw_str(c, 4);
        const char ch = draw_char(c);
        const fixed_containers::FixedString<7> fa{std::string_view(a)};
        switch (c.below(9))
        {
        case 0: FINDS(find, 0) break;
        case 1: FINDS(rfind, npos) break;
        case 2: FINDS(find_first_of, 0) break;
        case 3: FINDS(find_first_not_of, 0) break;
        case 4: FINDS(find_last_of, npos) break;
        case 5: FINDS(find_last_not_of, npos) break;
        case 6:
        {
            const std::size_t q = c.edge(n);
            const std::size_t len = c.chance(1, 4) ? std::string::npos : c.edge(n + 1);
            CHECK(c, ON(cx.substr(q, len)) == std::string_view(m).substr(q, len), "substr(%zu, %zu) is wrong", q, len);
            CHECK(c, ON(cx.substr(q)) == std::string_view(m).substr(q), "substr(%zu) is wrong", q);
            CHECK(c, ON(cx.substr()) == std::string_view(m), "substr() is wrong");
            break;
        }
        case 7:
        {
            std::string b = m;
            switch (c.below(4))
            {
            case 0: if (n > 0) b[c.edge(n - 1)] = draw_char(c); break;
            case 1: b = b.substr(0, c.edge(n)); break;
            case 2: b += draw_char(c); break;
            default: break;
            }
            CHECK(c, sgn(ON(cx.compare(b))) == sgn(m.compare(b)), "compare(%s) is wrong", show(b).c_str());
            compare_with(c, cx, m, std::string_view(b), b, "string_view");
            compare_with(c, cx, m, b.c_str(), b.c_str(), "const char*");
            const fixed_containers::FixedString<N + 1> fb{std::string_view(b)};
            compare_with(c, cx, m, fb, b, "fixed string");
            break;
        }
        default:
        {
            const std::string_view va = a;
            CHECK(c, ON(cx.starts_with(va)) == m.starts_with(va) && ON(cx.ends_with(va)) == m.ends_with(va), "starts_with/ends_with(%s) is wrong", show(a).c_str());
            CHECK(c, ON(cx.starts_with(ch)) == m.starts_with(ch) && ON(cx.ends_with(ch)) == m.ends_with(ch), "starts_with/ends_with(char %d) is wrong", ch);
            CHECK(c, ON(cx.starts_with(a.c_str())) == m.starts_with(a.c_str()) && ON(cx.ends_with(a.c_str())) == m.ends_with(a.c_str()), "starts_with/ends_with(const char* %s) is wrong", show(a).c_str());
            if (c.chance(1, 6))
            {
                std::ostringstream o1, o2;
                const int w = static_cast<int>(c.below(n + 4));
                const bool left = c.chance(1, 2);
                o1 << std::setw(w) << std::setfill('*') << (left ? std::left : std::right) << cx << '|';
                o2 << std::setw(w) << std::setfill('*') << (left ? std::left : std::right) << m << '|';
                CHECK(c, o1.str() == o2.str(), "stream insertion wrote %s, expected %s", show(o1.str()).c_str(), show(o2.str()).c_str());
            }
            break;
        }
        }
    }
#undef FINDS
};
}  // namespace drv
