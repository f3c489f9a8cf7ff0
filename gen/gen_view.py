"""Generated structs and sub-structs: struct views must give the offsets, strides, capacities and addresses the compiler gives."""
from gen import structs as S

FLAGS = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-O0"]
OPTS = dict(allow={"s", "a", "v", "o", "x"}, ptrs=True, sv=True)
FLAT = dict(allow=set(), ptrs=False, sv=False)


def settle(t):
    """Restrict partial filling to containers whose elements hold no further containers (the library walks to capacity)"""
    k = t[0]
    if k == "s":
        for _, x in t[1]:
            settle(x)
    elif k in ("a", "v", "o"):
        settle(t[1])
        if k == "v" and S.has(t[1], {"v", "o"}):
            t[3] = t[2]
        if k == "o" and S.has(t[1], {"v", "o"}):
            t[2] = True


def sub_of(rng, t):
    """A sub-structure of t, or None when t has nothing a sub-structure can refer to"""
    k = t[0]
    if k == "x" or k == "p" and (t[1].endswith("*") or t[1] == "std::string_view"):
        return None
    if k == "p":
        if t[1] in ("E0", "E1"):
            return ["p", "std::string_view"]
        return ["p", t[1] + " *" if t[1].startswith("std::") or rng.random() < 0.4 else f"const {t[1]} *"]
    if k in ("a", "v", "o"):
        c = sub_of(rng, t[1])
        return None if c is None else [k, c] + ([t[2]] if k == "a" else [t[2], 0] if k == "v" else [False])
    out = []
    for n, x in t[1]:
        if rng.random() < 0.65:
            c = sub_of(rng, x)
            if c is not None:
                out.append([n, c])
    if rng.random() < 0.5:
        rng.shuffle(out)
    return ["s", out, rng.random() < 0.1 and len(out) > 0]


def make(rng, size):
    if rng.random() < 0.2:
        while True:
            t = S.make_struct(rng, 0, FLAT, 1, 7)
            s = sub_of(rng, t)
            if s[1]:
                return {"t": "range", "def": t, "sub": s, "n": rng.randint(1, 5), "cont": rng.choice(["array", "vec", "std"])}
    while True:
        t = S.make_struct(rng, 1 + int(2.99 * size), OPTS, 0, 7)
        if S.count(t) <= 60 and S.depth(t) <= 7 and S.dims(t) <= 4:
            settle(t)
            return {"t": "struct", "def": t, "sub": sub_of(rng, t)}


def fill(t, e, full, depth=0):
    k = t[0]
    if k == "s":
        return "".join(fill(x, f"{e}.{n}", full, depth) for n, x in t[1])
    if k == "a":
        b = fill(t[1], f"e{depth}", full, depth + 1)
        return f"for (auto& e{depth} : {e}) {{ {b} }} " if b else ""
    if k == "v":
        b = fill(t[1], f"e{depth}", full, depth + 1)
        return f"{e}.resize({t[2] if full else t[3]}); " + (f"for (auto& e{depth} : {e}) {{ {b} }} " if b else "")
    if k == "o":
        return f"{e}.emplace(); " + fill(t[1], f"(*{e})", full, depth) if full or t[2] else ""
    if k == "p" and not t[1].endswith("*") and t[1] != "std::string_view":
        return f"setv({e}); "
    return ""


def paths(t, e, path, dims, out, d):
    """Rows (path, node type, address expression with indices i0.., [(n, element type)...])"""
    k = t[0]
    if k == "x":
        return
    ty = d.ty(t)
    if k != "s":
        kind = {"a": "ITERABLE", "v": "RESIZABLE_ITERABLE", "o": "OPTIONAL"}.get(k)
        if kind is None:
            kind = "ENUM_AS_PRIMITIVE" if ty in ("E0", "E1") else "STRING_VIEW_AS_PRIMITIVE" if ty == "std::string_view" else "AS_PRIMITIVE"
        out.append((".".join(path), kind, ty, e, list(dims)))
    if k == "s":
        for n, x in t[1]:
            paths(x, f"{e}.{n}", path + [n], dims, out, d)
    elif k in ("a", "v"):
        paths(t[1], f"{e}.data()[i{len(dims)}]", path + ["data[:]"], dims + [(t[2], d.ty(t[1]))], out, d)
    elif k == "o":
        paths(t[1], f"(*{e})", path + ["value()"], dims, out, d)


def allpaths(t, path, out):
    if t[0] == "x":
        return
    out.append(".".join(path))
    if t[0] == "s":
        for n, x in t[1]:
            allpaths(x, path + [n], out)
    elif t[0] in ("a", "v"):
        allpaths(t[1], path + ["data[:]"], out)
    elif t[0] == "o":
        allpaths(t[1], path + ["value()"], out)


def compare(t, a, b, k, depth=0):
    """Checks that the sub-structure a (of type t) refers to b"""
    if t[0] == "s":
        return "".join(compare(x, f"{a}.{n}", f"{b}.{n}", k, depth) for n, x in t[1])
    i = f"j{depth}"
    if t[0] == "v":
        return (f"CK({k}, {a}.size() == {b}.size()); for (std::size_t {i} = 0; {i} < std::min({a}.size(), {b}.size()); {i}++) {{ " +
                compare(t[1], f"{a}[{i}]", f"{b}[{i}]", k, depth + 1) + "} ")
    if t[0] == "a":
        return f"for (std::size_t {i} = 0; {i} < {t[2]}; {i}++) {{ " + compare(t[1], f"{a}[{i}]", f"{b}[{i}]", k, depth + 1) + "} "
    if t[0] == "o":
        return (f"CK({k}, {a}.has_value() == {b}.has_value()); if ({a} && {b}) {{ " +
                compare(t[1], f"(*{a})", f"(*{b})", k, depth + 1) + "} ")
    if t[1] == "std::string_view":
        return f"CK({k}, {a} == enum_text({b})); "
    return f"CK({k}, {a} == std::addressof({b})); "


def one(k, it):
    d = S.Defs(f"g{k}_")
    t = S.clean(it["def"])
    sub = S.clean(it["sub"])
    ty, sty = d.ty(t), None
    d2 = S.Defs(f"u{k}_")
    sty = d2.ty(sub)
    o = d.out + d2.out
    if it["t"] == "range":
        cont = {"array": f"std::array<{ty}, {it['n']}>", "vec": f"fixed_containers::FixedVector<{ty}, {it['n'] + 2}>",
                "std": f"std::vector<{ty}>"}[it["cont"]]
        o.append(f"static void run{k}() {{ {cont} c{{}};")
        if it["cont"] != "array":
            o.append(f"  c.resize({it['n']});")
        o.append(f"  for (auto& e : c) {{ {fill(t, 'e', True, 1)} }}")
        o.append(f"  sv::ContiguousRangeSubStructView<{sty}> v{{c}}; CK({k}, v.size() == c.size()); std::size_t i = 0;")
        o.append(f"  for (i = 0; i < c.size(); i++) {{ const {sty} u = v.at(i); {compare(sub, 'u', 'c[i]', k)} }}")
        o.append(f"  i = 0; for (const {sty}& u : v) {{ CK({k}, i < c.size()); if (i >= c.size()) break; {compare(sub, 'u', 'c[i]', k)} i++; }} CK({k}, i == c.size());")
        o.append(f"  i = 0; for (const {sty}& u : std::as_const(v)) {{ if (i >= c.size()) break; {compare(sub, 'u', 'c[i]', k)} i++; }} CK({k}, i == c.size());")
        o.append(f"  CK({k}, v.end() - v.begin() == std::ptrdiff_t(c.size()));")
        o.append(f"  for (i = 0; i < c.size(); i++) {{ const {sty} u = v.begin()[std::ptrdiff_t(i)]; {compare(sub, 'u', 'c[i]', k)} }}")
        o.append(f"  {{ auto e = v.end(); for (i = c.size(); i-- > 0;) {{ --e; const {sty} u = *e; {compare(sub, 'u', 'c[i]', k)} CK({k}, std::size_t(e - v.begin()) == i); }} CK({k}, e == v.begin()); }}")
        o.append("}")
        return "\n".join(o)
    rows, allp, subp, subrows = [], [], [], []
    paths(t, "s", [], [], rows, d)
    allpaths(t, [], allp)
    allpaths(sub, [], subp)
    paths(sub, "q", [], [], subrows, d2)
    o.append(f"static void table{k}({ty}& s, std::vector<Node>& nodes, std::vector<Loc>& locs) {{")
    for p, kind, tt, e, dims in rows:
        zero = e
        for i in range(len(dims)):
            zero = zero.replace(f"[i{i}]", "[0]")
        o.append(f'  nodes.push_back({{"{p}", "{kind}", fixed_containers::type_name<{tt}>(), off(s, {zero}), {{' +
                 ", ".join(f"sizeof({x})" for _, x in dims) + "}, {" + ", ".join(str(n) for n, _ in dims) + "}});")
        loop = "".join(f"for (std::size_t i{i} = 0; i{i} < {n}; i{i}++) " for i, (n, _) in enumerate(dims))
        o.append(f'  {loop}locs.push_back({{"{p}", {{' + ", ".join(f"i{i}" for i in range(len(dims))) + f"}}, std::addressof({e})}});")
    o.append("}")
    o.append(f"static const std::set<std::string> all{k}{{" + ", ".join(f'"{p}"' for p in allp) + "};")
    o.append(f"static const std::set<std::string> sub{k}{{" + ", ".join(f'"{p}"' for p in subp) + "};")
    o.append(f"static void run{k}() {{ static {ty} full{{}}, some{{}}, none{{}}; {fill(t, 'full', True)} {fill(t, 'some', False)}")
    o.append(f"  std::vector<Node> nodes; std::vector<Loc> locs; table{k}(full, nodes, locs);")
    for inst in ("full", "some", "none"):
        o.append(f"  {{ sv::StructView view{{{inst}}}; whole({k}, view, full, nodes, locs); }}")
    o.append(f"  {{ sv::StructView view{{{ty}{{}}}}; whole({k}, view, full, nodes, locs); }}")
    o.append(f"  paths_of<{ty}>({k}, all{k}); adding<{ty}>({k}, none, nodes);")
    # sub-structure
    o.append(f"  {{ static {sty} q{{}}; sv::StructView super{{none, q}}; sv::StructView own{{q}}; std::vector<Node> want;")
    o.append(f"    for (const Node& n : nodes) if (sub{k}.contains(n.path)) want.push_back(n);")
    o.append(f"    same_nodes({k}, super, want); CK({k}, own.get_path_map_ref().size() == {len(subrows)});")
    o.append(f"    static unsigned char before[sizeof some]; std::memcpy(before, static_cast<const void*>(&some), sizeof some);")
    o.append(f"    sv::sub_struct_view_of(some, super, fixed_containers::out{{q}}, own); {compare(sub, 'q', 'some', k)}")
    o.append(f"    CK({k}, std::memcmp(before, static_cast<const void*>(&some), sizeof some) == 0); }}")
    o.append(f"  {{ static {sty} q{{}}; sv::StructView super{{full}}; sv::StructView own{{q}};")
    o.append(f"    sv::sub_struct_view_of(full, super, fixed_containers::out{{q}}, own); {compare(sub, 'q', 'full', k)} }}")
    o.append("}")
    return "\n".join(o)


PRE = '#include "fixed_containers/struct_view.hpp"\n' + S.PRE + r'''
#include <algorithm>
#include <map>
namespace sv = fixed_containers::struct_view;
struct Node { std::string path; std::string kind; std::string_view type; std::size_t offset; std::vector<std::size_t> strides, caps; };
struct Loc { std::string path; std::vector<std::size_t> idx; const void* addr; };
static unsigned long tick = 0;
template <class T> void setv(T& x) { ++tick; if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) x = static_cast<T>(tick); }
static void setv(E0& x) { constexpr E0 v[] = {E0::BLUE, E0::RED, E0::GREEN}; x = v[++tick % 3]; }
static void setv(E1& x) { constexpr E1 v[] = {NINE, TWO, MINUS}; x = v[++tick % 3]; }
static std::string_view enum_text(E0 x) { return x == E0::RED ? "RED" : x == E0::GREEN ? "GREEN" : "BLUE"; }
static std::string_view enum_text(E1 x) { return x == TWO ? "TWO" : x == MINUS ? "MINUS" : "NINE"; }
template <class A, class B> std::size_t off(const A& a, const B& b)
{ return static_cast<std::size_t>(reinterpret_cast<const char*>(std::addressof(b)) - reinterpret_cast<const char*>(std::addressof(a))); }
static sv::PathNameChain chain(const std::string& p)
{
    sv::PathNameChain c;
    std::size_t b = 0;
    if (p.empty()) return c;
    while (true)
    {
        const std::size_t e = p.find('.', b);
        c.push_back(std::string_view(p).substr(b, e == std::string::npos ? e : e - b));
        if (e == std::string::npos) return c;
        b = e + 1;
    }
}
static std::string join(const sv::PathNameChain& c)
{
    std::string r;
    for (std::size_t i = 0; i < c.size(); i++) { if (i) r += '.'; r.append(c[i].data(), c[i].size()); }
    return r;
}
template <class V> void same_nodes(int k, const V& view, const std::vector<Node>& nodes)
{
    CK(k, view.get_path_map_ref().size() == nodes.size());
    for (const Node& n : nodes)
    {
        const auto c = chain(n.path);
        CK(k, view.contains(c));
        if (!view.contains(c)) { std::printf("FAIL %d path '%s' is missing\n", k, n.path.c_str()); continue; }
        const auto p = view.at(c);
        const bool ok = p.metadata.metadata_type == n.kind && p.metadata.detail_type == n.type && p.offset.base_offset == n.offset &&
                        p.offset.dim == n.caps.size() && std::ranges::equal(p.offset.strides, n.strides) &&
                        std::ranges::equal(p.offset.capacity, n.caps);
        CK(k, ok);
        if (!ok) std::printf("FAIL %d path '%s': offset %zu, expected %zu\n", k, n.path.c_str(), p.offset.base_offset, n.offset);
    }
}
template <class V, class T> void whole(int k, const V& view, T& s, const std::vector<Node>& nodes, const std::vector<Loc>& locs)
{
    same_nodes(k, view, nodes);
    {
        // no namespace is left over, whatever the reference or cv qualification; the rest of the name is the type's own
        std::string name(fixed_containers::type_name<T>());
        name = name.substr(name.rfind(':') == std::string::npos ? 0 : name.rfind(':') + 1);
        CK(k, sv::type_name_without_namespace<T>() == name && sv::type_name_without_namespace<const T&>() == name);
        CK(k, !name.empty());
    }
    std::map<std::pair<std::string, std::vector<std::size_t>>, const void*> want;
    for (const Loc& l : locs)
    {
        sv::Indices i;
        for (std::size_t x : l.idx) i.push_back(x);
        CK(k, view.get_field(&s, chain(l.path), i) == l.addr);
        want[{l.path, l.idx}] = l.addr;
    }
    const std::size_t total = want.size();
    std::size_t seen = 0;
    sv::for_each_field(view, &s, [&](const sv::PathNameChain& c, const sv::PathProperties& p, const sv::Indices& i, void* f) {
        seen++;
        const auto it = want.find({join(c), std::vector<std::size_t>(i.begin(), i.end())});
        CK(k, it != want.end());
        if (it == want.end()) return;
        CK(k, it->second == f);
        CK(k, p.offset.dim == i.size());
        want.erase(it);
    });
    CK(k, seen == total);
    CK(k, want.empty());
}
template <class T> void paths_of(int k, const std::set<std::string>& all)
{
    CK(k, sv::path_count_of<T>() == all.size());
    const auto ps = sv::extract_paths_of<T>();
    CK(k, ps.size() == all.size());
    for (const auto& c : ps) CK(k, all.contains(join(c)));
    for (const auto& p : all) CK(k, ps.contains(chain(p)));
}
template <class T> void adding(int k, T& s, const std::vector<Node>& nodes)
{
    sv::StructView<> v;
    std::vector<Node> have;
    for (std::size_t i = 0; i < nodes.size(); i += 2)
    {
        CK(k, v.try_add_path(s, chain(nodes[i].path)));
        have.push_back(nodes[i]);
        if (!nodes[i].path.empty())
        {
            const std::string other = nodes[i].path + "#";
            CK(k, !v.try_add_path(s, chain(other)));
            CK(k, !v.contains(chain(other)));
        }
    }
    same_nodes(k, v, have);
    if (!have.empty()) { CK(k, v.template try_add_path<T>(chain(have[0].path))); same_nodes(k, v, have); }
    sv::PathSet<> set;
    std::vector<Node> rest;
    for (std::size_t i = 1; i < nodes.size(); i += 3) { set.insert(chain(nodes[i].path)); rest.push_back(nodes[i]); }
    sv::StructView<> w;
    CK(k, w.try_add_paths(s, std::optional{set}.value()));
    same_nodes(k, w, rest);
    if (set.size() < 90)
    {
        static const std::string none = "no_such_path";
        set.insert(chain(none));
        sv::StructView<> z;
        CK(k, !z.try_add_paths(s, set));
        same_nodes(k, z, {});
    }
}
'''


def render(items):
    out = [PRE]
    for k, it in enumerate(items):
        out.append(one(k, it))
    out.append("int main() {" + " ".join(f"run{k}();" for k in range(len(items))) +
               ' std::printf("COUNT %lu\\n", n_checks); return bad ? 1 : 0; }')
    return "\n".join(out)


def prune(sub, t):
    """The part of sub that still exists in t"""
    if t[0] in ("x",) or sub[0] != t[0] and not (sub[0] == "p" and t[0] == "p"):
        return None
    if sub[0] == "p":
        want = "std::string_view" if t[1] in ("E0", "E1") else t[1]
        return sub if want in sub[1] and not t[1].endswith("*") else None
    if sub[0] in ("a", "v", "o"):
        c = prune(sub[1], t[1])
        return None if c is None else [sub[0], c] + ([t[2]] if t[0] == "a" else [t[2], 0] if t[0] == "v" else [False])
    have = dict((n, x) for n, x in t[1])
    out = []
    for n, x in sub[1]:
        if n in have:
            c = prune(x, have[n])
            if c is not None:
                out.append([n, c])
    return ["s", out, sub[2] and bool(out)]


def shrink(it):
    for y in S.shrink(S.clean(it["def"])):
        y = S.clean(y)
        settle(y)
        s = prune(S.clean(it["sub"]), y)
        if it["t"] == "range" and not s[1]:
            continue
        yield {**it, "def": y, "sub": s}
    for i in range(len(it["sub"][1])):
        if it["t"] == "range" and len(it["sub"][1]) == 1:
            continue
        s = S.clean(it["sub"])
        yield {**it, "sub": ["s", s[1][:i] + s[1][i + 1:], False]}
    if it["t"] == "range" and it["n"] > 1:
        yield {**it, "n": it["n"] - 1}


def nontrivial(it):
    return len(it["def"][1]) >= 2


def labels(it):
    l = [it["t"]] + ([it["cont"]] if it["t"] == "range" else [])
    if it["t"] == "struct":
        l += [n for n, kk in (("nested", "s"), ("array", "a"), ("vector", "v"), ("optional", "o"))
              if any(S.has(x, {kk}) for _, x in it["def"][1])]
        l.append(f"{S.dims(it['def'])} dimensions")
    if it["sub"][1]:
        l.append("sub-structure")
    return l


def describe(it):
    return ("range of " if it["t"] == "range" else "") + S.text(it["def"]) + " -> " + S.text(it["sub"])
