"""Generated structs: reflection must report their fields, hand out their members, and visit their paths."""
from gen import structs as S
import gen.structs

FLAGS = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DFIXED_CONTAINERS_EXTENDED_STRUCT_DECOMPOSITION_1024=1", "-O0"]


def flags(items):
    return FLAGS[2:] if all(i["t"] == "decomp" for i in items) else FLAGS


OPTS = dict(allow={"s", "a", "v", "o", "x", "c"}, ptrs=True, sv=True)


def make(rng, size):
    if rng.random() < 0.2:  # many fields, flat
        n = rng.choice([rng.randint(1, 40), rng.randint(1, 128)])
        return {"t": "wide", "types": [rng.choice(S.PRIMS + S.PTRS) for _ in range(n)], "stem": rng.choice(["f", "x_", "m", "field"])}
    if rng.random() < 0.15:  # hierarchy: fields in bases and in the derived class
        lv = [S.make_struct(rng, 1, OPTS, 0, 3) for _ in range(rng.randint(2, 4))]
        nm = S.names(rng, sum(len(x[1]) for x in lv))
        shadow = rng.random() < 0.5  # a class may declare a field of the same name as one of its base
        if rng.random() < 0.2:  # all fields in one class of the hierarchy: these can be decomposed
            keep = rng.randrange(len(lv))
            for i, l in enumerate(lv):
                if i != keep:
                    l[1] = []
        for l in lv:
            l[2] = False
            if shadow:
                pool = nm[:max(2, len(l[1]))]
                rng.shuffle(pool)
            for f in l[1]:
                f[0] = pool.pop() if shadow else nm.pop()
        return {"t": "bases", "levels": lv, "multi": rng.random() < 0.4}
    while True:
        t = S.make_struct(rng, 1 + int(2.99 * size), OPTS, 0, 7)
        if S.count(t) <= 60 and S.depth(t) <= 7:
            return {"t": "struct", "def": t}


def fixed():
    """All field counts, spread so that the programs take similar time"""
    return [[{"t": "decomp", "counts": list(range(1 + i, 1025, 12))}] for i in range(12)]


def visits(t, e, path, out, d, live):
    k = t[0]
    p = ".".join(path)
    if k == "x":
        return
    ty = f"{t[1]}[{t[2]}]" if k == "c" else d.ty(t)
    addr = f"reinterpret_cast<const void*>(std::addressof({e}))" if live else "nullptr"
    row = f'{{{{}}, "{p}", {addr}, &typeid({ty}), sizeof({ty})}}'
    out.append(row.replace("{}", "true", 1).replace("{true}", "true"))
    if k == "s":
        for n, x in t[1]:
            visits(x, f"{e}.{n}", path + [n], out, d, live)
    elif k in ("a", "v"):
        l = live and (k == "a" or t[3] > 0)
        visits(t[1], f"{e}.data()[0]" if l else "", path + ["data[:]"], out, d, l)
    elif k == "o":
        visits(t[1], f"{e}.value()", path + ["value()"], out, d, live and t[2])
    out.append(row.replace("{}", "false", 1).replace("{false}", "false"))


def state(t, e, k):
    """Checks that the containers of e are as filled"""
    o = []
    if t[0] == "s":
        for n, x in t[1]:
            o += state(x, f"{e}.{n}", k)
    elif t[0] == "v":
        o.append(f"CK({k}, {e}.size() == {t[3]});")
        if t[3]:
            o += state(t[1], f"{e}.front()", k)
    elif t[0] == "a":
        o += state(t[1], f"{e}.front()", k)
    elif t[0] == "o":
        o.append(f"CK({k}, {e}.has_value() == {'true' if t[2] else 'false'});")
        if t[2]:
            o += state(t[1], f"(*{e})", k)
    return o


def fields_code(k, ty, fields, d, flat=True, expr="s"):
    """Checks of field count, names and for_each_field; fields: [(name, cpp type)]"""
    n = len(fields)
    o = [f"static_assert(rf::field_count_of<{ty}>() == {n});", f"static_assert(rf::field_count_of<const {ty}&>() == {n});",
         f"static_assert(rf::field_count_of<{ty}&&>() == {n});",
         f"static_assert(rf::field_names_of<{ty}>().size() == {n});"]
    for i, (nm, _) in enumerate(fields):
        o.append(f'static_assert(rf::field_names_of<{ty}>()[{i}] == std::string_view("{nm}"));')
    if not flat:
        return o
    o.append(f"{{ std::size_t i = 0; const void* A[] = {{nullptr" +
             "".join(f", reinterpret_cast<const void*>(std::addressof({expr}.{nm}))" for nm, _ in fields) + "};")
    o.append(" const std::type_info* T[] = {nullptr" + "".join(f", &typeid({t})" for _, t in fields) + "};")
    o.append(" const char* N[] = {nullptr" + "".join(f', "{nm}"' for nm, _ in fields) + "};")
    o.append(f" rf::for_each_field({expr}, [&]<class F>(const std::string_view& name, F& f) {{ ++i; CK({k}, i <= {n}); if (i > {n}) return;"
             f" CK({k}, name == N[i]); CK({k}, static_cast<const void*>(std::addressof(f)) == A[i]); CK({k}, typeid(F) == *T[i]);"
             f" CK({k}, !std::is_const_v<F>); }}); CK({k}, i == {n});")
    o.append(f" i = 0; rf::for_each_field(std::as_const({expr}), [&]<class F>(const std::string_view& name, F& f) {{ ++i; CK({k}, i <= {n}); if (i > {n}) return;"
             f" CK({k}, name == N[i]); CK({k}, static_cast<const void*>(std::addressof(f)) == A[i]); CK({k}, std::is_const_v<std::remove_all_extents_t<F>>); }}); CK({k}, i == {n}); }}")
    return o


def one(k, it):
    d = S.Defs(f"g{k}_")
    o = []
    if it["t"] == "decomp":
        o.append(f"static void run{k}() {{")
        for c in it["counts"]:
            o.append(f"  decomp<{c}>({k});")
        o.append("}")
        return "\n".join(o)
    if it["t"] == "wide":
        fl = [(f"{it['stem']}{i}", t) for i, t in enumerate(it["types"])]
        o.append(f"struct W{k} {{ " + " ".join(f"{t} {n};" for n, t in fl) + " };")
        o.append(f"static void run{k}() {{ static W{k} s{{}};")
        o += fields_code(k, f"W{k}", fl, d)
        o.append("}")
        return "\n".join(o)
    if it["t"] == "bases":
        allf, prev = [], None
        body = []
        for i, l in enumerate(it["levels"]):
            l = S.clean(l)
            fs = []
            for nm, ft in l[1]:
                if ft[0] == "c":
                    fs.append((nm, f"{ft[1]}[{ft[2]}]", f"{ft[1]} {nm}[{ft[2]}];"))
                else:
                    fs.append((nm, d.ty(ft), f"{d.ty(ft)} {nm};"))
            last = i == len(it["levels"]) - 1
            if it["multi"]:
                bases = " : " + ", ".join(f"H{k}_{j}" for j in range(i)) if last and i else ""
            else:
                bases = f" : H{k}_{i-1}" if i else ""
            body.append(f"struct H{k}_{i}{bases} {{ " + " ".join(x[2] for x in fs) + " };")
            allf += [(x[0], x[1]) for x in fs]
        o += d.out + body
        top = f"H{k}_{len(it['levels'])-1}"
        own = sum(1 for l in it["levels"] if l[1])
        o.append(f"struct HO{k} {{ int HOb; {top} {allf[0][0] if allf else 'h'}; {top} HOl; short HOa; }};")
        o.append(f"static void run{k}() {{ static {top} s{{}}; static HO{k} ho{{}}; (void)s;")
        o += fields_code(k, top, allf, d, flat=own == 1)
        o += fields_code(k, f"HO{k}", [("HOb", "int"), (allf[0][0] if allf else "h", top), ("HOl", top), ("HOa", "short")], d, expr="ho")
        o.append(f"n_checks += {len(allf)}; }}")
        return "\n".join(o)
    t = S.clean(it["def"])
    ty = d.ty(t)
    fl = [(n, f"{x[1]}[{x[2]}]" if x[0] == "c" else d.ty(x)) for n, x in t[1]]
    rows = []
    visits(t, "s", [], rows, d, True)
    o += d.out
    o.append(f"static void run{k}() {{ static {ty} s{{}}; {S.fill(t, 's')}")
    o += fields_code(k, ty, fl, d)
    o.append(f"{{ const std::vector<Visit> want{{ " + ",\n   ".join(rows) + " };")
    o.append(f" dfs({k}, s, want); }}")
    o += state(t, "s", k)
    if not S.has(t, {"o", "v"}):
        o.append(f"{{ const std::vector<Visit> want{{ " + ",\n   ".join(rows) + f" }}; dfs({k}, std::as_const(s), want); }}")
    o.append("}")
    return "\n".join(o)


DECOMP = r'''
template <std::size_t C> static void decomp(int k)
{
    static char a[C];
    bool called = false;
    fixed_containers::struct_decomposition::to_parameter_pack<C>(a, [&](auto&... xs) {
        called = true;
        char* p[] = {&xs...};
        std::size_t wrong = sizeof...(xs) != C;
        for (std::size_t i = 0; i < C && i < sizeof...(xs); i++) wrong += p[i] != a + i;
        CK(k, wrong == 0);
        if (wrong) std::printf("FAIL %d decomposition into %zu fields\n", k, C);
        return true;
    });
    CK(k, called);
}
'''
PRE = '#include "fixed_containers/fixed_vector.hpp"\n#include "fixed_containers/reflection.hpp"\n#include "fixed_containers/recursive_reflection.hpp"\n' + S.PRE + r'''
namespace rf = fixed_containers::reflection;
namespace rr = fixed_containers::recursive_reflection;
struct Visit { bool pre; std::string path; const void* addr; const std::type_info* type; std::size_t size; };
static std::string join(const rr::PathNameChain& c)
{
    std::string r;
    for (std::size_t i = 0; i < c.size(); i++) { if (i) r += '.'; r.append(c[i].data(), c[i].size()); }
    return r;
}
template <class T> static void dfs(int k, T& s, const std::vector<Visit>& want)
{
    std::size_t i = 0, bad_at = 0, open = 0;
    auto see = [&](bool pre, const auto& chain, auto& f) {
        using F = std::remove_cvref_t<decltype(f)>;
        CK(k, i < want.size());
        if (i >= want.size()) return;
        const Visit& w = want[i++];
        const std::string p = join(chain);
        const bool ok = w.pre == pre && w.path == p && *w.type == typeid(F) && w.size == sizeof(F) &&
                        (w.addr == nullptr || w.addr == static_cast<const void*>(std::addressof(f)));
        if (!ok && !bad_at) { bad_at = i; std::printf("FAIL %d visit %zu: %s '%s', expected %s '%s'\n", k, i, pre ? "enter" : "leave", p.c_str(), w.pre ? "enter" : "leave", w.path.c_str()); }
        CK(k, ok);
        open += pre ? 1 : -1;
        if (!p.empty() && p.size() < 200)
        {
            const auto parsed = rr::path_from_string(p);
            CK(k, parsed == chain);
            CK(k, rr::path_to_string<std::string>(chain) == p);
        }
    };
    rr::for_each_path_dfs(s, [&](const auto& c, auto& f) { see(true, c, f); }, [&](const auto& c, auto& f) { see(false, c, f); });
    CK(k, i == want.size());
    CK(k, open == 0);
    i = 0;
    rr::for_each_path_dfs(s, [&](const auto& c, auto& f) {
        while (i < want.size() && !want[i].pre) i++;
        see(true, c, f);
    });
    while (i < want.size() && !want[i].pre) i++;
    CK(k, i == want.size());
}
'''


def render(items):
    only = all(i["t"] == "decomp" for i in items)
    out = ['#include "fixed_containers/struct_decomposition.hpp"\n#include <cstdio>\n' + S.CKDEF if only else PRE, DECOMP]
    for k, it in enumerate(items):
        out.append(one(k, it))
    out.append("int main() {" + " ".join(f"run{k}();" for k in range(len(items))) +
               ' std::printf("COUNT %lu\\n", n_checks); return bad ? 1 : 0; }')
    return "\n".join(out)


def shrink(it):
    if it["t"] == "decomp":
        c = it["counts"]
        if len(c) > 1:
            yield {**it, "counts": c[:len(c) // 2]}
            yield {**it, "counts": c[len(c) // 2:]}
    elif it["t"] == "wide":
        n = len(it["types"])
        if n > 1:
            yield {**it, "types": it["types"][:n // 2]}
            yield {**it, "types": it["types"][:-1]}
        for i, t in enumerate(it["types"]):
            if t != "int":
                yield {**it, "types": ["int"] * n}
                break
    elif it["t"] == "bases":
        if len(it["levels"]) > 1:
            for i in range(len(it["levels"])):
                yield {**it, "levels": it["levels"][:i] + it["levels"][i + 1:]}
        for i, l in enumerate(it["levels"]):
            for y in S.shrink(l):
                yield {**it, "levels": it["levels"][:i] + [y] + it["levels"][i + 1:]}
    else:
        for y in S.shrink(it["def"]):
            yield {**it, "def": y}


def nontrivial(it):
    if it["t"] == "struct":
        return len(it["def"][1]) >= 2
    if it["t"] == "wide":
        return len(it["types"]) >= 2
    return True


def labels(it):
    l = [it["t"]]
    if it["t"] == "struct":
        l += [n for n, kk in (("nested", "s"), ("array", "a"), ("vector", "v"), ("optional", "o"), ("C array", "c"))
              if any(S.has(x, {kk}) for _, x in it["def"][1])]
        l.append(f"depth {S.depth(it['def'])}")
    return l


def describe(it):
    if it["t"] == "decomp":
        return "decomposition into " + ",".join(map(str, it["counts"][:10])) + (" ..." if len(it["counts"]) > 10 else "") + " fields"
    if it["t"] == "wide":
        return f"struct of {len(it['types'])} fields: " + " ".join(it["types"][:8])
    if it["t"] == "bases":
        return ("multiple" if it["multi"] else "chained") + " bases: " + " / ".join(S.text(l) for l in it["levels"])
    return "struct " + S.text(it["def"])
