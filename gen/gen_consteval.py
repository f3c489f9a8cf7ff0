"""C16: random operation sequences, evaluated in constant expressions, at run time, and on the std counterparts."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-O0", "-fconstexpr-steps=400000000", "-fconstexpr-depth=4096", "-fbracket-depth=2048", "-D_GLIBCXX_ASSERTIONS"]

# kind -> number of operation codes
NCODES = {"seq": 26, "str": 21, "assoc": 19, "adp": 21}
# element types: (name, can live in a constexpr variable, structural)
ELEMS = {"int": (1, 1), "ce::Pt": (1, 1), "unsigned char": (1, 1), "ce::Str": (1, 1), "ce::Vec": (1, 1), "ce::Box": (0, 0), "ce::Own": (0, 0), "ce::Fix": (1, 1)}


def configs():
    out = []
    for elem, (lit, struct_) in ELEMS.items():
        for kind, tmpl in ((0, "FixedVector"), (1, "FixedDeque"), (1, "FixedCircularDeque"), (2, "FixedList")):
            for cap in (0, 1, 3, 6):
                if elem in ("unsigned char", "ce::Fix") or (cap == 0 and (tmpl == "FixedCircularDeque" or elem != "int")):
                    continue
                circ = "true" if tmpl == "FixedCircularDeque" else "false"
                out.append(dict(kind="seq", type=f"ce::fc::{tmpl}<{elem}, {cap}>", model=f"std::list<ce::Shadow<{elem}>>",
                                run=f"ce::SeqRun<{kind}, {elem}, {cap}, {circ}>", lit=lit, struct=struct_))
    for cap in (1, 4, 13):
        out += [dict(kind="str", type=f"ce::fc::FixedString<{cap}>", model="std::string", run=f"ce::StrRun<{cap}>", lit=1, struct=1)] * 3
    for elem in ("int", "ce::Pt", "ce::Box", "ce::Str"):
        lit, st = ELEMS[elem]
        for cap in (1, 4):
            for tmpl, std, circ in (("FixedStack", "std::stack", 0), ("FixedQueue", "std::queue", 0), ("FixedCircularQueue", "std::queue", 1)):
                out.append(dict(kind="adp", type=f"ce::fc::{tmpl}<{elem}, {cap}>", model=f"{std}<ce::Shadow<{elem}>>",
                                run=f"ce::AdpRun<{cap}, {'true' if circ else 'false'}>", lit=lit, struct=st))
    K = {"int": (1, 1), "ce::Pt": (1, 1), "ce::Str": (1, 1), "std::string_view": (1, 0), "ce::Box": (0, 0)}
    V = {"int": (1, 1), "ce::Pt": (1, 1), "ce::Box": (0, 0), "ce::Own": (0, 0), "ce::Str": (1, 1), "ce::Fix": (1, 1)}
    for k, (kl, ks) in K.items():
        for cap in (1, 4, 9):
            for lay in ("DEFAULT", "COMPACT"):
                sto = [f"ce::fc::FixedIndexBasedPoolStorage", f"ce::fc::FixedIndexBasedContiguousStorage"]
                for st in sto:
                    for v, (vl, vs) in V.items():
                        out.append(dict(kind="assoc", type=f"ce::fc::FixedMap<{k}, {v}, {cap}, std::less<{k}>, ce::fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::{'EMBEDDED_COLOR' if lay == 'COMPACT' else 'DEDICATED_COLOR'}, {st}>",
                                        model=f"std::map<ce::Shadow<{k}>, ce::Shadow<{v}>>", run=f"ce::AssocRun<{v}, {cap}, true>", lit=kl & vl, struct=ks & vs, w=0.15))
                    out.append(dict(kind="assoc", type=f"ce::fc::FixedSet<{k}, {cap}, std::less<{k}>, ce::fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::{'EMBEDDED_COLOR' if lay == 'COMPACT' else 'DEDICATED_COLOR'}, {st}>",
                                    model=f"std::set<ce::Shadow<{k}>>", run=f"ce::AssocRun<int, {cap}, true>", lit=kl, struct=ks, w=0.4))
    for k, h, (kl, ks) in (("int", "", (1, 1)), ("int", "ce::BadHash", (1, 1)), ("std::string_view", "ce::ViewHash", (1, 0)), ("ce::Box", "ce::BoxHash", (0, 0)), ("ce::Col", "", (1, 1))):
        hh = f", {h}" if h else ""
        for cap in (1, 4, 9):
            for v, (vl, vs) in V.items():
                out.append(dict(kind="assoc", type=f"ce::fc::FixedUnorderedMap<{k}, {v}, {cap}{hh}>", model=f"std::map<ce::Shadow<{k}>, ce::Shadow<{v}>>",
                                run=f"ce::AssocRun<{v}, {cap}, false>", lit=kl & vl, struct=ks & vs, w=0.4))
            out.append(dict(kind="assoc", type=f"ce::fc::FixedUnorderedSet<{k}, {cap}{hh}>", model=f"std::set<ce::Shadow<{k}>>",
                            run=f"ce::AssocRun<int, {cap}, false>", lit=kl, struct=ks, w=1))
    for v, (vl, vs) in V.items():
        out.append(dict(kind="assoc", type=f"ce::fc::EnumMap<ce::Col, {v}>", model=f"std::map<ce::Col, ce::Shadow<{v}>>", run=f"ce::AssocRun<{v}, 5, true, false>", lit=vl, struct=vs))
    out += [dict(kind="assoc", type="ce::fc::EnumSet<ce::Col>", model="std::set<ce::Col>", run="ce::AssocRun<int, 5, true, false>", lit=1, struct=1)] * 3
    return out


def capacity(t):
    name, args = t.split("<", 1)
    args = [a.strip(" >") for a in args.split(",")]
    i = {"FixedMap": 2, "FixedUnorderedMap": 2, "FixedString": 0}.get(name.split("::")[-1], 1)
    return None if "Enum" in name else int(args[i])


CONFIGS = configs()
GROUPS = {}
for i, c in enumerate(CONFIGS):
    GROUPS.setdefault(c["type"].split("<")[0], []).append(i)


WEIGHT = {"ce::Box": 4, "ce::Own": 3, "ce::Fix": 1}


def sequence(rng, i, size):
    c = CONFIGS[i]
    n = rng.randint(2, 8 + int(24 * size))
    nc = NCODES[c["kind"]]
    hot = [rng.randrange(nc) for _ in range(3)]
    grow = {"seq": [0, 1, 3, 5, 6, 8], "str": [0, 2, 5, 6], "assoc": [0, 1, 3, 4, 5], "adp": [0, 1, 2]}[c["kind"]]
    ops = []
    for _ in range(n):
        r = rng.random()
        code = rng.choice(grow) if r < 0.4 else rng.choice(hot) if r < 0.6 else rng.randrange(nc)
        ops.append([code, rng.randrange(24), rng.randrange(24), rng.randrange(30), 1 if rng.random() < 0.12 else 0])
    return {"config": i, "type": c["type"], "ops": ops, "split": rng.randint(0, n)}


_deck = {}


def make_program(rng, per):
    """A few configurations, several sequences each; containers and element types are dealt evenly."""
    items = []
    for _ in range(max(1, per // 8)):
        deck = _deck.setdefault(id(rng), [])
        if not deck:
            deck += sorted(GROUPS)
            rng.shuffle(deck)
        idx = GROUPS[deck.pop()]
        w = [max(v for k, v in list(WEIGHT.items()) + [("", 1)] if k in CONFIGS[i]["type"]) for i in idx]
        i = rng.choices(idx, w)[0]
        items += [sequence(rng, i, k / 7) for k in range(8)]
    return items


def make(rng, size):
    g = rng.choice(sorted(GROUPS))
    return sequence(rng, rng.choice(GROUPS[g]), size)


def render(items):
    src = [f'#include "{HERE}/harness/consteval.hpp"']
    body, used = [], []
    for k, it in enumerate(items):
        c = CONFIGS[it["config"]]
        # a set target bit swaps the two containers before and after the operation
        ops = []
        swap = {"seq": 16, "str": 15, "assoc": 13, "adp": 17}[c["kind"]]
        for o in it["ops"]:
            ops += [[swap, 0, 0, 0], o[:4], [swap, 0, 0, 0]] if o[4] else [o[:4]]
        n = len(ops)
        split = min(it["split"], n)
        if it["config"] not in used:
            used.append(it["config"])
            u = it["config"]
            src += [f"using C{u} = {c['type']};", f"using M{u} = {c['model']};", f"using R{u} = {c['run']};"]
            cap = capacity(c["type"])
            if cap is not None:
                body.append(f"    ok &= ce::capacity_is<C{u}, {cap}>({k});")
        u = it["config"]
        src.append(f"static constexpr ce::Op OPS{k}[] = {{" + ", ".join("{%d, %d, %d, %d}" % tuple(o) for o in ops + [[0, 0, 0, 0]]) + "};")
        src.append(f"static constexpr ce::u64 AT_COMPILE_TIME{k} = ce::whole<R{u}, C{u}, false>(OPS{k}, {n});")
        body.append(f"    ok &= ce::judge<R{u}, C{u}, M{u}>({k}, OPS{k}, {n}, AT_COMPILE_TIME{k});")
        if c["lit"]:
            src.append(f"static constexpr auto PART{k} = ce::prefix<R{u}, C{u}>(OPS{k}, {split});")
            body.append(f"    ok &= ce::judge_split<R{u}, C{u}, M{u}>({k}, OPS{k}, {n}, PART{k}, {split});")
            if c["struct"] and k % 4 == 0:
                last = {}
                for j in range(k):
                    if items[j]["config"] == u and j % 4 == 0:
                        last = {"j": j}
                if last:
                    body.append(f"    ok &= ce::compared<PART{k}.s, PART{last['j']}.s>({k});")
                src.append(f"static constexpr auto AGAIN{k} = ce::prefix<R{u}, C{u}>(OPS{k}, {split});")
                src.append(f"static_assert(std::is_same_v<ce::Arg<PART{k}.s>, ce::Arg<AGAIN{k}.s>>);")
                body.append(f"    ok &= ce::report({k}, \"read back from a template argument / constant\", ce::Arg<PART{k}.s>::digest<R{u}>(), ce::digest_of<R{u}, C{u}>(PART{k}.s));")
    src += ["int main()", "{", "    bool ok = true;"] + body
    src += ["    std::printf(\"COUNT %llu\\n\", static_cast<unsigned long long>(ce::evaluations));", "    return ok ? 0 : 1;", "}"]
    return "\n".join(src) + "\n"


def shrink(it):
    n = len(it["ops"])
    for step in (max(1, n // 2), max(1, n // 4), 1):
        for k in range(0, n, step):
            ops = it["ops"][:k] + it["ops"][k + step:]
            yield dict(it, ops=ops, split=min(it["split"], len(ops)))
    if it["split"]:
        yield dict(it, split=0)
    for k in range(n):
        for f in (4, 1, 2, 3):
            if it["ops"][k][f]:
                ops = [list(o) for o in it["ops"]]
                ops[k][f] = 0
                yield dict(it, ops=ops)


def nontrivial(it):
    return len(it["ops"]) >= 4


def describe(it):
    return f"{it['type']}: {len(it['ops'])} operations {it['ops'][:12]}, split at {it['split']}"


def labels(it):
    return [it["type"].split("<")[0].split("::")[-1]]


def fixed():
    return []
