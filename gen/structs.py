"""Random struct definitions shared by the reflection and struct-view generators.

A type is one of
  ["p", cpp]                primitive, enum, duration, bitset, pointer to a primitive, string_view
  ["x", cpp]                a type recursive reflection does not descend into and does not visit
  ["c", cpp, n]             C array of primitives (one leaf)
  ["a", T, n]               std::array<T, n>
  ["v", T, n, filled]       FixedVector<T, n> holding `filled` elements
  ["o", T, engaged]         std::optional<T>
  ["s", [[name, T]...], base]  struct; base: all fields sit in a base class of it"""

PRIMS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
         "float", "double", "bool", "E0", "E1", "std::chrono::milliseconds", "std::bitset<7>", "std::bitset<65>", "char16_t",
         "long double"]
PTRS = ["const int *", "double *", "const bool *", "char *"]
NAMES = ["a", "b", "x", "value", "data", "size", "first", "second", "name", "id", "aa", "ab", "a_", "red", "green", "k", "t", "f",
         "instance", "field", "chain", "mA", "index", "data_", "has_value", "n0", "n1", "n2", "n3", "n4", "long_name_of_a_field_"]


def names(rng, n):
    out = []
    while len(out) < n:
        x = rng.choice(NAMES)
        if rng.random() < 0.3:
            x += rng.choice("abx019_")
        if x not in out:
            out.append(x)
    return out


def elem_type(rng, depth, o):
    return make_type(rng, depth, {**o, "allow": o["allow"] - {"c"}}) if "c" in o["allow"] else make_type(rng, depth, o)


def make_type(rng, depth, o):
    """o: options dict(allow=set of kinds, ptrs=bool, sv=bool)"""
    r = rng.random()
    if depth > 0:
        kinds = [k for k in ("s", "s", "a", "v", "v", "o") if k in o["allow"]]
        if kinds and r < 0.45:
            k = rng.choice(kinds)
            if k == "s":
                return make_struct(rng, depth - 1, o)
            if k == "a":
                return ["a", elem_type(rng, depth - 1, o), rng.randint(1, 4)]
            if k == "v":
                n = rng.randint(1, 4)
                return ["v", elem_type(rng, depth - 1, o), n, rng.randint(0, n)]
            return ["o", elem_type(rng, depth - 1, o), rng.random() < 0.5]
    if r > 0.93 and "x" in o["allow"]:
        return ["x", rng.choice(["Other *", "std::byte *", "std::nullptr_t"])]
    if r > 0.86 and "c" in o["allow"]:
        return ["c", rng.choice(["int", "char", "double"]), rng.randint(1, 5)]
    if r > 0.80 and o.get("ptrs"):
        return ["p", rng.choice(PTRS)]
    if r > 0.75 and o.get("sv"):
        return ["p", "std::string_view"]
    return ["p", rng.choice(PRIMS)]


def make_struct(rng, depth, o, lo=0, hi=6):
    n = rng.randint(lo, hi)
    return ["s", [[nm, make_type(rng, depth, o)] for nm in names(rng, n)], rng.random() < 0.12 and n > 0]


class Defs:
    """Collects the C++ definitions of the structs of one item"""

    def __init__(self, prefix):
        self.prefix, self.n, self.out = prefix, 0, []

    def ty(self, t):
        k = t[0]
        if k in ("p", "x"):
            return t[1]
        if k == "a":
            return f"std::array<{self.ty(t[1])}, {t[2]}>"
        if k == "v":
            return f"fixed_containers::FixedVector<{self.ty(t[1])}, {t[2]}>"
        if k == "o":
            return f"std::optional<{self.ty(t[1])}>"
        if k == "s":
            if len(t) > 3 and t[3]:
                return t[3]
            body = []
            for nm, ft in t[1]:
                if ft[0] == "c":
                    body.append(f"  {ft[1]} {nm}[{ft[2]}];")
                else:
                    body.append(f"  {self.ty(ft)} {nm};")
            name = f"{self.prefix}{self.n}"
            self.n += 1
            if t[2]:
                self.out.append(f"struct {name}_base {{\n" + "\n".join(body) + f"\n}};\nstruct {name} : {name}_base {{}};")
            else:
                self.out.append(f"struct {name} {{\n" + "\n".join(body) + "\n};")
            while len(t) < 4:
                t.append(None)
            t[3] = name
            return name
        raise ValueError(k)


def clean(t):
    """A copy without the names assigned by Defs"""
    k = t[0]
    if k in ("p", "x", "c"):
        return list(t)
    if k == "a":
        return ["a", clean(t[1]), t[2]]
    if k == "v":
        return ["v", clean(t[1]), t[2], t[3]]
    if k == "o":
        return ["o", clean(t[1]), t[2]]
    return ["s", [[n, clean(x)] for n, x in t[1]], t[2]]


def has(t, kinds):
    if t[0] in kinds:
        return True
    if t[0] in ("a", "v", "o"):
        return has(t[1], kinds)
    if t[0] == "s":
        return any(has(x, kinds) for _, x in t[1])
    return False


def count(t):
    """Number of visited paths"""
    if t[0] == "x":
        return 0
    if t[0] in ("p", "c"):
        return 1
    if t[0] in ("a", "v", "o"):
        return 1 + count(t[1])
    return 1 + sum(count(x) for _, x in t[1])


def depth(t):
    if t[0] in ("p", "c", "x"):
        return 0
    if t[0] in ("a", "v", "o"):
        return 1 + depth(t[1])
    return 1 + max([depth(x) for _, x in t[1]] or [0])


def dims(t):
    d = 1 if t[0] in ("a", "v") else 0
    if t[0] in ("a", "v", "o"):
        return d + dims(t[1])
    if t[0] == "s":
        return max([dims(x) for _, x in t[1]] or [0])
    return 0


def shrink(t):
    k = t[0]
    if k == "s":
        for i in range(len(t[1])):
            yield ["s", t[1][:i] + t[1][i + 1:], t[2] and len(t[1]) > 1]
        if t[2]:
            yield ["s", t[1], False]
        for i, (n, x) in enumerate(t[1]):
            for y in shrink(x):
                yield ["s", t[1][:i] + [[n, y]] + t[1][i + 1:], t[2]]
    elif k in ("a", "v", "o"):
        yield ["p", "int"]
        for y in shrink(t[1]):
            yield [k, y] + t[2:]
        if k == "a" and t[2] > 1:
            yield ["a", t[1], t[2] - 1]
        if k == "v" and t[2] > 1 and t[3] < t[2]:
            yield ["v", t[1], t[2] - 1, t[3]]
        if k == "v" and t[3] > 0:
            yield ["v", t[1], t[2], t[3] - 1]
    elif k in ("p", "x", "c") and t != ["p", "int"]:
        yield ["p", "int"]


def text(t):
    k = t[0]
    if k in ("p", "x"):
        return t[1].strip()
    if k == "c":
        return f"{t[1]}[{t[2]}]"
    if k == "a":
        return f"array<{text(t[1])},{t[2]}>"
    if k == "v":
        return f"vec<{text(t[1])},{t[3]}/{t[2]}>"
    if k == "o":
        return f"opt<{text(t[1])}{'' if t[2] else ' empty'}>"
    return ("base:" if t[2] else "") + "{" + "; ".join(f"{text(x)} {n}" for n, x in t[1]) + "}"


def fill(t, e, depth=0):
    """Statements that bring the (value-initialised) object `e` to its state"""
    k = t[0]
    if k == "s":
        return "".join(fill(x, f"{e}.{n}", depth) for n, x in t[1])
    if k == "a":
        b = fill(t[1], f"e{depth}", depth + 1)
        return f"for (auto& e{depth} : {e}) {{ {b} }} " if b else ""
    if k == "v":
        b = fill(t[1], f"e{depth}", depth + 1)
        return f"{e}.resize({t[3]}); " + (f"for (auto& e{depth} : {e}) {{ {b} }} " if b else "")
    if k == "o" and t[2]:
        return f"{e}.emplace(); " + fill(t[1], f"(*{e})", depth)
    return ""


CKDEF = r'''static unsigned long n_checks = 0;
static int bad = 0;
#define CK(k, ...) do { ++n_checks; if (!(__VA_ARGS__)) { if (bad++ < 20) std::printf("FAIL %d line %d: %s\n", int(k), __LINE__, #__VA_ARGS__); } } while (0)
'''
PRE = r'''
#include <array>
#include <bitset>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <typeinfo>
#include <vector>
''' + CKDEF + r'''
enum class E0 : unsigned char { RED, GREEN, BLUE };
enum E1 : int { TWO = 2, MINUS = -5, NINE = 9 };
struct Other { int q; };
'''
