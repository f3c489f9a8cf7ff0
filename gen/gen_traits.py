"""C19: random element types (kind of each special member x layout x noexcept); traits and behaviour of every container of them."""
import itertools, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-O0", "-D_GLIBCXX_ASSERTIONS"]
CC = {"d": "{n}(const {n}&) = default;", "u": "constexpr {n}(const {n}& o) noexcept({cnx}) : v(o.v) {{ tr::note(tr::copies); }}", "x": "{n}(const {n}&) = delete;"}
MC = {"d": "{n}({n}&&) = default;", "u": "constexpr {n}({n}&& o) noexcept({nx}) : v(o.v) {{ tr::note(tr::moves); }}", "x": "{n}({n}&&) = delete;", "-": ""}
CA = {"d": "{n}& operator=(const {n}&) = default;", "u": "constexpr {n}& operator=(const {n}& o) noexcept({cnx}) {{ v = o.v; tr::note(tr::copy_assigns); return *this; }}", "x": "{n}& operator=(const {n}&) = delete;"}
MA = {"d": "{n}& operator=({n}&&) = default;", "u": "constexpr {n}& operator=({n}&& o) noexcept({nx}) {{ v = o.v; return *this; }}", "x": "{n}& operator=({n}&&) = delete;", "-": ""}
D = {"d": "~{n}() = default;", "u": "constexpr ~{n}() {{}}"}
DC = {"d": "{n}() = default;", "u": "constexpr {n}() : v(77) {{}}", "-": ""}
# name: (before the struct body's members, structural, members after v)
LAYOUT = {"plain": (1, ""), "const": (1, "const int w = 3;"), "private": (0, "private: int w = 4; public: constexpr int peek() const {{ return w; }}"),
          "big": (1, "int w[5] = {{}}; double d = 0;"), "aligned": (1, "alignas(32) int w = 1;"), "byte": (1, "unsigned char w = 2;"), "mutable": (0, "mutable int w = 5;")}


def sane(it):
    # an explicitly deleted move next to a copy, or a deleted move assignment next to a copy assignment, is left out
    if it["mc"] == "x" and it["cc"] != "x":
        return False
    if it["ma"] == "x" and it["ca"] != "x":
        return False
    if it["cc"] == "x" and it["mc"] in ("-", "x"):
        return it["ca"] == "x" and it["ma"] in ("-", "x")  # neither copied nor moved
    return True


ALL = [dict(cc=a, mc=b, ca=c, ma=d, d=e) for a, b, c, d, e in itertools.product(CC, MC, CA, MA, D)]
ALL = [i for i in ALL if sane(i)]


def make(rng, size):
    it = dict(rng.choice(ALL))
    if rng.random() < 0.3:
        it.update(rng.choice([dict(cc="d", mc="d", ca="d", ma="d", d="d"), dict(cc="u", mc="u", ca="u", ma="u", d="u"), dict(cc="x", mc="u", ca="x", ma="u", d="u"),
                              dict(cc="x", mc="d", ca="x", ma="d", d="d"), dict(cc="u", mc="d", ca="u", ma="d", d="d"), dict(cc="d", mc="d", ca="x", ma="-", d="d")]))
    it["dc"] = rng.choice(list(DC))
    it["layout"] = rng.choice(list(LAYOUT))
    it["nx"] = rng.choice(["mc", "m", "c", ""])
    it["cap"] = rng.choice([1, 2, 3, 3, 5, 8, 17])
    return it


def fixed():
    """Every combination of special members once, the rest of the choices in rotation."""
    out, dcs, lays = [], list(DC), list(LAYOUT)
    items = []
    for k, i in enumerate(ALL):
        items.append(dict(i, dc=dcs[k % 3], layout=lays[k % 7], nx=("m", "", "mc", "c")[k % 4], cap=(3, 1, 8)[k % 3]))
        if i["cc"] == "u" and "u" in (i["mc"], i["ma"]):  # moves that may throw, next to copies that do not, are no reason to copy
            items.append(dict(i, dc=dcs[k % 3], layout=lays[k % 7], nx=("c", "")[k % 2], cap=(8, 5)[k % 2]))
    n = 10
    return [items[k:k + n] for k in range(0, len(items), n)]


def render(items):
    src = [f'#include "{HERE}/harness/traits.hpp"']
    main = []
    for k, it in enumerate(items):
        n = f"T{k}"
        st, members = LAYOUT[it["layout"]]
        body = " ".join(x.format(n=n, nx=str("m" in it["nx"]).lower(), cnx=str("c" in it["nx"]).lower()) for x in (CC[it["cc"]], MC[it["mc"]], CA[it["ca"]], MA[it["ma"]], D[it["d"]], DC[it["dc"]]))
        init = "{}" if it["dc"] == "d" else ""
        src.append(f"struct {n} {{ int v{init}; {members.format()} constexpr explicit {n}(int x) : v(x) {{}} {body} "
                   f"friend constexpr bool operator==(const {n}& a, const {n}& b) {{ return a.v == b.v; }} friend constexpr auto operator<=>(const {n}& a, const {n}& b) {{ return a.v <=> b.v; }} }};")
        counted = it["cc"] == "u" and it["mc"] in "ud"
        assigned = it["ca"] == "u" and (it["ma"] == "u" or it["ma"] == "d" and it["layout"] != "const") and counted
        main.append(f"    tr::all<{n}, {it['cap']}, {str(counted).lower()}, {str(assigned).lower()}, {str(bool(st)).lower()}>({k});")
    src += ["int main()", "{", *main, '    std::printf("COUNT %llu\\n", tr::evaluations);', "    return tr::failed ? 1 : 0;", "}"]
    return "\n".join(src) + "\n"


def shrink(it):
    base = dict(cc="d", mc="d", ca="d", ma="d", d="d", dc="d", layout="plain", nx="m", cap=1)
    for k, v in base.items():
        if it[k] != v:
            c = dict(it, **{k: v})
            if sane(c):
                yield c


def nontrivial(it):
    return any(it[k] != "d" for k in ("cc", "mc", "ca", "ma", "d")) or it["layout"] != "plain"


def describe(it):
    return "element type with copy ctor %(cc)s, move ctor %(mc)s, copy assign %(ca)s, move assign %(ma)s, dtor %(d)s, default ctor %(dc)s (d defaulted, u user-provided, x deleted, - undeclared), layout %(layout)s, noexcept: %(nx)s (m move, c copy), capacity %(cap)s" % it


def labels(it):
    return ["moves may throw" if "m" not in it["nx"] and "u" in (it["mc"], it["ma"]) else "moves do not throw", "layout " + it["layout"], "copyable" if it["cc"] != "x" else "movable" if it["mc"] in "du" else "pinned"]
