#!/usr/bin/env python3
"""C21: generated programs, judged by rustc and by a borrow model.

A program is a straight-line list of statements over arrays, tensors and things derived from them. The model
tracks, for every variable, which variables it borrows from (`loans`) and which variable owns the data it
refers to (`data`). A BAD program ends the life of an owner (drop, move, assignment, mutation, consuming call,
end of scope, return) and then uses something that refers to its data: rustc must reject it. A GOOD program
only ends variables nothing alive was derived from: rustc must accept it. Programs between the two are not made.
Many programs, one function each, are compiled together; borrow errors are attributed by line.
"""
import json, os, random, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TARGET = os.path.join(ROOT, "target", "c21")
BORROW = {"E0381", "E0382", "E0384", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0521", "E0594", "E0596", "E0597",
          "E0621", "E0700", "E0712", "E0713", "E0716", "E0310", "E0309", "E0373", None}

HEADER = """#![allow(warnings)]
use redstone_ml::*;
use redstone_ml::linalg::*;
fn use_<X>(_: &X) {}
fn end_<X>(_: X) {}
fn id_<X>(x: X) -> X { x }
fn static_<X: 'static>(_: &X) {}
struct Holder<X> { x: X }
fn array() -> NdArray<'static, f64> { NdArray::new([[1.0, 2.0], [3.0, 4.0]]) }
fn tensor() -> Tensor<'static, f64> { Tensor::new([[1.0, 2.0], [3.0, 4.0]]) }
"""

# kind -> ways to derive something that refers to the same data: (text, kind of the result)
VIEWS = {
 "A": [("(&{x}).view()", "A"), ("(&{x}).reshape([4])", "A"), ("(&{x}).squeeze()", "A"), ("(&{x}).unsqueeze(0)", "A"), ("(&{x}).T()", "A"),
       ("(&{x}).transpose(0, 1)", "A"), ("{x}.slice(s![0..1])", "A"), ("{x}.slice(s![.., 1])", "A"), ("{x}.slice_along(Axis(0), 0)", "A"), ("{x}.slice_along(Axis(1), 0..1)", "A"),
       ("{x}.broadcast_to(&[3, 2, 2])", "A"), ("{x}.diagonal()", "A"), ("{x}.offset_diagonal(1)", "A"), ("{x}.diagonal_along(0, 1)", "A"),
       ("{x}.offset_diagonal_along(0, 0, 1)", "A"), ("einsum_view(&{x}, (\"ij\", \"ji\")).unwrap()", "A"),
       ("{x}.iter()", "N"), ("{x}.iter_along(0)", "N"), ("{x}.nditer([0usize])", "N"), ("{x}.nditer(vec![0usize])", "N"),
       ("{x}.flatiter()", "F"), ("{x}.data_slice()", "S"), ("&{x}[[0, 0]]", "S"), ("&{x}", "R"), ("{x}.shape()", "S"), ("{x}.stride()", "S")],
 "R": [("{x}.view()", "A"), ("{x}.T()", "A"), ("{x}.reshape([4])", "A"), ("{x}.slice(s![0])", "A"), ("{x}.diagonal()", "A"), ("{x}.broadcast_to(&[2, 2, 2])", "A"),
       ("{x}.iter()", "N"), ("{x}.flatiter()", "F"), ("{x}.data_slice()", "S"), ("&{x}[[1, 1]]", "S")],
 "T": [("(&{x}).view()", "T"), ("(&{x}).reshape([4])", "T"), ("(&{x}).T()", "T"), ("(&{x}).transpose(0, 1)", "T"), ("(&{x}).unsqueeze(0)", "T"), ("(&{x}).squeeze()", "T"),
       ("{x}.gradient().unwrap()", "A"), ("{x}.ndarray()", "R"), ("{x}.shape()", "S"), ("{x}.ndarray().data_slice()", "S"), ("{x}.ndarray().view()", "A"), ("{x}.ndarray().slice(s![0])", "A")],
 "N": [("{x}.enumerate()", "N", "consume"), ("{x}.peekable()", "N", "consume")],
 "F": [("{x}.enumerate()", "F1", "consume"), ("{x}.map(|v| v + 1.0)", "F1", "consume")],
}
# consuming calls that keep the data: the result takes over ownership and loans
CONSUME = {
 "A": ["{x}.view()", "{x}.reshape([4])", "{x}.squeeze()", "{x}.unsqueeze(0)", "{x}.T()", "{x}.transpose(0, 1)", "id_({x})"],
 "T": ["id_({x})"],
}
# results that are independent of their operands
COPIES = {
 "A": [("{x}.clone()", "A"), ("{x}.flatten()", "A"), ("{x}.sum()", "A"), ("{x}.sum_along([0])", "A"), ("{x}.max_along([0])", "A"), ("{x}.astype::<f64>()", "A"), ("{x}.trace()", "A"), ("{x}.matmul(&{x})", "A"),
       ("&{x} + &{x}", "A"), ("&{x} * 2.0", "A"), ("-&{x}", "A"), ("einsum([&{x}, &{x}], ([\"ij\", \"jk\"], \"ik\"))", "A"), ("{x}.mean()", "A"), ("{x}.dot(&{x})", "A"), ("{x}.bmm(&{x})", "A")],
 "T": [("&{x} + &{x}", "T"), ("&{x} * 2.0", "T"), ("-&{x}", "T"), ("{x}.matmul(&{x})", "T"), ("{x}.detach()", "A"), ("{x}.get_ndarray()", "O"), ("{x}.dot(&{x})", "T"), ("{x}.bmm(&{x})", "T")],
}
# consuming calls whose result is independent
INTO = {"A": ["{x}.into_data_vector()", "{x} + 1.0", "-{x}", "{x} * array()"],
        "T": ["{x}.into_ndarray()", "{x}.reshape([4])", "{x}.T()", "{x}.view()", "{x} + 1.0", "-{x}", "{x} * tensor()"]}
# ways to overwrite through &mut
MUTATE = {"A": ["{x}.fill(0.0)", "{x}.zero()", "{x} += 1.0", "{x} *= array()", "{x}[[0, 0]] = 1.0", "std::mem::swap(&mut {x}, &mut array())"],
          "T": ["{x}.set_requires_grad(true)", "std::mem::swap(&mut {x}, &mut tensor())"]}
WRAP = ["vec![{x}]", "Some({x})", "Box::new({x})", "Holder {{ x: {x} }}", "({x}, 1)", "[{x}]"]
FRESH = {"A": "array()", "T": "tensor()"}


class Prog:
    def __init__(self, rng):
        self.r = rng
        self.v = {}      # name -> dict(kind, loans, data, alive, owner)
        self.s = []
        self.tags = set()

    def new(self, text, kind, loans=(), data=None, owner=False):
        n = f"v{len(self.v)}"
        self.s.append(f"let mut {n} = {text};")
        self.v[n] = dict(kind=kind, loans=set(loans), data=set(data) if data is not None else {n}, alive=True, owner=owner)
        return n

    def dependents(self, n): return [m for m, w in self.v.items() if w["alive"] and n in w["loans"]]
    def alive(self): return [n for n, w in self.v.items() if w["alive"]]
    def free(self): return [n for n in self.alive() if not self.dependents(n)]
    def closure(self, n): return {n} | self.v[n]["loans"]

    def source(self):
        k = self.r.choice("AAT")
        return self.new(FRESH[k], k, owner=True)

    def derive(self):
        c = [n for n in self.alive() if self.v[n]["kind"] in VIEWS]
        if not c: return
        # prefer long chains
        n = c[-1] if self.r.random() < .5 else self.r.choice(c)
        w = self.v[n]
        view = self.r.choice(VIEWS[w["kind"]])
        if len(view) == 3:
            if self.dependents(n): return
            w["alive"] = False
            self.tags.add("adaptor")
            return self.new(view[0].format(x=n), view[1], w["loans"], w["data"])
        self.tags.add({"A": "array", "T": "tensor", "R": "reference", "N": "iterator", "F": "element iterator", "S": "slice"}[view[1]])
        return self.new(view[0].format(x=n), view[1], self.closure(n), w["data"])

    def consume(self):
        c = [n for n in self.free() if self.v[n]["kind"] in CONSUME]
        if not c: return
        n = self.r.choice(c); w = self.v[n]
        w["alive"] = False
        self.tags.add("consuming view")
        m = self.new(self.r.choice(CONSUME[w["kind"]]).format(x=n), w["kind"], w["loans"], w["data"], w["owner"])
        if w["owner"]: self.v[m]["data"] = {m}
        return m

    def copy(self):
        c = [n for n in self.alive() if self.v[n]["kind"] in COPIES]
        if not c: return
        n = self.r.choice(c)
        t, k = self.r.choice(COPIES[self.v[n]["kind"]])
        self.tags.add("copy")
        return self.new(t.format(x=n), k, owner=k in "AT")

    def use(self, n): self.s.append(f"use_(&{n});")

    def wrap(self, n):
        if self.r.random() < .3:
            w = self.v[n]; w["alive"] = False
            self.tags.add("container")
            return self.new(self.r.choice(WRAP).format(x=n), "W", w["loans"], w["data"])
        return n

    def finish(self, n):
        """end n, which nothing alive depends on"""
        w = self.v[n]; k = w["kind"]
        how = self.r.choice(["drop", "move", "assign", "mutate", "into"])
        if how == "assign" and k in FRESH and w["owner"]: self.s.append(f"{n} = {FRESH[k]};"); return
        if how == "mutate" and k in MUTATE and w["owner"]: self.s.append(self.r.choice(MUTATE[k]).format(x=n) + ";"); return
        w["alive"] = False
        if how == "into" and k in INTO: self.s.append(f"end_({self.r.choice(INTO[k]).format(x=n)});")
        elif how == "move": self.s.append(f"let _m{n} = {n}; drop(_m{n});")
        else: self.s.append(f"drop({n});")

    def grow(self, lo, hi):
        for _ in range(self.r.randint(1, 2)): self.source()
        for _ in range(self.r.randint(lo, hi)):
            x = self.r.random()
            if x < .55: self.derive()
            elif x < .70: self.consume()
            elif x < .82: self.copy()
            elif x < .90: self.use(self.r.choice(self.alive()))
            else:
                f = [n for n in self.free() if self.v[n]["loans"]]
                if f: self.finish(self.r.choice(f))


def good(rng):
    p = Prog(rng); p.grow(1, 6)
    for _ in range(rng.randint(1, 6)):
        f = p.free()
        if not f: break
        p.finish(rng.choice(f))
        for n in p.alive():
            if rng.random() < .5: p.use(n)
        if rng.random() < .2: p.derive()
        if rng.random() < .2: p.copy()
    tail = None
    owners = [n for n in p.free() if p.v[n]["owner"] and not p.v[n]["loans"] and p.v[n]["kind"] in "AT"]
    if owners and rng.random() < .3:  # an owner may leave the function or be asked to live for ever
        n = rng.choice(owners)
        if rng.random() < .5: p.s.append(f"static_(&{n});")
        else: tail = n; p.tags.add("return")
    return dict(expect="accept", stmts=p.s, tail=tail, ret=TYPE[p.v[tail]["kind"]] if tail else None, tags=sorted(p.tags), how="good")


TYPE = {"A": "NdArray<'static, f64>", "T": "Tensor<'static, f64>"}
RETURN = {"A": "NdArray<'r, f64>", "T": "Tensor<'r, f64>", "S": None}


def bad(rng):
    for _ in range(200):
        p = Prog(rng); p.grow(1, 6)
        pairs = [(o, w) for w in p.alive() for o in p.v[w]["data"] if o != w and p.v[o]["owner"] and p.v[o]["alive"] and o in p.v[w]["loans"]]
        if pairs: break
    else:
        raise SystemExit("no bad program")
    o, w = rng.choice(pairs)
    k = p.v[o]["kind"]
    for n in p.alive():
        if rng.random() < .2: p.use(n)
    how = rng.choice(["drop", "move", "assign", "mutate", "into", "scope", "return", "static", "outer"])
    tail = ret = None
    w = p.wrap(w)
    if how == "drop": p.s.append(f"drop({o});")
    elif how == "move": p.s.append(f"let _m = {o};")
    elif how == "assign": p.s.append(f"{o} = {FRESH[k]};")
    elif how == "mutate": p.s.append(rng.choice(MUTATE[k]).format(x=o) + ";")
    elif how == "into": p.s.append(f"end_({rng.choice(INTO[k]).format(x=o)});")
    elif how == "static": p.s.append(f"static_(&{w});")
    elif how == "scope": p.s = ["let _r = {"] + p.s + [w, "};", "use_(&_r);"]
    elif how == "outer": p.s = ["let _r; {"] + p.s + [f"_r = {w};", "}", "use_(&_r);"]
    elif how == "return":
        kind = p.v[w]["kind"]
        if kind in ("A", "T"): tail, ret = w, RETURN[kind]
        else: tail, ret = w, "impl Sized"
        if ret == "impl Sized": how, tail, ret = "static", None, None; p.s.append(f"static_(&{w});")
    if how in ("drop", "move", "assign", "mutate", "into"): p.use(w)
    return dict(expect="reject", stmts=p.s, tail=tail, ret=ret, tags=sorted(p.tags), how=how)


def render(i, q):
    head = f"fn p{i}" + ("<'r>() -> " + q["ret"] if q["ret"] else "()") + " {"
    return [head] + ["    " + s for s in q["stmts"]] + (["    " + q["tail"]] if q["tail"] else []) + ["}"]


def rlib():
    env = dict(os.environ)
    r = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(HERE, "stub", "Cargo.toml"), "--target-dir", TARGET],
                       capture_output=True, text=True, env=env)
    if r.returncode: sys.stderr.write(r.stderr[-3000:]); sys.exit(2)
    lib = None
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "redstone_ml":
            lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    return lib


def compile_(lib, progs, work, tag):
    """-> list of (rejected?, messages) per program; None if a program does not type-check"""
    lines = HEADER.splitlines(); owner = {}
    for i, q in enumerate(progs):
        for l in render(i, q):
            lines.append(l); owner[len(lines)] = i
    src = os.path.join(work, f"{tag}.rs")
    open(src, "w").write("\n".join(lines) + "\n")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "c21", "--emit=metadata", "-o", os.path.join(work, tag + ".rmeta"),
                        "--extern", "redstone_ml=" + lib, "-L", "dependency=" + os.path.dirname(lib), "-L", "dependency=" + os.path.join(os.path.dirname(lib), "deps"), "--error-format=json", src],
                       capture_output=True, text=True)
    out = [[] for _ in progs]
    odd = []
    for l in r.stderr.splitlines():
        try: m = json.loads(l)
        except ValueError: odd.append(l); continue
        if m.get("level") != "error": continue
        sp = [s for s in m["spans"] if s["is_primary"] and s["file_name"] == src]
        if not sp:
            if not m["message"].startswith("aborting"): odd.append(m["message"])
            continue
        code = m["code"]["code"] if m["code"] else None
        if code not in BORROW: odd.append(f"{code} {m['message']} at: {lines[sp[0]['line_start'] - 1]}"); continue
        out[owner[sp[0]["line_start"]]].append(f"{code or ''} {m['message']}")
    os.remove(src)
    if odd: return None, odd
    if (r.returncode != 0) != any(out): return None, [r.stderr[-2000:] or "rustc exit code %d" % r.returncode]
    return out, []


def verdict(lib, q, work, tag="one"):
    out, odd = compile_(lib, [q], work, tag)
    if out is None: return None
    return "reject" if out[0] else "accept"


def shrink(lib, q, work):
    wrong = "accept" if q["expect"] == "reject" else "reject"
    best = q
    progress = True
    while progress:
        progress = False
        for i in reversed(range(len(best["stmts"]))):
            s = best["stmts"][i]
            # the ending and the last use define the case; only remove what is not needed for the same wrong verdict
            if best["expect"] == "reject" and (i >= len(best["stmts"]) - 2 or s.startswith("let _r") or s in ("};", "}")): continue
            c = dict(best, stmts=best["stmts"][:i] + best["stmts"][i + 1:])
            if verdict(lib, c, work) == wrong:
                best = c; progress = True
    return best


def main():
    mode = sys.argv[1]
    work = os.path.join(ROOT, "target", "scratch", f"c21-{os.getpid()}")
    os.makedirs(work, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    try:
        lib = rlib()
        if mode == "replay":
            q = json.load(open(sys.argv[2]))
            got = verdict(lib, q, work)
            print("\n".join(render(0, q))); print(f"expected: {q['expect']}, rustc: {got}")
            if got is None: return 2
            if got != q["expect"]: print(f"VIOLATION property=C21 replay={sys.argv[2]}"); return 1
            return 0
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return search(lib, mode, seed, work)
    finally:
        subprocess.run(["rm", "-rf", work])


def search(lib, mode, seed, work):
    t0 = time.time()
    batch = 400
    batches = int(os.environ.get("CASES", 0)) // batch or (150 if mode == "quick" else 3000)
    limit = float(os.environ.get("SECS", 0)) or (120 if mode == "quick" else 780)
    seen, classes, samples = set(), {}, []
    count = nontrivial = 0
    wrongs = []

    def one(b):
        if time.time() - t0 > limit or wrongs: return None
        rng = random.Random(f"{seed}/{mode}/{b}")
        progs = [good(rng) if rng.random() < .45 else bad(rng) for _ in range(batch)]
        out, odd = compile_(lib, progs, work, f"b{b}")
        return b, progs, out, odd

    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(one, range(batches)):
            if res is None: continue
            b, progs, out, odd = res
            if out is None:
                print("C21: generated programs do not type-check against /repo:", *odd[:5], sep="\n  ", file=sys.stderr); return 2
            for q, errors in zip(progs, out):
                count += 1
                for t in q["tags"] + ["ends by " + q["how"] if q["expect"] == "reject" else "accepted program"]: classes[t] = classes.get(t, 0) + 1
                h = hashlib.sha1("\n".join(q["stmts"]).encode()).digest()
                if h not in seen:
                    seen.add(h)
                    if len(q["stmts"]) > 3: nontrivial += 1
                if count % 997 == 3 and len(samples) < 12: samples.append({"expect": q["expect"], "program": render(0, q), "rustc": errors[:1]})
                if ("reject" if errors else "accept") != q["expect"]: wrongs.append((q, errors))
    if wrongs:
        q, errors = min(wrongs, key=lambda x: len(x[0]["stmts"]))
        small = shrink(lib, q, work)
        path = os.path.join(ROOT, "evidence", "replays", f"C21-{mode}-{seed}.json")
        json.dump(small, open(path, "w"), indent=1)
        print("\n".join(render(0, small)))
        print(f"expected rustc to {small['expect']} this program, it did not" + (f": {errors[0]}" if errors else ""))
        print(f"VIOLATION property=C21 replay={path}")
    ev = {"property": "C21", "tier": mode, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": count, "distinct_nontrivial": nontrivial,
                       "rule": "a program is non-trivial if it is distinct from all earlier ones and has more than three statements (a source, at least one derived value, an ending and a later use)",
                       "classes": dict(sorted(classes.items())), "samples": samples},
          "assumptions": ["rustc's borrow checker is sound and its verdict on one function does not depend on the others in the file",
                          "raw-pointer iteration (flatiter_ptr) is outside the property: using its items takes unsafe code"],
          "wall_s": round(time.time() - t0, 1), "violations": len(wrongs)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", "C21.json"), "w"), indent=1)
    print(f"C21 {mode}: {count} programs, {nontrivial} non-trivial, {len(wrongs)} wrong verdicts, {ev['wall_s']} s")
    return 1 if wrongs else 0


sys.exit(main())
