import json
from common import *

META = {"rule": "effect analysis over MIR: every call site, constant and static of every function reachable from loading or running a simulation "
                "(call graph closed over closures, function values and all implementations of unresolved trait functions) is classified; no use "
                "of a clock, the environment, a random source, threads, the order of a randomly seeded map, an address as a number, or "
                "mutable memory that outlives the run"}
DENY = [
    (r"std::time::(Instant|SystemTime)::(now|elapsed)", "the clock"),
    (r"std::env::(var|var_os|vars|vars_os|args|args_os|current_dir|current_exe|temp_dir|home_dir)", "the environment"),
    (r"std::process::(id|Command::.*)", "the process or another one"),
    (r"std::thread::(spawn|scope|current|available_parallelism|Builder::.*|Scope::.*|JoinHandle::.*)", "threads"),
    (r"std::(sync::)?mpsc::.*", "threads"),
    (r"std::net::.*|std::os::unix::net::.*", "the network"),
    (r"std::io::stdin|std::io::Stdin::.*|std::io::read_to_string", "the standard input"),
    (r"(rand|rand_core|getrandom|fastrand|oorandom|nanorand)::.*", "a random source"),
    (r"(std|core)::hash::(random::)?(RandomState|DefaultHasher)::.*|std::collections::hash_map::(RandomState|DefaultHasher)::.*",
     "a randomly seeded hash"),
    (r"core::fmt::rt::Argument::.*::new_pointer", "the address of a value"),
    (r"std::ptr::.*::(addr|expose_provenance|expose_addr)", "the address of a value"),
]
FILES = r"std::fs::.*|std::path::Path::(exists|is_file|is_dir|is_symlink|try_exists|(symlink_)?metadata|read_dir|read_link|canonicalize)"
ITER = r".*(::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if))(::<.*>)?"
HOLD = r"(Once(Lock|Cell)|Lazy(Lock|Cell))"
SHARED = r"(Mutex|RwLock|Atomic\w*|RefCell|UnsafeCell|\bCell\b|ReentrantLock|Condvar|LocalKey)"


def refs(o, out):
    """function, static and closure mentions of a piece of MIR"""
    if isinstance(o, dict):
        if o.get("k") == "fn" and o.get("path"):
            out.append(o)
        elif o.get("k") == "static":
            out.append(o)
        for v in o.values():
            refs(v, out)
    elif isinstance(o, list):
        for v in o:
            refs(v, out)


def used(b, local, skip):
    """the value put in a local is read anywhere"""
    def occ(o):
        if isinstance(o, list) and o and isinstance(o[0], int) and o[0] == local and not isinstance(o[0], bool):
            return True
        if isinstance(o, dict):
            return any(occ(v) for v in o.values())
        if isinstance(o, list):
            return any(occ(v) for v in o)
        return False
    for i, bl in enumerate(b["blocks"]):
        for s in bl["s"]:
            if len(s) > 1 and occ(s[1]):
                return True
        t = bl["t"]
        if t["t"] == "drop":
            continue
        if occ({k: v for k, v in t.items() if k in ("a", "o", "f")}):
            return True
    return local == 0


def run(c):
    p = c.p
    byname = {}
    for b in p.insts:
        if b and b.get("blocks") and b["local"]:
            byname.setdefault(b["path"].split("::")[-1], []).append(b)
    loader = [b for b in p.insts if b and b.get("blocks") and b["local"] and re.fullmatch(
        r"(?:\w+::)*Simulation::from_file(::<.*>)?", b["name"])]
    c.guard(lambda: walk(c, "run", [c.fn("Simulation::run")], byname), "running a simulation")
    if len(loader) == 1:
        # library code reading the configuration calls back into all readers
        readers = [b for b in p.insts if b and b.get("blocks") and b["local"]
                   and re.search(r"serde::|TryFrom|as std::default::Default>|for<|Visitor", b["name"])]
        c.guard(lambda: walk(c, "load", loader + readers, byname), "loading a configuration")
        c.guard(lambda: files(c), "files opened while loading")
    else:
        c.und("loading a configuration", "", "loader")


def files(c):
    """no file but the given one decides what is loaded"""
    import c28
    r, ops = c28.summary(c)
    for what, n, g, v, span in ops:
        if what == "open":
            c.holds("load: only the given file is read", not c28.elsewhere(v) or g is FALSE, span, f"{str(v)[:200]} is read")


def walk(c, what, roots, byname):
    p = c.p
    seen, todo, bodies, stat = set(), [b["id"] for b in roots], [], {}
    init = {s["path"]: s.get("init") for s in p.statics}
    while todo:
        i = todo.pop()
        if i in seen or p.insts[i] is None:
            continue
        seen.add(i)
        b = p.insts[i]
        if not b.get("blocks"):
            continue
        out = []
        refs(b["blocks"], out)
        for o in out:
            if o["k"] == "static":
                stat.setdefault(o["path"], []).append(b)
                if init.get(o["path"]) is not None:     # computed once, when first used
                    todo.append(init[o["path"]])
            elif o.get("inst") is not None:
                todo.append(o["inst"])
            elif o.get("trait") or o.get("rlocal"):
                for x in byname.get(o["path"].split("::")[-1], []):
                    todo.append(x["id"])
        n = b["name"] + "::{closure"
        todo += [x["id"] for x in p.insts if x and x["name"].startswith(n)]
        if b["local"]:
            bodies.append(b)
            c.analysed.add(b["name"])
    sites = 0
    for b in bodies:
        for bl in b["blocks"]:
            for s in bl["s"]:
                if len(s) > 1 and isinstance(s[1], dict) and s[1].get("r") == "cast" and "PointerExpose" in json.dumps(s[1]):
                    c.bad(f"{what}: {b['name']}", s[2], "the address of a value is used as a number")
            t = bl["t"]
            if t["t"] != "call" or "c" not in t["f"]:
                continue
            f = t["f"]["c"]
            path = f.get("rpath") or f.get("path") or ""
            sites += 1
            for q in {path, f.get("path") or ""}:
                for pat, why in DENY:
                    if re.fullmatch(pat, q) and used(b, t["d"][0], None):
                        c.bad(f"{what}: {b['name']} calls {q}", bl.get("sp", ""), f"the result depends on {why}")
            if re.fullmatch(FILES, path) and what == "run":
                c.bad(f"{what}: {b['name']} calls {path}", bl.get("sp", ""), "the simulation uses a file")
            if re.fullmatch(ITER, f.get("path") or ""):
                n = ""
                o = t["a"][0] if t["a"] else None
                pl = (o.get("mv") or o.get("cp")) if isinstance(o, dict) else None
                if pl:
                    n = p.types[b["locals"][pl[0]]]["n"]
                if random_order(n) or re.search(r"Hash(Map|Set)<", n) and "RandomState" in json.dumps(
                        [p.types[a]["n"] for a in f.get("args", []) if isinstance(a, int)]):
                    c.bad(f"{what}: {b['name']} iterates over {n}", bl.get("sp", ""), "the order of a randomly seeded map")
            if path.startswith("std::thread::LocalKey") or "thread::local::LocalKey" in path:
                memory(c, what, b, bl, t, "a thread-local value")
    c.callsites += sites
    c.holds(f"{what}: {len(bodies)} functions, {sites} call sites classified", len(bodies) > 0 and sites > 0, "", "nothing analysed")
    info = {s["path"]: s for s in json_statics(p)}
    for path, bs in sorted(stat.items()):
        s = info.get(path)
        if s is None:
            continue                            # of a library
        tn = p.types[s["ty"]]["n"]
        if s["freeze"] and not s["mut"]:
            c.ok(f"{what}: static {path} is constant", s["span"])
            continue
        if re.search(HOLD, tn) and not re.search(SHARED, re.sub(HOLD, "", tn)) and not s["mut"]:
            lazy(c, what, path, s, tn, bs)
            continue
        for b in bs:
            for bl in b["blocks"]:
                static_use(c, what, path, s, tn, b, bl)


def random_order(n):
    """the type named is a map or set whose hasher is randomly seeded (the hasher left out of the name is the default one)"""
    m = re.search(r"Hash(Map|Set)<", n)
    if not m:
        return False
    depth, args, i = 1, 1, m.end()
    while i < len(n) and depth:
        ch = n[i]
        if ch in "<([":
            depth += 1
        elif ch in ")]" or ch == ">" and n[i - 1] != "-":
            depth -= 1
        elif ch == "," and depth == 1:
            args += 1
        i += 1
    return "RandomState" in n[m.end():i] or args < (3 if m[1] == "Map" else 2)


def memory(c, what, b, bl, t, name):
    if used(b, t["d"][0], None) or t["a"] and len(t["a"]) > 1:
        c.bad(f"{what}: {b['name']} uses {name}", bl.get("sp", ""), "a value that outlives the run")


def json_statics(p):
    return p.statics


def holds_static(b, path):
    """locals holding the address of a static"""
    ls = set()
    for _ in range(4):
        for bl in b["blocks"]:
            for s in bl["s"]:
                if len(s) < 2 or len(s[0]) != 1:
                    continue
                j = json.dumps(s[1])
                o = []
                refs(s[1], o)
                if any(x["k"] == "static" and x["path"] == path for x in o):
                    ls.add(s[0][0])
                elif isinstance(s[1], dict) and s[1].get("r") in ("ref", "use", "cast", "rawptr"):
                    pl = s[1].get("p") or (s[1].get("o") or {}).get("mv") or (s[1].get("o") or {}).get("cp")
                    if pl and pl[0] in ls:
                        ls.add(s[0][0])
    return ls


def static_use(c, what, path, s, tn, b, bl):
    ls = holds_static(b, path)

    def mine(o):
        pl = (o.get("mv") or o.get("cp")) if isinstance(o, dict) else None
        if pl and pl[0] in ls:
            return True
        r = []
        refs(o, r)
        return any(x["k"] == "static" and x["path"] == path for x in r)
    label = f"{what}: {b['name']} uses static {path}"
    for st in bl["s"]:
        if len(st) < 2:
            continue
        # a plain read through the address (static mut)
        if isinstance(st[1], dict) and st[1].get("r") == "use":
            o = st[1]["o"]
            pl = (o.get("mv") or o.get("cp")) if isinstance(o, dict) else None
            if pl and pl[0] in ls and len(pl) > 1:
                if used(b, st[0][0], None) or len(st[0]) > 1:
                    c.bad(label, st[2] if len(st) > 2 else s["span"], f"memory of type {tn} that outlives the run is read")
                    return
    t = bl["t"]
    if t["t"] == "call" and any(mine(a) for a in t["a"]):
        if used(b, t["d"][0], None):
            c.bad(label, bl.get("sp", ""), f"memory of type {tn} that outlives the run is read")
        else:
            c.ok(label, bl.get("sp", ""), "only written")


def lazy(c, what, path, s, tn, bs):
    """a value computed at first use: it must not depend on what is being simulated"""
    label = f"{what}: static {path}"
    if "Lazy" in tn:
        return c.ok(label, s["span"], "initialised without arguments")
    for b in bs:
        ls = holds_static(b, path)
        for bl in b["blocks"]:
            t = bl["t"]
            if t["t"] != "call":
                continue
            a = t["a"]
            pl = (a[0].get("mv") or a[0].get("cp")) if a and isinstance(a[0], dict) else None
            r = []
            refs(a[0] if a else None, r)
            if not (pl and pl[0] in ls or any(x["k"] == "static" and x["path"] == path for x in r)):
                continue
            name = (t["f"].get("c") or {}).get("path", "")
            seg = name.split("::")[-1]
            if seg in ("get", "deref", "get_unchecked"):
                continue
            if seg.startswith("get_or") and len(a) > 1:
                o = a[1]
                pl = (o.get("mv") or o.get("cp")) if isinstance(o, dict) else None
                caps = captures(b, pl[0]) if pl else 0
                if caps == 0:
                    c.ok(label, bl.get("sp", ""), "initialised without arguments")
                elif caps is None:
                    c.und(label, bl.get("sp", ""), "initialiser not found")
                else:
                    c.bad(label, bl.get("sp", ""), f"{b['name']} keeps a value computed from what is being simulated; "
                                                   "a later run would use the value of the first one")
            elif seg in ("set", "insert", "try_insert"):
                c.bad(label, bl.get("sp", ""), f"{b['name']} keeps a value that outlives the run")
            else:
                c.und(label, bl.get("sp", ""), f"use {name}")


def captures(b, local):
    for bl in b["blocks"]:
        for s in bl["s"]:
            if len(s) > 1 and s[0] == [local] and isinstance(s[1], dict) and s[1].get("r") == "agg" and s[1].get("k") == "closure":
                return len(s[1]["es"])
    return None
