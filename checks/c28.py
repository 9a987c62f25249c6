from common import *

META = {"rule": "value-flow summaries over MIR of the program's entry and of the loader, with opening and parsing the file and running the "
                "simulation uninterpreted: provenance of the path and of the simulated configuration, guards of the simulation and of the "
                "reported error over the outcomes of opening and parsing"}
OPEN = ("std::fs::File::open", "std::fs::read_to_string", "std::fs::read")
PARSE = ("serde_json::from_reader", "serde_json::from_str", "serde_json::from_slice")
DOM = Domain((r".*", "any", -3, 3))
THERE = atom("b", S("the path is there"))         # a path that is not there cannot be opened either

EMPTY = atom("b", S("the file is empty"))         # a file without text cannot be parsed


def outcome(c, base):
    """guard of success of a result named base"""
    d = mk("discr", base)
    DISCR.setdefault(d.id, [0, 1])
    return beq(d, ZERO)


def run(c):
    c.guard(lambda: loader(c), "loader")
    for n in (0, 1, 3, *c.sizes_near(r"PhaseConfig|Simulation", 3, 100)):
        c.guard(lambda: loader(c, n), f"loader of {n} phases")
    if c.post is None:
        return c.und("program", "", "the program was not built")
    q = Check(c.pid, c.post, c.tier)
    q.obl, q.analysed, q.repo = c.obl, c.analysed, c.repo
    q.guard(lambda: program(q), "program")
    c.callsites += q.callsites


def is_error(c, r, v):
    """guard under which a result is an error"""
    g = FALSE
    for h, x in flat(r.D(v)):
        if isinstance(x, SymV):
            g = g | (h & bnot(outcome(c, x.base)))
        elif isinstance(x, Agg) and x.ty is not None:
            if c.p.types[x.ty]["vs"][x.variant or 0]["name"] == "Err":
                g = g | h
        else:
            raise Missing(f"result {str(x)[:80]}")
    return g


def stops(I):
    """guard under which the program is stopped by a panic or an exit code other than zero"""
    g = FALSE
    for e, _ in I.panics:
        g = g | e.g
    return g


def deep(I, st, v):
    rr = Run.__new__(Run)
    rr.I, rr.st = I, st
    for _ in range(6):
        v = rr.D(v)
        if isinstance(v, Ref):
            v = I.read(st, v.root, v.path)
        elif isinstance(v, Agg) and len(v.fs) == 1 and v.kind != "fmtargs":
            v = v.fs[0]
    return v


def origin(v):
    b = getattr(v, "base", v)
    return path_of(b) if isinstance(b, E) else None


def result(name):
    def mkres(I, st, dty):
        v = I.fresh(S(name), dty)
        return v
    return mkres


def summary(c, size=None):
    """the loader, with opening, reading and parsing uninterpreted: its summary and these operations in order"""
    found = c.p.find("Simulation::from_file") or [x for x in c.p.insts if x and x["local"] and x.get("blocks") and re.fullmatch(r"(?:\w+::)*Simulation::from_file(::<.*>)?", x["name"])]
    if len(found) != 1:
        raise Missing("loader")
    b = found[0]
    ops = []      # (what, name of the result, guard, argument, span)

    def op(what, name, which=0):
        def h(I, f, args, st, dty):
            n = f"{name}{1 + sum(o[1].startswith(name) for o in ops)}"
            ops.append((what, n, st.g, deep(I, st, args[which]), I.span))
            return I.fresh(S(n), dty), st
        return h

    def h_read(I, f, args, st, dty):
        v, to = deep(I, st, args[0]), args[1]
        while isinstance(to, Ref) and isinstance(I.read(st, to.root, to.path), Ref):
            to = I.read(st, to.root, to.path)
        o = origin(v)
        if o is None or not isinstance(to, Ref):
            raise Unsupported("reading into a buffer")
        n = f"read{1 + sum(x[1].startswith('read') for x in ops)}"
        ops.append(("read", n, st.g, v, I.span))
        I.write(st, to.root, to.path, S(f"{o}.text"))
        return I.fresh(S(n), dty), st

    def h_next(I, f, args, st, dty):
        v = deep(I, st, args[0])
        n = f"parsed{1 + sum(o[0] == 'part' for o in ops)}"
        ops.append(("part", n, st.g, v, I.span))
        return I.fresh(S(n), dty), st
    I = c.interp(None, (lambda base, ety: size if path_of(base).startswith("parsed1") else None) if size is not None else None)

    def same(I, f, args, st, dty):
        return args[0], st

    def wrapped(I, f, args, st, dty):
        return args[1], st

    def other(I, f, args, st, dty):
        if origin(deep(I, st, args[0])) != "path":
            raise Unsupported("path")
        return I.fresh(S("another path"), dty), st
    def there(I, f, args, st, dty):
        if origin(deep(I, st, args[0])) != "path":
            raise Unsupported("path")
        return THERE, st
    for p in ("exists",):
        I.bypath["std::path::Path::" + p] = there
    def kind(k):
        def h(I, f, args, st, dty):
            o = origin(deep(I, st, args[0]))
            if o is None or not o.endswith("Err.0"):
                raise Unsupported("error")
            x = S(f"kind of {o}")
            DISCR.setdefault(x.id, [0, 1, 2, 3])
            return beq(x, num(k)), st
        return h

    def empty(I, f, args, st, dty):
        o = origin(deep(I, st, args[0]))
        v = I.deref(st, args[0])
        if isinstance(v, (Agg, SymSeq)):
            return beq(I.seqlen(st, v), ZERO), st
        if o is None or not re.fullmatch(r"opened1(\.text|\.Ok\.0.*)", o):
            raise Unsupported("is_empty")
        return EMPTY, st
    def io_kind(I, f, args, st, dty):
        o = origin(deep(I, st, args[0]))
        if o is None or not o.endswith("Err.0"):
            raise Unsupported("error")
        return I.fresh(S(f"kind of {o}"), dty), st
    I.bypath["std::io::Error::kind"] = io_kind
    for k, p in enumerate(("is_eof", "is_io", "is_syntax", "is_data")):
        I.bypath["serde_json::Error::" + p] = kind(k)
    for p in ("core::str::<impl str>::is_empty", "std::string::String::is_empty", "core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty"):
        I.bypath[p] = empty
    for p in OPEN:
        I.bypath[p] = op("open", "opened")
    for p in ("std::fs::File::options", "std::fs::OpenOptions::new"):
        I.bypath[p] = lambda I, f, args, st, dty: (I.fresh(S("options"), dty), st)
    I.bypath["std::fs::OpenOptions::read"] = same
    I.bypath["std::fs::OpenOptions::open"] = op("open", "opened", 1)
    for p in PARSE:
        I.bypath[p] = op("parse", "parsed")
    for p in ("std::io::Read::read_to_string", "std::io::Read::read_to_end"):
        I.bypath[p] = h_read
    for p in ("std::convert::AsRef::as_ref", "std::io::BufReader::<R>::new", "serde_json::Deserializer::<R>::into_iter",
              *PARTS, "std::string::String::as_str", "std::string::String::as_bytes"):
        I.bypath[p] = same
    I.bypath["std::io::BufReader::<R>::with_capacity"] = wrapped
    I.bypath["<serde_json::StreamDeserializer<'de, R, T> as std::iter::Iterator>::next"] = h_next
    for p in b_deserialize(c, b):
        I.bypath[p] = op("part", "parsed")
    I.bypath["serde_json::Deserializer::<R>::end"] = op("end", "ended")

    def changed(word, whole=False):
        def h(I, f, args, st, dty):
            o = origin(deep(I, st, args[0]))
            if o is None or not re.fullmatch(r"(opened\d+|pieces of|another text of).*", o) or o.startswith("opened") and ".text" not in o and not o.endswith("Ok.0"):
                raise Unsupported(f["path"].split("::")[-1])
            if whole and all(text(deep(I, st, x)) is not None and not text(deep(I, st, x)).strip(" \t\r\n") for x in args[1:3]):
                return args[0], st
            if o.startswith("another"):
                return I.fresh(S(o), dty), st
            return I.fresh(S(f"{word} {o.replace('pieces of ', '')}"), dty), st
        return h
    for p in ("lines", "chars", "char_indices", "bytes", "split", "split_terminator", "split_inclusive", "split_whitespace"):
        I.bypath[f"core::str::<impl str>::{p}"] = changed("pieces of")
    for p in ("filter", "filter_map", "map", "map_while", "skip", "take", "skip_while", "take_while", "rev", "step_by"):
        I.bypath[f"std::iter::Iterator::{p}"] = changed("another text of")
    for p in ("collect", "fold", "peekable", "into_iter", "enumerate"):
        I.bypath[f"std::iter::Iterator::{p}"] = changed("pieces of")
    for p in ("replace", "replacen"):
        for q in ("core::str::<impl str>::", "std::str::<impl str>::", "alloc::str::<impl str>::"):
            I.bypath[q + p] = changed("another text of", True)
    for p in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim_start_matches", "trim_end_matches", "trim_matches"):
        for q in ("core::str::<impl str>::", "std::str::<impl str>::", "alloc::str::<impl str>::"):
            I.bypath[q + p] = changed("another text of")
    for p in ("trim", "trim_start", "trim_end"):
        I.bypath["core::str::<impl str>::" + p] = same
    for p in ("std::path::Path::with_extension", "std::path::Path::with_file_name", "std::path::Path::join"):
        I.bypath[p] = other
    return c.run(b, ["path"], I=I), ops


def elsewhere(v):
    """a path is another one than that given"""
    return origin(v) == "another path" or text(v) is not None


def loader(c, size=None):
    before = len(c.obl)
    r, ops = summary(c, size)
    opens = [o for o in ops if o[0] == "open"]
    parses = [o for o in ops if o[0] in ("parse", "part")]
    reads = [o for o in ops if o[0] == "read"]
    ends = [o for o in ops if o[0] == "end"]
    # a configuration read from anywhere else
    strange = {o[1] for o in opens if elsewhere(o[3])}
    for what, n, g, v, span in parses:
        for h, x in flat(v):
            o = origin(x)
            if o is not None and o.split(".")[0] in strange:
                c.eq("the given file is parsed", g & h, FALSE, span, DOM)
            elif o is not None and o.startswith("another text of"):
                c.eq("the text of the file is parsed as it is", g & h, FALSE, span, DOM)
    if len(opens) != 1 or len(parses) != 1 or len(reads) > 1 or len(ends) > 1:
        raise Missing(f"{len(opens)} files opened, {len(parses)} configurations parsed by known means")
    (_, _, go, vo, so), (what, _, gp, vp, sp) = opens[0], parses[0]
    c.always("the file is opened", go, so, assume=THERE)
    c.holds("the given file is opened", origin(vo) == "path", so, f"{str(vo)[:200]} is opened")
    can_open, can_parse = outcome(c, S("opened1")), outcome(c, S("parsed1"))
    if reads:
        can_open = can_open & outcome(c, S("read1"))
    c.eq("an opened file is parsed", gp, can_open, sp, DOM, assume=THERE & bnot(EMPTY))
    o = origin(vp)
    if isinstance(vp, Agg) and vp.kind == "adt" and c.p.types[vp.ty]["n"].split("<")[0] == "std::io::Take" and all(isinstance(x, E) and isnum(x) for x in vp.fs[1:]):
        # reading stops after so many bytes, and a file may be longer
        limit = min(nv(x) for x in vp.fs[1:])
        if limit < 1 << 40:
            return c.bad("the whole file is parsed", sp, f"no more than its first {limit} bytes are read")
        vp = deep(r.I, r.st, vp.fs[0])
        o = origin(vp)
    if o is None or not o.startswith("opened1"):
        return c.und("the opened file is parsed", sp, f"{str(vp)[:200]}")
    c.ok("the opened file is parsed", sp)
    got = F(S("parsed1"), "Ok.0")
    if what == "part":
        # only the beginning of the file is read: whatever follows must be refused
        if not ends:
            return c.bad("the whole file is the configuration", sp, "what follows the first value of the file is not looked at")
        c.eq("the whole file is the configuration", ends[0][2], can_open & can_parse, ends[0][4], DOM, assume=THERE & bnot(EMPTY))
        can_parse = can_parse & outcome(c, S("ended1"))
    err = is_error(c, r, r.ret)
    good = can_open & can_parse
    c.eq("loading fails exactly if the file cannot be opened or parsed", err | stops(r.I), bnot(good), r.where, DOM,
         assume=(THERE | bnot(can_open)) & bnot(EMPTY & can_parse))
    n = 0
    for g, x in flat(r.D(r.ret)):
        if isinstance(x, Agg) and c.p.types[x.ty]["vs"][x.variant or 0]["name"] == "Ok":
            n += 1
            if size is not None:
                c.eq("number of phases", r.I.seqlen(r.st, r.D(r.get(x.fs[0], "config"))), num(size), r.where, DOM, assume=None if g is TRUE else g)
            c.flows(r, "the parsed phases are simulated", r.get(x.fs[0], "config"), got, g, DOM)
    c.holds("a valid file is loaded", n > 0, r.where, "no path returns a configuration")
    if size is not None:
        c.obl[before:] = [(f"{size} phases: {a}", *x) for a, *x in c.obl[before:]]


PARTS = tuple(f"serde_json::Deserializer::<serde_json::de::{t}>::from_{f}" for t, f in (
    ("IoRead<R>", "reader"), ("StrRead<'a>", "str"), ("SliceRead<'a>", "slice")))


def text(v):
    """constant text, if it is one"""
    v = getattr(v, "base", v)
    return v.args[0] if isinstance(v, E) and v.op == "str" else None


def b_deserialize(c, b):
    """calls that read one value from a deserialiser the loader made"""
    out = set()
    for bl in b["blocks"]:
        t = bl["t"]
        if t["t"] == "call":
            f = t["f"].get("c", {})
            if f.get("path", "").split("::")[-1] == "deserialize" and "Deserialize" in f["path"]:
                out.add(f["path"])
    return out


def program(c):
    b = c.fn("main")
    loads, runs = [], []

    def parse(I, f, args, st, dty):
        return I.fresh(S("cli"), dty), st

    def load(I, f, args, st, dty):
        loads.append((st.g, deep(I, st, args[0]), I.span))
        return I.fresh(S(f"loaded{len(loads)}"), dty), st

    def sim(I, f, args, st, dty):
        v = args[0]
        while isinstance(v, Ref):
            v = I.read(st, v.root, v.path)
        runs.append((st.g, v, I.span))
        return I.fresh(S(f"final{len(runs)}"), dty), st

    def named(I, f, args, st, dty):
        """a comparison with the name of the file: it may have any name"""
        v = [deep(I, st, a) for a in args]
        if not any((origin(x) or "").startswith("cli.") for x in v):
            raise Unsupported(f["path"])
        return atom("b", S(f"the name of the file ({I.span})")), st
    I = c.interp()
    for p in ("std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq", "std::cmp::PartialEq::eq", "std::path::Path::is_absolute",
              "std::path::Path::is_relative", "std::path::Path::starts_with", "std::path::Path::ends_with", "std::path::Path::has_root"):
        I.bypath[p] = named
    for p in ("std::path::Path::as_os_str", "<std::path::PathBuf as std::ops::Deref>::deref", "std::path::Path::as_path",
              "std::ops::Deref::deref", "std::path::Path::new", "std::convert::AsRef::as_ref"):
        I.bypath[p] = lambda I, f, args, st, dty: (args[0], st)
    I.bypath.update({"clap::Parser::parse": parse, "sim::Simulation::from_file": load, "sim::Simulation::run": sim})
    r = c.run(b, [], I=I)
    if len(loads) != 1:
        raise Missing(f"{len(loads)} files loaded")
    g, v, span = loads[0]
    c.always("the configuration is loaded", g, span)
    o = origin(v)
    if o is None:
        return c.und("the file of the command line is loaded", span, f"{str(v)[:200]}")
    c.holds("the file of the command line is loaded", o.startswith("cli."), span, f"{o} is loaded")
    good = outcome(c, S("loaded1"))
    ran, twice = FALSE, FALSE
    for g, v, span in runs:
        twice = twice | (ran & g)
        ran = ran | g
        for h, x in flat(r.D(v)):
            if (g & h) is FALSE:
                continue
            o = origin(x)
            if o is None and isinstance(x, Agg) and x.fs:
                o = origin(r.D(x.fs[0]))
            if o is None:
                c.und("the loaded phases are simulated", span, f"{str(x)[:200]}")
            elif o.startswith("loaded1.Ok.0"):
                c.ok("the loaded phases are simulated", span)
            else:
                c.eq("only the loaded phases are simulated", g & h, FALSE, span, DOM)
    c.holds("the simulation is run", bool(runs), r.where, "nothing is simulated")
    c.eq("simulated exactly if the configuration was loaded", ran, good, r.where, DOM)
    c.eq("simulated once", twice, FALSE, r.where, DOM)
    fails = stops(I)
    for e in r.st.eff if r.st else ():
        if e.kind == "exit":
            fails = fails | e.g
    err = is_error(c, r, r.ret) if r.ret is not None else FALSE
    c.eq("ends with an error exactly if the configuration was not loaded", err | fails, bnot(good), r.where, DOM)
