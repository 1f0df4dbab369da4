"""C08: options take effect, alone and through every delegating method."""
from ..analysis import LIBRARY_KW, Analysis
from ..influence import Influence, settled
from ..values import is_const, mk, show

# not options: they choose how to report or validate
NOT_OPTIONS = {
    "show_progress", "warn", "skip_validation", "strict",
    "warn_about_null_change", "ignore_extra_dim_errors",
}
SKIP = {"raster.Raster.__init__", "vector.Vector.__init__",
        "raster.has_spatial_dims"}
SKIP_MODULES = ("distance._heap", "stat_common")
# options that act only together with another one
WITH_OTHERS = {
    "elevation_null_value": "elevation", "x": "y", "y": "x",
    "burn": "mask", "neighbors": "as_polygons", "mask_invert": "mask",
    "null_value": "", "compress_level": "compress", "predictor": "compress",
    "blocksize": "tiled", "overview_resampling": "overviews",
    "overview_num_threads": "overviews", "resample_method": "resolution",
    "raster_template": "template",
}
ALIASES = {"raster_template": "template", "no_data_value": "null_value"}


def public(e):
    return not e.qual.startswith(SKIP_MODULES) and e.qual not in SKIP


def defaults(e):
    info = e.fn.pay
    a = info.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    dv = dict(zip(names[len(names) - len(info.defaults):], info.defaults))
    dv.update({x.arg: d for x, d in zip(a.kwonlyargs, info.kwdefaults)
               if d is not None})
    return dv


def sinks(I, events, st, path):
    """Parameters that the calls given the output path depend on."""
    out = set()
    for ev in events:
        if ev.kind != "call":
            continue
        f = ev.target.args[0]
        if f.op not in ("ext", "attr"):
            continue
        n = f.args[0] if f.op == "ext" else f.args[1]
        if str(n).endswith("Env") or str(n) in ("open", "print"):
            out |= I.params(ev.target, st)
            continue
        s = I.params(ev.target, st)
        if path in s:
            out |= s
            for c, pol in ev.cond:
                out |= I.params(c, st)
    return out


def noreturn(v):
    return v.op == "noreturn"


def run(rep, root, thorough):
    A = Analysis(root, only=public)
    ip = A.ip
    I = Influence(ip)
    n_opt = n_alone = n_fwd = n_cond = 0
    pub = {r.entry.fn.pay.node: r.entry for r in A.runs}
    for r in list(A.runs):
        e = r.entry
        dv = defaults(e)
        allp = [(n, p) for n, p in e.params + e.kwonly
                if n not in ("self", "cls")]
        own = dict(allp)
        loc = "%s:%d" % (e.modname, e.node.lineno)
        writes = "path" in own and any(
            w in e.qual.rsplit(".", 1)[-1] for w in ("save", "write"))
        got = I.params(r.value, r.state, settled=settled(r.events))
        if writes:
            got = got | sinks(I, r.events, r.state, own["path"])
        every = list(allp)
        if e.vararg:
            every.append(("*" + e.vararg, None))
        if e.kwarg:
            every.append(("**" + e.kwarg, None))
        names = {p.args[1] for p in got if p.op == "param"}
        for n, p in every:
            if n in NOT_OPTIONS:
                continue
            n_opt += 1
            if n in names:
                rep.ob(True, {"option": "%s(%s)" % (e.qual, n)}
                       if n_opt % 40 == 0 else None)
                continue
            if noreturn(r.value):
                continue
            if n in ALIASES and ALIASES[n] in own:
                # a deprecated name: alone, it acts like the current one
                v, st, evs = call(ip, e, {n}, {**dv, ALIASES[n]:
                                               dv.get(ALIASES[n])})
                if v is None or noreturn(v) or \
                        p in I.params(v, st, settled=settled(evs)) or \
                        writes and p in sinks(I, evs, st, own["path"]):
                    rep.ob(True)
                    continue
            rep.ob(False)
            rep.add("option-ignored", "%s|%s" % (e.qual, n),
                    "%s accepts '%s' but neither its result nor what it "
                    "writes depends on it" % (e.qual, n), where=loc,
                    entry=e.qual)
            names.add(n)     # reported
        # with every other option left at its default
        opts = [n for n, _ in allp if n in dv]
        if len(opts) > 1 and not writes:
            for n in opts:
                if n in NOT_OPTIONS or n in WITH_OTHERS or n in ALIASES or \
                        own[n] not in got:
                    continue
                v, st, evs = call(ip, e, {n}, dv)
                if v is None or noreturn(v):
                    continue
                n_alone += 1
                if ip.kind(v) is None and is_const(v) and v.args[1] is None:
                    continue
                ok = own[n] in I.params(v, st, settled=settled(evs))
                rep.ob(ok)
                if not ok:
                    rep.add("option-ignored-alone", "%s|%s" % (e.qual, n),
                            "with every other option at its default the "
                            "result of %s does not depend on '%s'" % (
                                e.qual, n), where=loc, entry=e.qual)
        # arguments handed on under another option's name
        for ev in r.events:
            if ev.kind != "enter" or ev.target.op != "func":
                continue
            a = ev.target.pay.node.args
            fn = [x.arg for x in a.posonlyargs + a.args]
            kwo = [x.arg for x in a.kwonlyargs]
            kw = dict(ev.data[1])
            for n, x in list(zip(fn, ev.data[0])) + list(kw.items()):
                if n not in own or getattr(x, "op", "") != "param" or \
                        x is own[n] or x.args[1] not in own or \
                        x is not own[x.args[1]] or \
                        x.args[1] not in fn + kwo:
                    continue
                q = x.args[1]
                other = kw.get(q, dict(zip(fn, ev.data[0])).get(q))
                if other is x:
                    continue
                rep.ob(False)
                rep.add("options-swapped", "%s|%s|%s" % (e.qual, n, q),
                        "%s passes its '%s' as '%s' to %s" % (
                            e.qual, q, n, ev.target.pay.qual),
                        where="%s:%d" % ev.loc, entry=e.qual)
        # delegation
        last = e.qual.rsplit(".", 1)[-1]
        for ev in r.events:
            if ev.kind != "enter" or ev.target.op != "func" or \
                    len(ev.stack) != 1:
                continue
            f = ev.target
            g = pub.get(f.pay.node)
            if g is None or g is e or not e.is_method or \
                    g.qual.rsplit(".", 1)[-1] != last:
                continue
            a = f.pay.node.args
            fn = [x.arg for x in a.posonlyargs + a.args]
            args, kw = ev.data[0], dict(ev.data[1])
            if any(getattr(x, "op", "") == "star" for x in args) or \
                    "**" in kw:
                continue
            bound = {**dict(zip(fn, args)), **kw}
            for n in fn + [x.arg for x in a.kwonlyargs]:
                if n not in own:
                    continue
                n_fwd += 1
                ok = n in bound and own[n] in I.params(bound[n], r.state)
                rep.ob(ok)
                if not ok:
                    rep.add("option-not-forwarded", "%s|%s" % (e.qual, n),
                            "%s does not hand '%s' on to %s: it passes %s" % (
                                e.qual, n, g.qual, show(bound[n], 2)[:80]
                                if n in bound else "nothing"),
                            where="%s:%d" % ev.loc, entry=e.qual)
    block_functions(rep, A, I)
    rep.floor("parameters", n_opt, 400)
    rep.floor("options with the others at their default", n_alone, 80)
    rep.counts["parameters forwarded by methods"] = n_fwd
    rep.explanation = (
        "For every parameter of every public function and method: the "
        "returned value (through containers, closures, objects and loops) or "
        "the calls that write the output depend on it; options also with all "
        "other options at their default; methods hand each parameter to the "
        "function of the same name they delegate to.")
    rep.assumptions = [
        "dependence is data or control dependence in the result's term; "
        "validation that only raises does not count",
        "options that act only with another one: " + ", ".join(
            "%s (with %s)" % x for x in sorted(WITH_OTHERS.items()) if x[1]),
    ]


# (block function, argument) the analysis cannot follow: the grid of the block
# is injected by the map function; keys of a data frame's columns
CB_EXEMPT = {("_length_chunk", "gdf"), ("_length_chunk", "radius"),
             ("_pred_df", "prefix")}
EFFECTS = ("setitem", "aug", "mutcall", "setattr")


def leaves(x):
    if x.op == "phi":
        return leaves(x.args[1]) + leaves(x.args[2])
    return [x]


def block_functions(rep, A, I):
    """Option values bound to a function that library code runs later are
    used by it."""
    ip = A.ip
    seen = {}
    locs = {}
    for f, pa, pk, how, cev, st in A.callbacks():
        if f.pay.name == "<lambda>":
            continue
        try:
            v, evs, state, blocks, first = A.run_callback(f, pa, pk, cev, st)
        except Exception:
            ip.stack = []
            continue
        a = f.pay.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = dict(zip(names, pa))
        b.update(dict(pk))
        if cev.kind == "callback":
            for k, x in cev.data[0].args[2]:
                if k in names + [y.arg for y in a.kwonlyargs] or \
                        a.kwarg and k not in LIBRARY_KW:
                    b.setdefault(k, x)
        b.update({k: x for k, x in blocks.items() if not k.startswith("*")})
        used = I.params(
            [v] + [y for e in evs if e.kind in EFFECTS
                   for y in (e.target, e.data)]
            + [c for e in evs for c, _ in e.cond], state, values=True)
        for k, x in b.items():
            if is_const(x) or x.op in ("func", "ext", "tuple", "obj", "cls"):
                continue
            if k in ("dtype", "meta", "name", "chunks", "args", "kwargs",
                     "block_info", "block_id", "partition_info"):
                continue
            q = f.pay.qual
            if f.pay.name == "wrapper" or cev.stack:
                q += " in " + cev.stack[-1][0]
            key = (q, f.pay.name, k)
            locs[key] = cev.loc
            lv = [y for y in leaves(x) if not is_const(y) and
                  y.op not in ("func", "ext", "tuple", "obj", "cls",
                               "dictval", "listval")]
            if not lv:
                continue
            seen[key] = seen.get(key, False) or x in used or \
                any(y in used for y in lv)
    for (q, n, k), ok in sorted(seen.items(), key=str):
        if (n, k) in CB_EXEMPT:
            continue
        rep.ob(ok, {"block function": q, "argument": k})
        if not ok:
            rep.add("argument-unused-by-block-function", "%s|%s" % (q, k),
                    "the value passed as '%s' to %s for execution on the "
                    "blocks does not influence what it computes" % (k, q),
                    where="%s:%d" % locs[q, n, k])
    rep.counts["values bound to block functions"] = len(seen)


def call(ip, e, free, dv):
    """Run an entry with the parameters in `free` symbolic and every other
    one that has a default at its default."""
    st = ip.new_state()
    args = [q if m in free or dv.get(m) is None else dv[m]
            for m, q in e.params]
    if e.vararg:
        args.append(mk("star", ip.param("*" + e.vararg, "list[Raster]"
                                        if "raster" in e.vararg else None,
                                        e.qual)))
    kw = {m: q if m in free or dv.get(m) is None else dv[m]
          for m, q in e.kwonly}
    n0 = len(ip.events)
    try:
        v = ip.call(e.fn, tuple(args), kw, st, None)
    except Exception:
        ip.stack = []
        return None, None, ()
    return v, st, ip.events[n0:]
