"""C02: functions executed inside the task graph are pure.

Every package function handed to a deferred executor (dask map_blocks /
map_overlap / reduction / delayed / map_partitions, xarray reduce, ...) is
interpreted with symbolic chunks.  Obligations per function: no write into
chunk storage it received, none into objects that outlive the call (module
globals, captured variables, closed-over containers, bound arguments), and no
call to a source of nondeterminism.
"""
from ..alias import mutated_roots
from ..analysis import Analysis, callee_name, stack_str, where
from ..values import show, walk

EFFECTS = ("setattr", "setitem", "aug", "mutcall", "delitem")
NONDET = ("numpy.random.", "random.", "time.", "datetime.datetime.now",
          "uuid.", "os.urandom", "secrets.", "os.getpid", "threading.get_ident")
# receivers that run the function immediately or only inspect it
IMMEDIATE = {"dask.utils.has_keyword", "inspect.signature", "callable",
             "functools.wraps", "numba.extending.register_jitable",
             "inspect.isfunction", ".register"}


def immediate(how):
    return how in IMMEDIATE or how.startswith("numba.")


def task_results(f, pa, cev, blocks):
    """Parameters that receive the unshared result of another task built in
    the same expression: delayed(f)(delayed(g)(...))."""
    if cev.kind != "delayed_call":
        return ()
    args, kw = cev.data
    names = [x.arg for x in f.pay.node.args.args]
    actual = dict(zip(names[len(pa):], args))
    actual.update(dict(kw))
    out = set()
    for n, v in actual.items():
        if n in blocks and v.op == "call":
            g = v.args[0]
            if g.op == "delayed" or g.op == "call" and callee_name(
                    g.args[0]).endswith("delayed"):
                out.add(blocks[n])
    return out


def run(rep, root, thorough):
    A = Analysis(root)
    ip = A.ip
    todo = [c for c in A.callbacks() if not immediate(c[3])]
    n_eff = 0
    funcs = set()
    jit_seen = set()
    for f, pa, pk, how, cev, st in todo:
        v, evs, state, blocks, first = A.run_callback(f, pa, pk, cev, st)
        funcs.add(f.pay.qual)
        bound = set()
        for x in list(pa) + [x for _, x in pk]:
            bound |= set(walk(x))
        ok = True
        fresh = task_results(f, pa, cev, blocks)
        for ev in evs:
            q, m, ln = where(ev)
            if ev.kind == "setglobal":
                ok = False
                rep.add("global-written", "%s|%s" % (q, show(ev.target)
                        if not isinstance(ev.target, str) else ev.target),
                        "assigns a global while a chunk is computed",
                        where="%s:%d" % (m, ln), entry=f.pay.qual,
                        path=how + " <- " + stack_str(cev))
            if ev.kind == "call":
                n = callee_name(ev.target.args[0])
                if ev.target.args[0].op == "ext" and n.startswith(NONDET) \
                        and not n.startswith(("time.perf", )):
                    ok = False
                    rep.add("nondeterministic", "%s|%s" % (q, n),
                            "%s called while a chunk is computed" % n,
                            where="%s:%d" % (m, ln), entry=f.pay.qual,
                            path=how + " <- " + stack_str(cev))
            if ev.kind not in EFFECTS:
                continue
            n_eff += 1
            t = ev.target
            if t.op == "obj" and t.args[0] < first and ev.kind != "aug" or \
                    t.op == "obj" and t.args[0] < first:
                ok = False
                rep.add("shared-object-written", "%s|%s" % (
                    q, ev.kind),
                    "writes an object that outlives the task (%s)" %
                    show(t, 2), where="%s:%d" % (m, ln), entry=f.pay.qual,
                    path=how + " <- " + stack_str(cev))
                continue
            for p in mutated_roots(ip, ev):
                if p.op != "param":
                    continue
                if p.args[1].startswith("**") and t is p:
                    continue
                if p in fresh:
                    continue
                ok = False
                what = "chunk it received" if p in blocks.values() else \
                    "value shared with other tasks"
                rep.add("input-block-written", "%s|%s" % (q, p.args[1]),
                        "%s of %s writes into the %s ('%s')" % (
                            ev.kind, show(t, 3)[:100], what, p.args[1]),
                        where="%s:%d" % (m, ln), entry=f.pay.qual,
                        path=how + " <- " + stack_str(cev))
        rep.ob(ok, {"task function": f.pay.qual, "run by": how,
                    "effects": sum(e.kind in EFFECTS for e in evs)})
    rep.floor("task functions", len(funcs), 20)
    rep.floor("hand-over sites", len(todo), 25)
    rep.counts["effect events"] = n_eff
    rep.explanation = (
        "Effect/alias analysis of each package function handed to a deferred "
        "executor, with symbolic chunks; one obligation per hand-over site.")
    rep.assumptions = [
        "functions supplied by the caller (map_blocks etc.) are out of scope",
        "library calls mutate arguments only through the listed mutators",
    ]
