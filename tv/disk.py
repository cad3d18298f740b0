"""Storing files on a disk that is too small, judged by Store.tla (C18, C19)."""

from __future__ import annotations

from tv import sandbox


def stores(ctx, writers, tries):
    """writers: [(name, write(dir), whole(dir) -> bool)]; whole tells in the parent whether everything is
    there, without it the files must be those stored with room."""
    for flaw in ("none", "ignore", "count"):
        r = ctx.tlc("Store", constants=dict(MaxTotal=5, Flaw=f'"{flaw}"'), invariants=["Honest", "Able"],
                    expect_ok=flaw == "none", label=f"Store with flaw {flaw}")
        if bool(r.violated) == (flaw == "none"):
            raise AssertionError(f"the model of stores misses {flaw}")
    recs, notes = [], []
    for name, write, whole in writers:
        root = sandbox.scratch_dir(ctx, "store")
        sandbox.give(root)
        c = sandbox.run(lambda: write(root) and None, root=root)
        sizes = [len(v) for v in sandbox.tree(root).values() if isinstance(v, bytes)]
        if whole is None:
            whole = lambda r, ref=sandbox.tree(root): sandbox.tree(r) == ref
        if c.result[0] != "ok" or not sizes or not whole(root):
            ctx.fail(f"{name} did not store its file: {c.result[:3]}")
            continue
        sandbox.wipe(root)
        n = max(sizes)
        lims = [0, 1, n - 1, n, n + 1, 10 * n] + [ctx.rng.randrange(1, n) for _ in range(tries)]
        for lim in lims:
            root = sandbox.scratch_dir(ctx, "store")
            sandbox.give(root)
            c = sandbox.run(lambda: write(root) and None, root=root, fsize=lim)
            try:
                there = bool(whole(root))
            except Exception:  # noqa: BLE001 - not even readable
                there = False
            recs.append(dict(id=len(recs), out="ok" if c.result[0] == "ok" else "err", whole=there, roomy=lim >= n))
            notes.append(dict(store=name, room=lim, size=n, result=repr(c.result[:3])[:200]))
            ctx.count("stores_" + recs[-1]["out"])
            sandbox.wipe(root)
    for v in ctx.tlc("StoreTrace", cases=recs, label="StoreTrace").records:
        ctx.comparisons += 1
        if not v["fine"]:
            k = notes[v["id"]]
            ctx.fail(f"{k['store']} with room for {k['room']} of {k['size']} bytes "
                     f"{'passed for success' if recs[v['id']]['out'] == 'ok' else 'failed'}: {k['result']}", k)
