"""Generic helpers that propose smaller plans."""

def without(seq, i):
    return seq[:i] + seq[i + 1:]

def patched(plan, **kw):
    out = dict(plan)
    out.update(kw)
    return out

def chunks(seq):
    """Sequences with a chunk removed, big chunks first."""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield seq[:i] + seq[i + size:]
        size //= 2

def ops_and_rows(plan, key="ops"):
    ops = plan[key]
    for c in chunks(ops):
        yield patched(plan, **{key: c})
    for i, op in enumerate(ops):
        if isinstance(op, dict) and len(op.get("rows", [])) > 0:
            for c in chunks(op["rows"]):
                yield patched(plan, **{key: ops[:i] + [dict(op, rows=c)] + ops[i + 1:]})
