"""C03: secretness is sticky: whatever is computed from a secret is secret, and nothing else is."""
from pv import wire, values, outexpr
from pv.outcase import OutCase, opsig

RULE = ("One case = one program (update or preview) whose engine answers and inputs are randomly secret, with 6 random Output "
        "expressions; is_secret of each is compared with a reference model that follows the secret through every combinator; "
        "distinct by operation nesting, non-trivial if a secret is involved.")
ASSUMPTIONS = ["callbacks are deterministic"]


def plan(tier, seed):
    n = 4800 if tier == "quick" else 20000
    return [{"i": i, "preview": i % 2 == 0, "schedule": [None, None, None, "shuffle"][i // 2 % 4]} for i in range(n)]


def minimum(tier):
    return {"secret_expressions": 300, "plain_expressions": 300}


def run(case, ctx):
    c = OutCase(ctx, case, secret=0.15)
    ctx.evaluated(len(c.exprs))
    if not c.ok(ctx):
        return
    for a, m, x, d in c.triples():
        ctx.count("secret_expressions" if m.secret else "plain_expressions")
        ctx.check(x[3] == m.secret, "secretness-lost" if m.secret else "secretness-invented",
                  lambda: f"{a!r}: is_secret is {x[3]}, expected {m.secret}; sources {c.srcs!r} preview={c.preview}")
        if m.secret:
            ctx.sig(opsig(a))
            ctx.sample({"expression": repr(a)[:600], "preview": c.preview})
