"""C01: every block is delivered to the writer exactly once, intact and in file order."""
import pipelib as P


def check(ctx):
    rng = ctx.rng
    ctx.model("Pipeline", "Pipeline_small", workers=4)
    if not ctx.quick:
        ctx.proof("PipelineProof")
        ctx.model("Pipeline", "Pipeline_big", workers=8)

    # (A) every schedule of the model for small B, W, and simulated schedules for larger ones
    scheds = []
    for cfg in ["PipelineSched_a", "PipelineSched_b"] + ctx.pick([], ["PipelineSched_d", "PipelineSched_e"]):
        scheds += P.schedules(ctx, cfg)
    exhaustive = len(scheds)
    if len(scheds) > ctx.pick(400, 20000):
        scheds = rng.sample(scheds, ctx.pick(400, 20000))
    scheds += P.schedules(ctx, "PipelineSched_sim", num=ctx.pick(150, 3000), seed=ctx.seed)
    files = {}
    runs = []
    for i, s in enumerate(scheds):
        if s["b"] not in files:
            files[s["b"]] = P.mkfile(ctx, rng, s["b"], "a%d.pbf" % s["b"])
        f = files[s["b"]]
        runs.append(dict(f, w=s["w"], mode="gated", steps=s["steps"], seed=i, retain=bool(i % 2)))
    ctx.sample({"schedule": scheds[0]["steps"], "blocks": scheds[0]["b"], "workers": scheds[0]["w"]})
    P.execute(ctx, runs, "scheduled run")

    # (B) free runs of the real thing: workers, stalls, block held back until all others are through
    runs = []
    for i in range(ctx.pick(120, 1500)):
        n = rng.choice([1, 2, 3, 5, 16, 17, 33, 64, 65, 100, 129, 257, 300])
        f = P.mkfile(ctx, rng, n, "f%d.pbf" % i, headers=rng.random() < 0.9)
        w = rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 8, 12, 16, 33])
        r = dict(f, w=w, mode="free", seed=ctx.seed * 100000 + i, slow=rng.choice(["", "writer", "workers", "both", "none"]),
                 procs=rng.choice([1, 2, 3, 8]), retain=rng.random() < 0.5)
        if w > 1 and n > 2 and rng.random() < 0.6:
            r["hold"] = rng.randrange(0, n - 1)
            r["holduntil"] = rng.choice([n - 1, max(1, (n - 1) // 2)])
        if rng.random() < 0.2:
            r["nilwriter"] = True
            r.pop("hold", None)
            r.pop("holduntil", None)
        runs.append(r)
    P.execute(ctx, runs, "free run", per_proc=12)

    # many blocks, and big blocks: merged events
    runs = []
    for n, w in ctx.pick([(3000, 4), (70000, 8)], [(3000, 4), (70000, 8), (140000, 16), (70000, 1), (300000, 8)]):
        f = P.mkfile(ctx, rng, n, "big%d_%d.pbf" % (n, w), sizes=lambda i: i % 9)
        runs.append(dict(f, w=w, mode="free", slow="none", merge=True, seed=ctx.seed, procs=8))
        if w > 1:
            runs.append(dict(f, w=w, mode="free", slow="none", merge=True, seed=ctx.seed + 1, procs=8,
                             hold=n // 3, holduntil=n - 1))
    f = P.mkfile(ctx, rng, 24, "wide.pbf", sizes=lambda i: [10, 65535, 65536, 65537, 300000, 1 << 20, 3 << 20][i % 7])
    runs.append(dict(f, w=5, mode="free", slow="both", seed=3, retain=True))
    P.execute(ctx, runs, "long run", per_proc=1)
    ctx.extra["schedules_enumerated"] = exhaustive
    ctx.assumptions += ["a run that makes no progress for 20 s after everything was released is a hang"]
