"""C02: processing ends in every schedule; a cancel leaves a gap free prefix; nothing runs or
reads the file after Wait(), and the file stays readable until then."""
import cutlib
import pipelib as P


def check(ctx):
    rng = ctx.rng
    ctx.model("Pipeline", "Pipeline_small", workers=4)
    ctx.model("Pipeline", "Pipeline_live", workers=2)
    if not ctx.quick:
        ctx.proof("PipelineProof")
        ctx.model("Pipeline", "Pipeline_big", workers=8)
        ctx.model("Pipeline", "Pipeline_live2", workers=4)

    scheds = P.schedules(ctx, "PipelineSched_c")
    if not ctx.quick:
        scheds += P.schedules(ctx, "PipelineSched_f")
    total = len(scheds)
    if len(scheds) > ctx.pick(600, 20000):
        scheds = rng.sample(scheds, ctx.pick(600, 20000))
    scheds += P.schedules(ctx, "PipelineSched_simc", num=ctx.pick(150, 3000), seed=ctx.seed)
    files, runs = {}, []
    for i, s in enumerate(scheds):
        if s["b"] not in files:
            files[s["b"]] = P.mkfile(ctx, rng, s["b"], "a%d.pbf" % s["b"])
        f = files[s["b"]]
        runs.append(dict(f, w=s["w"], mode="gated", steps=s["steps"], seed=i, retain=True))
    ctx.sample({"schedule": scheds[0]["steps"], "blocks": scheds[0]["b"], "workers": scheds[0]["w"]})
    P.execute(ctx, runs, "scheduled run")

    runs = []
    for i in range(ctx.pick(160, 2000)):
        n = rng.choice([1, 2, 3, 5, 16, 17, 33, 64, 100, 200])
        f = P.mkfile(ctx, rng, n, "f%d.pbf" % i)
        w = rng.choice([1, 2, 2, 3, 4, 8, 16])
        r = dict(f, w=w, mode="free", seed=ctx.seed * 100000 + i, slow=rng.choice(["", "writer", "workers", "both", "none"]),
                 procs=rng.choice([1, 2, 8]), retain=True)
        if rng.random() < 0.25:
            r["nilwriter"] = True
        if rng.random() < 0.7:
            op = rng.choice(["recv", "send", "write", "wexit"]) if not r.get("nilwriter") else rng.choice(["recv", "wexit"])
            k = rng.randrange(1, w + 1) if op == "wexit" else rng.randrange(1, n + 1)
            r["cancelat"] = {"op": op, "n": k}
        elif w > 1 and n > 2 and not r.get("nilwriter"):
            r["hold"] = rng.randrange(0, n - 1)
            r["holduntil"] = n - 1
        runs.append(r)
    P.execute(ctx, runs, "free run", per_proc=12)
    cutlib.check(ctx)
    ctx.extra["schedules_enumerated"] = total
    ctx.assumptions += ["a run that makes no progress for 20 s after everything was released is a hang"]
