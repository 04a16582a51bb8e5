"""Inputs for the harness that TLC generates from the specification."""
import json, os, re, subprocess


def crash(main, args, work, stage):
    """Record the file operations of writing files; let TLC choose crash states (CrashGen.tla)."""
    exe = f"{work}/drive-os"
    if not os.path.exists(exe):
        main.build("os", work, exe)
    out = f"{work}/oplogs"
    os.makedirs(out, exist_ok=True)
    p = subprocess.run([exe, "-profile", "C09rec", "-seed", str(args.seed), "-tier", args.tier, "-out", out], env=main.ENV,
                       capture_output=True, text=True, timeout=300, errors="replace")
    if p.returncode:
        raise main.Broken(f"recording file operations failed: {p.stderr[:2000]}")
    logs = json.load(open(f"{out}/oplogs.json"))
    # One TLC process per part of the logs.
    parts = min(4, len(logs))
    procs = []
    chosen = [None] * len(logs)
    import concurrent.futures as cf

    def one(k):
        idx = list(range(k, len(logs), parts))
        inp = f"{out}/part{k}.json"
        json.dump([logs[i] for i in idx], open(inp, "w"))
        rc, o = main.tlc("CrashGen", "CrashGen.cfg", work, workers=1, mem="5g",
                         envs={"CRASH_IN": inp, "CRASH_OUT": f"{out}/chosen{k}-", "CRASH_FULL": "1" if args.tier == "thorough" else "0"})
        if rc != 0:
            raise main.Broken("TLC could not generate crash states:\n" + o[-3000:])
        for n, i in enumerate(idx):
            chosen[i] = f"{out}/chosen{k}-{n + 1}.json"

    with cf.ThreadPoolExecutor(parts) as ex:
        list(ex.map(one, range(parts)))
    total = 0
    for f in chosen:
        total += open(f).read().count('"k":')
    path = f"{out}/in.json"
    json.dump({"logs": f"{out}/logs.json", "chosen": chosen, "must": bool(stage.get("must"))}, open(path, "w"))
    return path, {"from": "spec/CrashGen.tla", "operation_logs": len(logs), "crash_states": total}


def layout(main, args, work, stage):
    """Files of random content laid out by the specification (GenLayout.tla)."""
    exe = f"{work}/drive-plain"
    if not os.path.exists(exe):
        main.build("", work, exe)
    out = f"{work}/made"
    os.makedirs(out, exist_ok=True)
    p = subprocess.run([exe, "-profile", "C11data", "-seed", str(args.seed), "-tier", args.tier, "-out", out], env=main.ENV,
                       capture_output=True, text=True, timeout=300, errors="replace")
    if p.returncode:
        raise main.Broken(f"drawing files failed: {p.stderr[:2000]}")
    files = json.load(open(f"{out}/files.json"))
    parts = min(6, len(files))
    made = [None] * len(files)
    import concurrent.futures as cf

    def one(k):
        idx = list(range(k, len(files), parts))
        inp = f"{out}/part{k}.json"
        json.dump([files[i] for i in idx], open(inp, "w"))
        rc, o = main.tlc("GenLayout", "GenLayout.cfg", work, workers=1, mem="3g",
                         envs={"LAYOUT_IN": inp, "LAYOUT_OUT": f"{out}/bytes{k}-"})
        if rc != 0:
            raise main.Broken("TLC could not make files:\n" + o[-3000:])
        for n, i in enumerate(idx):
            made[i] = f"{out}/bytes{k}-{n + 1}.json"

    with cf.ThreadPoolExecutor(parts) as ex:
        list(ex.map(one, range(parts)))
    path = f"{out}/in.json"
    json.dump({"files": f"{out}/files.json", "bytes": made}, open(path, "w"))
    return path, {"from": "spec/GenLayout.tla", "files": len(files)}


def hist(main, args, work, stage):
    """Behaviours of the specification, as sequences of calls (GenVibeCol.tla, TLC's simulator)."""
    import concurrent.futures as cf
    mix = stage["mix"]
    total = stage.get("n", 60) * (12 if args.tier == "thorough" else 1)
    parts = 4 if args.tier == "quick" else 8
    out = f"{work}/hist"
    os.makedirs(out, exist_ok=True)
    states = [0] * parts

    def one(k):
        rc, o = main.tlc("GenVibeCol", "GenVibeCol.cfg", work, workers=1, mem="2g", timeout=1200,
                         extra=("-simulate", f"num={(total + parts - 1) // parts}", "-depth", "100", "-seed", str(args.seed * 1000 + k)),
                         envs={"GEN_MIX": mix, "GEN_OUT": f"{out}/{k}-"})
        m = re.search(r"The number of states generated: (\d+)", o)
        if rc != 0 or not m:
            raise main.Broken("TLC could not make behaviours:\n" + o[-3000:])
        states[k] = int(m[1])

    with cf.ThreadPoolExecutor(parts) as ex:
        list(ex.map(one, range(parts)))
    files = sorted((f"{out}/{f}" for f in os.listdir(out) if f.endswith(".json") and f != "in.json"),
                   key=lambda f: [int(x) for x in re.findall(r"\d+", os.path.basename(f))])
    path = f"{out}/in.json"
    json.dump({"mix": mix, "files": files}, open(path, "w"))
    return path, {"from": "spec/GenVibeCol.tla", "behaviours": len(files), "states": sum(states)}


def faults(main, args, work, stage):
    """Histories of calls and failing operations (GenFaults.tla, TLC's simulator)."""
    total = stage.get("n", 240) * (10 if args.tier == "thorough" else 1)
    out = f"{work}/faults"
    os.makedirs(out, exist_ok=True)
    rc, o = main.tlc("GenFaults", "GenFaults.cfg", work, workers=1, mem="2g", timeout=600,
                     extra=("-simulate", f"num={total}", "-depth", "250", "-seed", str(args.seed * 100 + int(stage["mix"][1:]))),
                     envs={"GEN_OUT": f"{out}/"})
    m = re.search(r"The number of states generated: (\d+)", o)
    if rc != 0 or not m:
        raise main.Broken("TLC could not make histories:\n" + o[-3000:])
    files = sorted((f"{out}/{f}" for f in os.listdir(out) if re.fullmatch(r"\d+\.json", f)), key=lambda f: int(re.findall(r"\d+", f)[-1]))
    path = f"{out}/in.json"
    json.dump({"mix": stage["mix"], "files": files}, open(path, "w"))
    return path, {"from": "spec/GenFaults.tla", "histories": len(files), "states": int(m[1])}


def reads(main, args, work, stage):
    """Histories of calls and failing reads (GenReads.tla, TLC's simulator)."""
    total = stage.get("n", 500) * (8 if args.tier == "thorough" else 1)
    out = f"{work}/reads"
    os.makedirs(out, exist_ok=True)
    rc, o = main.tlc("GenReads", "GenReads.cfg", work, workers=1, mem="2g", timeout=600,
                     extra=("-simulate", f"num={total}", "-depth", "400", "-seed", str(args.seed * 100 + int(stage.get("mix", "C21")[1:]))), envs={"GEN_OUT": f"{out}/"})
    m = re.search(r"The number of states generated: (\d+)", o)
    if rc != 0 or not m:
        raise main.Broken("TLC could not make histories:\n" + o[-3000:])
    files = sorted((f"{out}/{f}" for f in os.listdir(out) if re.fullmatch(r"\d+\.json", f)), key=lambda f: int(re.findall(r"\d+", f)[-1]))
    path = f"{out}/in.json"
    json.dump({"mix": stage.get("mix", "C21"), "files": files}, open(path, "w"))
    return path, {"from": "spec/GenReads.tla", "histories": len(files), "states": int(m[1])}


def small(main, args, work, stage):
    """All small files within the bounds of GenSmall.tla."""
    out = f"{work}/small"
    os.makedirs(out, exist_ok=True)
    rc, o = main.tlc("GenSmall", "GenSmall.cfg", work, workers=1, mem="2g", timeout=600,
                     envs={"SMALL_OUT": f"{out}/all.json", "SMALL_DEEP": "1" if args.tier == "thorough" else "0"})
    m = re.search(r'<<"FILES", (\d+)>>', o)
    if rc != 0 or not m:
        raise main.Broken("TLC could not make the small files:\n" + o[-3000:])
    path = f"{out}/in.json"
    json.dump({"mix": stage["mix"], "file": f"{out}/all.json"}, open(path, "w"))
    return path, {"from": "spec/GenSmall.tla", "files": int(m[1])}


GENERATORS = {"reads": reads, "faults": faults, "small": small, "hist": hist, "crash": crash, "layout": layout}
