"""What each check runs: TLC configurations of the specification, and profiles of calls on the real code."""

TRACE = "TLA+ specification checked by TLC; traces of the real code validated against it (TraceVibeCol.tla)"


def vc(name, what, **kw):
    return dict(module="MCVibeCol", cfg=f"mc/VC_{name}.cfg", what=what, **kw)


def faulty(name, inv, what):
    return vc(name, "faulty design: " + what, refuted=inv)


CODEC = [dict(module="MCCodec", cfg="mc/MCCodec_quick.cfg", what="words, codings and sections for 10-bit words: all words against "
              "those at which something changes", tier="quickonly"),
         dict(module="MCCodec", cfg="mc/MCCodec.cfg", what="words, codings and sections for all pairs of 10-bit words", tier="thorough", timeout=1500)]
ALLENC = vc("all_enc", "all encodings, three targets, two blocks or two batches", tier="thorough")
DEEP = vc("deep", "three blocks", tier="thorough")
CRASH = [dict(module="CrashFS", cfg="mc/CrashFS.cfg", what="the write protocol under process death and power loss, up to three blocks"),
         dict(module="CrashFS", cfg="mc/CrashFS_nosync.cfg", refuted="RefusedOrComplete", what="faulty design: no sync before the closing metadata"),
         dict(module="CrashFS", cfg="mc/CrashFS_order.cfg", refuted="RefusedOrComplete", what="faulty design: header completed after the closing metadata"),
         dict(module="CrashFS", cfg="mc/CrashFS_reach.cfg", refuted="SomeAccepted", what="crashes that leave an accepted file exist")]
LAYOUT = [dict(module="MCLayout", cfg="mc/MCLayout.cfg", what="writer's files and freely laid out files read back, every other byte is refused "
               "by the layout rules, every cut is unacceptable", tier="quickonly"),
          dict(module="MCLayout", cfg="mc/MCLayout_deep.cfg", what="the same for all encodings", tier="thorough", timeout=1500)]
def fbad(name, inv, what):
    return dict(module="Faults", cfg=f"mc/Faults_{name}.cfg", refuted=inv, what="faulty design: " + what)


def many(name, what, **kw):
    return dict(module="MCMany", cfg=f"mc/MM_{name}.cfg", what=what, **kw)


MANY = many("many", "a writer and two simple writers at once, two readers, a collection: every object and answer is its own")
MANYDEEP = many("many_deep", "the same with more values and reads", tier="thorough", timeout=2500)
FAULTS = [dict(module="Faults", cfg="mc/Faults_big.cfg", what="both writers as file operations of which up to three fail, any sequence of seven calls"),
          dict(module="Faults", cfg="mc/Faults_deep.cfg", what="four failures, nine calls", tier="thorough", timeout=1500)]
DISK = ["a power loss keeps, for each 4096-byte page, its content at the last sync or after some later write, independently of other pages",
        "size changes reach the disk in order, and a truncation before any later write of the same file",
        "the previous content of a path that is created again is gone from the moment of creation"]

PROPS = {
    "C01": dict(stages=[{}], mc=[vc("exact", "the file holds exactly the accepted pairs")] + CODEC + [ALLENC, DEEP,
                vc("words", "four ids and values each", tier="thorough")]),
    "C02": dict(stages=[{}], mc=[vc("packed", "blocks fit and are aligned"), vc("fit_deep", "the stored prefix is the longest one that fits"),
                vc("fit", "the same with blocks of up to four pairs", tier="thorough"),
                faulty("packed_bad", "Packed", "padding forgotten"), ALLENC]),
    "C03": dict(stages=[{}], mc=[vc("simple", "nothing lost or invented by the simple writer"),
                vc("simple_deep", "three batches, one pair per block", tier="thorough"),
                faulty("simple_bad", "SimpleExact", "pairs that did not fit are dropped"), ALLENC]),
    "C04": dict(stages=[{}], mc=[vc("stats", "stored statistics give the true aggregate"),
                faulty("stats_bad", "StatsTruthful", "smallest value stored as minus zero and read as zero"), ALLENC, DEEP] + CODEC),
    "C05": dict(stages=[{}], mc=[vc("prune", "pruned aggregation is the filtered aggregation, all allow and deny sets"),
                vc("prune_deep", "three blocks, four ids", tier="thorough"),
                faulty("prune_bad", "PruningSound", "blocks that only touch the filter's range are left out"),
                faulty("prune_signed", "PruningSound", "ids compared as signed words")]),
    "C06": dict(stages=[{}, {"profile": "C06gate", "flavor": "os"}],
                mc=[dict(module="ParAgg", cfg="mc/ParAgg.cfg", what="all interleavings of up to three workers, all small files"),
                    dict(module="ParAgg", cfg="mc/ParAgg_naive.cfg", refuted="ParallelSame", what="faulty design: empty partial results are merged"),
                    dict(module="ParAgg", cfg="mc/ParAgg_drop.cfg", refuted="ParallelSame", what="faulty design: remainder of the division left out"),
                    dict(module="ParAgg", cfg="mc/ParAgg_live.cfg", what="every aggregation finishes"),
                    dict(module="ParAgg", cfg="mc/ParAgg_big.cfg", what="more blocks and workers", tier="thorough"),
                    faulty("par_bad", "ParallelSame", "partial results merged from a zero minimum and maximum")]),
    "C07": dict(stages=[{}], mc=[vc("multi", "the pass from newest to oldest with a growing deny set is newest-wins"),
                faulty("multi_bad", "MultiSame", "each file compared with the next newer one only"), ALLENC, DEEP]),
    "C08": dict(stages=[{}], mc=[dict(module="BitmapCache", cfg="mc/BitmapCache.cfg", what="cache of the id bitmap"),
                dict(module="BitmapCache", cfg="mc/BitmapCache_stale.cfg", refuted="NothingKept", what="faulty design: decision to keep taken too early")]),
    "C09": dict(stages=[{"profile": "C09", "flavor": "os", "gen": "crash"}, {"profile": "faultplay", "flavor": "os", "gen": "faults", "mix": "C09"}],
                mc=CRASH + [FAULTS[0], fbad("notrunc", "RefusedOrComplete", "what a failed or earlier finalization left is not cut off")],
                assumptions=DISK),
    "C10": dict(stages=[{"flavor": "os"}, {"profile": "faultplay", "flavor": "os", "gen": "faults", "mix": "C10"}],
                mc=FAULTS + [fbad("noseek", "ExactlyOnce", "writing goes on where it stopped"),
                             fbad("record", "ExactlyOnce", "a block is recorded before it is synced"),
                             fbad("end", "ExactlyOnce", "the end moves while a block is written"),
                             fbad("drop", "ExactlyOnce", "pending pairs are dropped before they are written"),
                             fbad("close", "Honest", "an error of close is not reported"),
                             dict(module="Faults", cfg="mc/Faults_reach.cfg", refuted="NeverRecovers",
                                  what="histories in which much fails and the file is written nevertheless exist")]),
    "C11": dict(stages=[{}, {"profile": "C11read", "gen": "layout"}], mc=LAYOUT),
    "C12": dict(stages=[{"flavor": "race"}],
                mc=[dict(module="BitmapCache", cfg="mc/BitmapCache.cfg", what="goroutines using and switching the cache of one reader"),
                    dict(module="BitmapCache", cfg="mc/BitmapCache_nolock.cfg", refuted="NoRace", what="faulty design: no mutex"),
                    dict(module="BitmapCache", cfg="mc/BitmapCache_live.cfg", what="every call returns"),
                    dict(module="BitmapCache", cfg="mc/BitmapCache_big.cfg", what="more goroutines and calls", tier="thorough")]),
    "C13": dict(stages=[{}], mc=[vc("exact", "calls that are not actions leave no trace in the file"), vc("simple", "the same for the simple writer")]),
    "C14": dict(stages=[{"commands": "plain"}, {"profile": "C14fault", "commands": "os"}],
                mc=[vc("exact", "what a command stores is what its writer accepted"), vc("stats", "what a command shows is the true aggregate")]),
    "C15": dict(stages=[{"flavor": "os"}, {"profile": "C15crash", "flavor": "os", "gen": "crash", "must": True},
                        {"profile": "faultplay", "flavor": "os", "gen": "faults", "mix": "C15"}],
                mc=[CRASH[0], FAULTS[0], fbad("sync", "DurableFinal", "an error of sync is not reported"), dict(module="CrashFS", cfg="mc/CrashFS_noend.cfg", refuted="Durable", what="faulty design: no sync before success is reported")],
                assumptions=DISK),
    "C16": dict(stages=[{}], mc=[vc("zero", "an empty selection aggregates to zeros"),
                faulty("zero_bad", "EmptyZero", "extremes of nothing are the extreme words")]),
    "C17": dict(stages=[{}], mc=[many("reads", "reads in any order, the caller scribbling on what was returned"),
                                 many("alias", "faulty design: the reader hands out the same slices again", refuted="Answers"),
                                 many("filter", "faulty design: the pass over a collection takes decided ids out of the caller's filter",
                                      refuted="ACTION"),
                                 many("reads_deep", "the same with longer batches", tier="thorough"), MANYDEEP]),
    "C18": dict(stages=[{}], mc=LAYOUT),
    "C19": dict(stages=[{}, {"profile": "C19race", "flavor": "race"}],
                mc=[MANY, many("shared", "faulty design: simple writers share the array of pending pairs", refuted="Independent"),
                    many("byblock", "faulty design: decoded blocks kept by number, not by reader", refuted="Answers"),
                    many("reach", "histories with three finished files, a collection and a scribbled slice exist", refuted="NotAll"), MANYDEEP]),
    "C20": dict(stages=[{}], mc=[many("describe", "every reader describes its own file"),
                                 many("flags", "faulty design: the flag of the ids shown for the values", refuted="Described"),
                                 many("describe_all", "the same for all encodings of three files", tier="thorough")]),
    "C21": dict(stages=[{"flavor": "os"}, {"profile": "readplay", "flavor": "os", "gen": "reads"}, {"profile": "C21large", "flavor": "os"}],
                mc=[dict(module="ReadFaults", cfg="mc/ReadFaults.cfg", what="readers of two files as reads of which some fail or end early, any sequence of calls"),
                    dict(module="ReadFaults", cfg="mc/ReadFaults_deep.cfg", what="more blocks, calls and failures", tier="thorough", timeout=2500)]
                + [dict(module="ReadFaults", cfg=f"mc/ReadFaults_{n}.cfg", refuted=inv, what="faulty design: " + what) for n, inv, what in (
                    ("leak", "NoLeak", "a failed opening keeps the descriptor"),
                    ("skip", "Right", "a collection leaves out what it cannot read"),
                    ("zeros", "Right", "what lies beyond the end is read as zeros"),
                    ("keep", "Right", "a bitmap that was not read is kept"),
                    ("first", "Closed", "closing a collection stops at the first error"))]
                + [dict(module="ReadFaults", cfg="mc/ReadFaults_reach.cfg", refuted="NeverRecovers",
                        what="histories in which a reader answers rightly after failures exist")]),
}
PROPS["C22"] = dict(
    stages=[{"flavor": "os"}, {"profile": "faultplay", "flavor": "os", "gen": "faults", "mix": "C22", "n": 240},
            {"profile": "readplay", "flavor": "os", "gen": "reads", "mix": "C22", "n": 240}],
    mc=[dict(module="Faults", cfg="mc/Faults_big.cfg", what="a writer that is done with has given up its file, whatever failed"),
        fbad("keepopen", "Released", "finalizing and closing does not close"),
        dict(module="ReadFaults", cfg="mc/ReadFaults.cfg", what="open files are those of open readers, whatever reads fail"),
        dict(module="ReadFaults", cfg="mc/ReadFaults_leak.cfg", refuted="NoLeak", what="faulty design: a failed opening keeps the descriptor"),
        dict(module="ReadFaults", cfg="mc/ReadFaults_first.cfg", refuted="Closed", what="faulty design: closing a collection stops at the first error"),
        dict(module="ParAgg", cfg="mc/ParAgg.cfg", what="no goroutine outlives its aggregation"),
        dict(module="ParAgg", cfg="mc/ParAgg_live.cfg", what="every aggregation finishes"),
        dict(module="ParAgg", cfg="mc/ParAgg_eager.cfg", refuted="NoneLeft", what="faulty design: the aggregation returns with the first result")])
for k, n in dict(C01=60, C02=40, C03=60, C04=60, C05=60, C06=60, C07=60, C08=60, C13=80, C16=60, C17=80, C19=80, C20=60).items():
    PROPS[k]["stages"].append({"profile": "play", "gen": "hist", "mix": k, "n": n})
for k in ("C01", "C02", "C03", "C04", "C08", "C11", "C13", "C20"):
    PROPS[k]["stages"].append({"profile": "faultplay", "flavor": "os", "gen": "faults", "mix": k, "n": 120})
for k in ("C01", "C04", "C05", "C06", "C07", "C08", "C16"):
    PROPS[k]["stages"].append({"profile": "small", "gen": "small", "mix": k})
for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C13", "C16", "C17", "C19"):
    PROPS[k]["stages"].append({"profile": k + "large", "flavor": "race" if k == "C12" else ""})
for k in ("C10", "C15"):
    PROPS[k]["stages"].append({"profile": k + "large", "flavor": "os"})
for k in ("C05", "C06", "C08", "C13", "C16", "C20"):
    PROPS[k]["stages"].append({"profile": k + "bulk"})
for k in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C16", "C17"):
    PROPS[k]["stages"].append({"profile": k + "kin"})
PROPS["C01"]["mc"].append(dict(module="MCRuns", cfg="mc/MCRuns_quick.cfg", what="compressed columns behave like columns: all pairs of up to "
                               "two progressions of up to two 10-bit words"))
PROPS["C05"]["mc"].append(dict(module="MCRuns", cfg="mc/MCRuns.cfg", tier="thorough", timeout=2500, what="compressed columns behave like columns: "
                               "up to two progressions of up to three 10-bit words"))
NOTES = {
    "C01": "Quick: every boundary word of the 64-bit encodings as id, value and difference, every column style, all encodings, file histories; "
           "the codings exhaustively for 10-bit words. Sampled at 64 bits.",
    "C02": "The specification computes the longest fitting prefix and the exact size of every block write and estimate, and every call is compared with it.",
    "C03": "Random batch sequences around the flush thresholds; blocks are adopted from the file after checking they are the accepted batches.",
    "C04": "Image bytes of headers and index compared with the statistics of the pairs; aggregates with and without them.",
    "C05": "Filters derived from the ids of files of all shapes; both the aggregate and the candidate list are checked.",
    "C06": "All interleavings on the specification; on the code, block reads of the workers are released in chosen orders (gated pread).",
    "C07": "Random collections with overlapping ids, repeated calls, caching switched.",
    "C08": "Random files, with caching switched between requests; container boundaries.",
    "C09": "Crash states chosen by TLC from recorded operation logs, materialised and opened with the real reader. Assumes the disk model of Disk.tla.",
    "C10": "Every single file operation of scripted histories made to fail in turn (error, short, partial, late), followed by retries; for files of "
           "up to a MiB a sample of operations, and the writes of sampled bytes.",
    "C11": "Bytes of written files compared with the layout operators of the specification; files that the specification lays out are read by the code.",
    "C18": "Every truncation of several files, damaged ends, extensions and foreign data against the acceptance rule of the specification.",
    "C12": "Race detector on concurrent profiles, each result compared with the specification; all interleavings of the cache on the specification.",
    "C13": "Refused calls interleaved with accepted ones; the file must equal that of the accepted ones.",
    "C14": "Runs of the built commands, results checked as actions of the specification; every file operation of the writing commands made to fail.",
    "C15": "Sync coverage of every acknowledged byte from recorded operation logs, and power-loss states after success.",
    "C16": "Empty selections of every kind on random files.",
    "C17": "Repeated and interleaved reads, scribbling over returned slices, digests of files and filters.",
    "C19": "Interleaved lifetimes of many objects in one process.",
    "C20": "All encodings and block counts.",
    "C21": "Reads of every part of a file made to fail (error, partial, late), files cut and restored while open, closes made to fail, in "
           "histories from the specification's simulator and at random; also from several goroutines.",
    "C22": "Open descriptors, goroutines and directory entries of the process after calls of histories with refused files and failing "
           "operations, compared with the state of the specification; memory after hundreds of lives of files.",
}
NOT_CLAIMED = {}
for k, p in PROPS.items():
    p.setdefault("technique", TRACE)
    p["note"] = NOTES[k]
