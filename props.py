"""What every property's check does (see run.py for the stages)."""

PROPS = {}


def prop(pid, what, assumptions=()):
    def deco(f):
        PROPS[pid] = {"run": f, "what": what, "assumptions": list(assumptions)}
        return f
    return deco


@prop("C01", "FifoBucket model checked (ring = window of the history); recorded bucket histories "
             "validated against it with the real capacity 128")
def c01(r, thorough):
    r.mc("FifoBucket")
    r.tv("fifo", "FifoBucketTrace")


@prop("C02", "ArrayBucket model checked; recorded histories of the fixed-array bucket validated "
             "against it with the real capacity 128")
def c02(r, thorough):
    r.mc("ArrayBucket")
    r.tv("array", "ArrayBucketTrace")


@prop("C03", "LshTables model checked (every bucket = window of the insertions addressed to it); "
             "recorded histories of LSH tables of random shapes validated against it")
def c03(r, thorough):
    r.mc("LshTables")
    r.tv("lsh", "LshTablesTrace")


@prop("C04", "Addressing model checked (positional encoding is injective and in range; never stuck); "
             "recorded index computations, exhaustive for short codes, validated against it")
def c04(r, thorough):
    r.mc("Addressing")
    r.tv("address", "AddressingTrace")


@prop("C05", "HashMemo model checked (all spellings have one canonical form); recorded hash calls on many "
             "spellings of the same vectors validated against it, all four families")
def c05(r, thorough):
    r.mc("HashMemo")
    r.tv("memo", "HashMemoTrace")


@prop("C06", "Wta model checked (learning hidden windows is sound and complete); windows of real hashers "
             "learned from calls, checked for well-formedness, and every later call validated")
def c06(r, thorough):
    r.mc("WtaMC")
    r.mc("WtaMC", cfg="WtaMC2")
    r.tv("wta", "WtaTrace")


@prop("C07", "Minhash model checked (streaming queue = top-k); recorded bin maps and hash calls validated")
def c07(r, thorough):
    r.mc("MinhashMC")
    r.tv("minhash", "MinhashTrace")


@prop("C08", "Projection model checked (learning recovers any signed subset); signs of real hashers learned "
             "from unit vectors and every later call validated")
def c08(r, thorough):
    r.mc("ProjectionMC")
    r.tv("project", "ProjectionTrace")


@prop("C09", "Selection model checked (stepwise selection ends in an allowed active set for every table "
             "content, labels, fill order); recorded queries of real layers with controlled tables validated")
def c09(r, thorough):
    r.mc("SelectionMC")
    r.tv("guided", "SelectionTrace")


@prop("C10", "Selection model checked; recorded dense, random and exact-top selections of real layers validated")
def c10(r, thorough):
    r.mc("SelectionMC")
    r.tv("placed", "SelectionTrace")


@prop("C11", "Forward specified over an uninterpreted algebra; TLC turns recorded queries of real layers (chained "
             "layers, slots, sparse and dense) into the terms every observable must equal, evaluated with error bounds")
def c11(r, thorough):
    r.mc("ForwardMC", cfg="ForwardMCMore" if thorough else None)
    r.sp("forward", "ForwardTrace")


@prop("C12", "Train specified over an uninterpreted algebra (forward, cross-entropy errors, summed gradients, Adam or "
             "plain steps, parameter versions); TLC turns recorded training histories of real networks into the terms "
             "every weight, bias, moment and accumulator must equal, evaluated with error bounds")
def c12(r, thorough):
    r.mc("TrainMC", cfg="TrainMCMore" if thorough else None)
    r.sp("train", "TrainTrace")


@prop("C16", "Train and Index specifications with handles: recorded histories of networks forked under new owners "
             "(any tree of owners); every other handle must stay as it was bit for bit, tables and hash functions too, "
             "and the fork must be what the operation in place specifies")
def c16(r, thorough):
    r.mc("IndexMC")
    r.mc("ForwardMC", cfg="ForwardMCMore" if thorough else None)
    r.sp("trainfork", "TrainTrace")
    r.sp("forwardfork", "ForwardTrace")
    r.tv("indexfork", "IndexTrace")
    r.tv("layerfork", "IndexTrace")


@prop("C18", "Index model checked (clear, redraw, update and insert neuron by neuron ends indexed); tables, hash "
             "functions and buckets of real networks recorded over training histories and validated against it")
def c18(r, thorough):
    r.mc("IndexMC")
    r.tv("index", "IndexTrace")


@prop("C17", "Predict specification computes the forward pass of integer networks and the number of argmax hits "
             "(ties open); recorded predictions validated; Train and Index specifications: predictions interleaved "
             "with training leave parameters, tables and functions bit for bit, and training continues as specified")
def c17(r, thorough):
    r.mc("PredictMC")
    r.tv("predict", "PredictTrace")
    r.sp("trainpredict", "TrainTrace")
    r.tv("index", "IndexTrace")


@prop("C13", "Touch specification computes, for integer networks, which neurons a batch selects and which inputs are "
             "live; the parameters real batches changed (bit comparison) must lie inside")
def c13(r, thorough):
    r.mc("TouchMC", cfg="TouchMCMore" if thorough else None)
    r.tv("touch", "TouchTrace")


@prop("C14", "NodeOps specification of a neuron's life (per-slot activity, refusals, accumulators); behaviours drawn "
             "by TLC replayed on real neurons under one owner, every observable of every neuron compared after every step")
def c14(r, thorough):
    r.nodes("NodeOps", 6000 if thorough else 700)
    r.nodes("NodeOpsWide", 200 if thorough else 25)
    r.nodes("NodeOpsLong", 600 if thorough else 60, 400)


@prop("C15", "NodeOps with forks: behaviours over trees of owners drawn by TLC replayed on real neurons, every "
             "observable of every handle compared after every step",
      ["an owner id is not used again on a neuron it has already handed on (ids stand for one holder)"])
def c15(r, thorough):
    r.nodes("NodeOpsFork", 6000 if thorough else 700)
    r.nodes("NodeOpsForkWide", 200 if thorough else 25)
    r.nodes("NodeOpsForkLong", 600 if thorough else 60, 400)


@prop("C19", "Reader specification model checked (delivered = the lines before the first bad thing; errors are final and "
             "name the line); files and read attempts drawn by TLC, spelled out and replayed on the real reader with "
             "chunked input and I/O faults")
def c19(r, thorough):
    r.mc("ReaderMC")
    r.replay("ReaderGen", "reader", 30000 if thorough else 3000, 200)


@prop("C20", "Config specification model checked (a file's meaning is its settings over the defaults; nothing is shared); "
             "histories of loads, failed loads and modifications drawn by TLC, spelled out as JSON and replayed, every "
             "setting of every configuration compared after every step",
      ["JSON null, repeated names and names differing in case only are left open"])
def c20(r, thorough):
    r.mc("ConfigMC")
    r.replay("ConfigGen", "config", 10000 if thorough else 1000, 40)


@prop("C21", "Driver specification of the program (epochs, whole batches, evaluations, rehash/rebuild flags, stopping at bad "
             "data) model checked over all small configurations with ghost counters and liveness; traces of the real "
             "program (hooked build) on drawn configurations and datasets validated")
def c21(r, thorough):
    r.mc("DriverMC")
    r.build_main()
    r.tv("driver", "DriverTrace")


@prop("C22", "Accuracy specification (running, overall and final reports are the fraction right of the examples evaluated "
             "so far) model checked against the true history; the log of the real program interleaved with its hooks "
             "validated")
def c22(r, thorough):
    r.mc("AccuracyMC")
    r.build_main()
    r.tv("driver", "AccuracyTrace")


@prop("C23", "Build specification model checked (rows of one list are disjoint and use it up; a write shows in its cell "
             "only); built networks of drawn shapes (layers, tables, slots, blank state, given or drawn parameters, "
             "single-cell writes) validated; what the real program builds its network from compared with its configuration")
def c23(r, thorough):
    r.mc("BuildMC")
    r.build_main()
    r.tv("build", "BuildTrace")
    r.tv("program", "BuildTrace")


@prop("C24", "Stats specification model checked (counting bucket by bucket gives the specified averages); average sample "
             "sizes real networks report with controlled tables, and batches the real program announces, validated",
      ["the exact-top and random modes' sample sizes are left open"])
def c24(r, thorough):
    r.mc("StatsMC")
    r.build_main()
    r.tv("stats", "StatsTrace")
    r.tv("driver", "StatsTrace")


@prop("C26", "Launch specification of a run from start to exit model checked over all environments (arguments, "
             "configuration file, dataset files, profiles); its outcomes, one per environment, are what the real program "
             "must come to in each of them (exhaustive)")
def c26(r, thorough):
    r.mc("Launch")
    r.build_main()
    d = r.sub("launch")
    r.gen("Launch", "prog.ndjson", d, cfg="LaunchGen", workers="1")
    r.traces += sum(1 for _ in open(d + "/prog.ndjson"))
    r.harness("launch", "launch")


@prop("C25", "Concurrent specification (copy on write, every read and write a step, all interleavings) model checked; "
             "recorded histories of owners working at the same time on forks of one network, under the race detector, "
             "validated: everyone gets what it would have got alone, the original stays, no races")
def c25(r, thorough):
    r.mc("Concurrent")
    r.mc("Concurrent", cfg="Concurrent3")
    r.build_race()
    d = r.harness("concurrent", "concurrent")
    r.races(d)
    r.sp("concurrent", "ConcurrentTrace", d)
