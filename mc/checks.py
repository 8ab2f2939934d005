"""What each check runs.  h: harness, s: scenario, p: preemption bound, e: bound on departures from
the default environment answer, t: bound on their sum; quick/thorough override per tier."""
SCHED = ["sequentially consistent memory; threads switch at lock, condition, thread and system call operations and after unlocks",
         "std::atomic and shared_ptr reference counts are not scheduling points of their own"]
def D(**kw):
    kw["delay"] = 1
    return kw

TASKNOTE = "Every schedule of the stated thread programs within the delay/preemption bound on the real scheduler; worker pools of 1-3 threads and 2-4 tasks. Trusts the interposed pthread model and sequential consistency."
TASKTECH = "stateless model checking of the real task scheduler under a controlled thread scheduler, delay-bounded exhaustive"
SIM = ["the simulated btrfs (metadata search, reference lookup, share requests, paths, delayed allocation, commits) answers as the kernel does",
       "worker threads run one at a time in a fixed order in these runs unless stated (their interleavings are explored in C14-C17, C21)"]
DTECH = "stateless model checking of the whole daemon binary over a simulated btrfs: exhaustive enumeration of small filesystems, user acts and kernel answers at every call"
def L(prop, **kw):
    return D(prop=prop, **kw)
def layout_runs(prop, modes=(0, 1, 2, 3)):
    """Every small filesystem, several shapes of bound."""
    q = [dict(h="scan", s="layouts", params=L(prop, files=2, extents=2, len=2, letters=3), thorough=dict(params=L(prop, files=2, extents=2, len=3, letters=2), time=900)),
         dict(h="scan", s="layouts", params=L(prop, files=1, extents=3, len=3, letters=2), thorough=dict(params=L(prop, files=1, extents=3, len=3, letters=3), time=900)),
         dict(h="scan", s="layouts", params=L(prop, files=2, extents=1, len=4, letters=3), thorough=dict(params=L(prop, files=2, extents=1, len=5, letters=3), time=900)),
         dict(h="scan", s="layouts", params=L(prop, files=2, extents=1, len=4, letters=2, eager=1)),
         dict(h="scan", s="layouts", params=L(prop, files=2, extents=1, len=4, letters=2, srccomp=1, compress=1), thorough=dict(params=L(prop, files=2, extents=2, len=3, letters=2, srccomp=1, compress=1), time=900)),
         dict(h="scan", s="layouts", params=L(prop, files=2, extents=1, len=2, letters=2, tails=1), thorough=dict(params=L(prop, files=2, extents=2, len=2, letters=2, tails=1), time=900)),
         dict(h="scan", s="layouts", params=L(prop, variants=10, subvol=1, files=2, extents=1, len=2, letters=2), thorough=dict(params=L(prop, variants=9, files=2, extents=1, len=4, letters=2, reuse=1), time=900))]
    q += [dict(h="scan", s="layouts", params=L(prop, variants=10, subvol=1, files=2, extents=1, len=2, letters=2, mode=m), thorough=dict(params=L(prop, variants=9, files=2, extents=1, len=3, letters=2, mode=m), time=900)) for m in modes]
    return q

CHECKS = {
"C06": dict(technique="exhaustive operation sequences on the real hash table against a reference, plus preemption-bounded interleavings", note="Every sequence of stores (front, and six random positions), removals and lookups on two hashes of one bucket and one of another, from buckets of 0, 3, 254, 255 and 256 pairs; table files with every order of up to three of seven entries of one bucket, some recorded as slow or alike but for that; two and three threads with the background threads of the table within the bound.", assumptions=SCHED, runs=[
    dict(h="hash", s="seq", params=D(depth=1)), dict(h="hash", s="seq", params=D(depth=2), thorough=dict(params=D(depth=3), time=1200)),
    dict(h="hash", s="load", params=D(cells=3), thorough=dict(params=D(cells=6))),
    dict(h="hash", s="conc", params=D(ops=1), p=1, thorough=dict(params=D(ops=1), p=2, time=900)),
    dict(h="hash", s="conc", params=D(ops=2), p=0, thorough=dict(params=D(ops=2), p=1, time=900)),
    dict(h="hash", s="conc", params=D(ops=1, threads=3), p=0, thorough=dict(params=D(ops=1, threads=3), p=1, time=900))]),
"C07": dict(technique="stateless model checking of the real hash table and its background threads over a simulated file: every change during every write, every write error, every crash point and torn write", note="Every sequence of changes to up to two regions with flushes between, one to three further changes while a region is being written, write errors and short writes; then shutdown, or kill or power loss at every point of the sequence of file operations with torn writes at page granularity, and a restart. Whole daemon runs told to end at any call, with a second event: the table in memory at the end is the table in the file.", assumptions=SCHED + ["after loss of power each page of an unsynced write is on disk or not"], runs=[
    dict(h="hash", s="flush", params=D(regions=1, ops=3), e=3, thorough=dict(params=D(regions=1, ops=5), e=5, time=600)),
    dict(h="hash", s="flush", params=D(regions=2, ops=2), e=2, thorough=dict(params=D(regions=3, ops=3), e=3, time=600)),
    dict(h="hash", s="flush", params=D(regions=2, ops=3, errors=1), e=2, thorough=dict(params=D(regions=2, ops=3, rounds=3, errors=1), e=3, time=900)),
    dict(h="hash", s="flush", params=D(regions=1, ops=1, rounds=2, points=2), p=1, e=1, thorough=dict(params=D(regions=1, ops=2, rounds=2, points=2), p=2, e=1, time=900)),
    dict(h="hash", s="conc", params=D(ops=1, stop_points=1), p=1, thorough=dict(params=D(ops=1, stop_points=1), p=2, time=900)),
    dict(h="hash", s="crash", params=D(rounds=2), e=0, thorough=dict(params=D(rounds=3), e=0, time=900)),
    dict(h="hash", s="crash", params=D(rounds=1), e=1, thorough=dict(params=D(rounds=2), e=1, time=900)),
    dict(h="hash", s="crash", params=D(rounds=2, fresh=1), e=0, thorough=dict(params=D(rounds=2, fresh=1), e=1, time=900)),
    dict(h="stop", s="stop", params=D(mode=4, full=1), e=1, thorough=dict(params=D(mode=4, full=1), e=2, time=400)), dict(h="stop", s="stop", params=D(mode=0, full=1), e=1, thorough=dict(params=D(mode=0, full=1), e=2, time=400)),
    dict(h="stop", s="stop", params=D(mode=4, full=1, unique=1, threads=2), e=1)]),
"C08": dict(technique=DTECH + "; every crash point and loss of unsynced data in a history of saves; exhaustive file contents for loading", note="Histories of three to four saves with every single failure of a file operation; killed or power lost at every operation, with every shorter prefix of the directory changes and loss of data never synced, on btrfs with and without fsync and on other filesystems; then started from what is left. Every combination of positions from a small alphabet in old and new format, loaded and saved; 25 kinds of damage at every line.", assumptions=["directory changes reach the disk in order", "btrfs flushes a file renamed over another"], runs=[
    dict(h="state", s="save", params=D(), e=1, thorough=dict(params=D(), e=2, time=600)), dict(h="state", s="save", params=D(btrfs=0), e=1, thorough=dict(params=D(btrfs=0, mode=0), e=2, time=600)),
    dict(h="state", s="save", params=D(fsync=0), e=1), dict(h="state", s="save", params=D(mode=0), e=1),
    dict(h="state", s="reload", params=D(mode=0)), dict(h="state", s="reload", params=D(mode=4, few=1)), dict(h="state", s="reload", params=D(mode=1, few=1)), 
    dict(h="state", s="damaged", params=D(mode=4)), dict(h="state", s="damaged", params=D(mode=0)), dict(h="state", s="damaged", params=D(mode=3))]),
"C09": dict(technique=DTECH + "; termination, kill and slow calls at every call, then a restart", note="Termination, kill, and calls that take 200 s or 1000 s (across the periodic save) at every call of the first run, singly and a slow call anywhere combined with a termination during a slow write of the daemon's own files; every scan mode, four filesystems; then a second run over the saved position and hash table. Compared with the duplicate-free space of the layout.", assumptions=SIM + ["the hash table survives a kill as it was in memory (what it loses on a crash is checked in C07)"], runs=[
    dict(h="restart", s="restart", params=D(mode=m), e=1, thorough=dict(params=D(mode=m, threads=2), e=1, time=600)) for m in (4, 0, 1, 2, 3)] + [
    dict(h="restart", s="restart", params=D(mode=4, base=b, combo=1), e=2, thorough=dict(params=D(mode=4, base=b), e=2, time=600)) for b in (0, 1, 3)] + [
    dict(h="restart", s="restart", params=D(mode=m, base=b, combo=1), e=2, thorough=dict(params=D(mode=m, base=b), e=2, time=600)) for m, b in ((0, 0), (1, 1), (2, 3), (3, 1))]),
"C10": dict(technique=DTECH + "; termination, kill and slow calls at every call, then a restart", note="As C09; every data block read in the second run is compared with what was completely read and finished before the interruption (or, after a kill, before the last periodic save).", assumptions=SIM, runs=[
    dict(h="restart", s="progress", params=D(mode=m), e=1, thorough=dict(params=D(mode=m), e=2, time=900)) for m in (4, 0, 1, 2, 3)] + [
    dict(h="restart", s="progress", params=D(mode=m, big=0, pairs=1), e=2, thorough=dict(params=D(mode=m, big=1, pairs=1), e=2, time=300)) for m in (0, 1, 2, 3)] + [
    dict(h="restart", s="progress", params=D(mode=4, pairs=1), e=2, time=200)] + [
    dict(h="state", s="save", params=D(mode=m, final=1), e=1, thorough=dict(params=D(mode=m, final=1), e=2, time=300)) for m in (4, 0, 1, 2, 3)]),
"C11": dict(technique=DTECH, note="Every sequence of three files of twelve kinds (plain, inline, sparse, preallocated, 20 extents, compressed, unreadable, ...), partly from before the range, in up to two subvolumes and a snapshot; two to three extents of every size at and just above each class boundary, adjacent or apart, with tree blocks, old extents, gaps and other block groups between; every pair of 15 ways to reference an extent; two workers with switches at every call. Compared: every block of each extent in range is read, and each extent is looked up by exactly one size class. Also the first start on old data, and a start from positions saved by another scan mode.", assumptions=SIM, runs=[
    dict(h="modes", s="modes", params=D(mode=4, files=3), thorough=dict(params=D(mode=4, files=4), time=600)),
    dict(h="modes", s="modes", params=D(mode=4, files=2, gens=1, snap=2), thorough=dict(params=D(mode=4, files=3, gens=1, snap=1), time=900)),
    dict(h="modes", s="modes", params=D(mode=4, files=2, gens=1, leaf=1, subs=2)),
    dict(h="modes", s="modes", params=D(mode=4, files=2, gens=2, subs=2, kinds=5), thorough=dict(params=D(mode=4, files=2, gens=2, subs=2))), dict(h="modes", s="tiers", params=D(extents=2, gens=2, few=1), thorough=dict(params=D(extents=2, gens=2, gaps=5))),
    dict(h="modes", s="modes", params=D(mode=4, files=2, gens=1, subs=2, kinds=5, other=1)),
    dict(h="modes", s="tiers", params=D(extents=2, gaps=6), thorough=dict(params=D(extents=3, gaps=6), time=1500)),
    dict(h="modes", s="tiers", params=D(extents=3, gaps=5, few=1), time=120, thorough=dict(params=D(extents=4, gaps=4, few=1), time=1500)),
    dict(h="modes", s="tiers", params=D(extents=2, gaps=7, gens=1), time=120, thorough=dict(params=D(extents=3, gaps=7, gens=1, few=1), time=1500)),
    dict(h="modes", s="tiers", params=D(extents=2, gaps=5, gens=1, mixed=1, leaf=1), time=120),
    dict(h="modes", s="refs", params=D(mode=4), thorough=dict(params=D(mode=4, extents=3), time=600)),
    dict(h="modes", s="refs", params=D(mode=4, threads=2, points=1), p=1, thorough=dict(params=D(mode=4, extents=2, threads=2, points=1), p=2, time=900)),
    dict(h="modes", s="held", params=D(mode=4, threads=2, points=1), p=1, thorough=dict(params=D(mode=4, threads=3, points=1), p=2, time=900))]),
"C12": dict(technique=DTECH + "; two workers under a controlled scheduler", note="As C11 for each of the four per-subvolume modes; extents shared by two files in parts, scanned by two workers with switches at every system call within the bound. Also the first start on old data, and a start from positions saved by another scan mode.", assumptions=SIM, runs=[
    dict(h="modes", s="modes", params=D(mode=m, files=3), thorough=dict(params=D(mode=m, files=4), time=600)) for m in (0, 1, 2, 3)] + [
    dict(h="modes", s="modes", params=D(mode=m, files=2, gens=1, snap=2, **x), thorough=dict(params=D(mode=m, files=3, gens=1, snap=1, **x), time=900)) for m, x in ((0, {}), (1, dict(leaf=1)), (2, {}), (3, dict(leaf=1)))] + [
    dict(h="modes", s="modes", params=D(mode=m, files=2, subs=2, gens=1, leaf=m % 2)) for m in (0, 1, 2, 3)] + [
    dict(h="modes", s="modes", params=D(mode=m, files=2, subs=2, gens=2, kinds=5), thorough=dict(params=D(mode=m, files=2, gens=2, subs=2))) for m in (0, 1, 2, 3)] + [
    dict(h="modes", s="modes", params=D(mode=m, files=2, subs=2, gens=1, kinds=5, other=1)) for m in (0, 1, 2, 3)] + [
    dict(h="modes", s="refs", params=D(mode=m), thorough=dict(params=D(mode=m, extents=3), time=600)) for m in (0, 1, 2, 3)] + [
    dict(h="modes", s="refs", params=D(mode=m, threads=2, points=1), p=1, thorough=dict(params=D(mode=m, threads=2, points=1), p=2, time=900)) for m in (0, 2)] + [
    dict(h="modes", s="held", params=D(mode=m, threads=2, points=1), p=1, thorough=dict(params=D(mode=m, threads=3, points=1), p=2, time=900)) for m in (0, 1, 2, 3)]),
"C13": dict(technique=DTECH + "; user acts at every call of several passes", note="Ten acts (new data, files, subvolumes, snapshots, replaced files, deletions, transactions) at every metadata query, lookup, open and read of the first minutes, singly and in pairs, and every sequence of up to three acts between passes; a subvolume that becomes read-only for some minutes at any of these calls just after new data; addresses of freed extents reused or not; every scan mode. Compared: every block in every file that exists at the end was read after it was written.", assumptions=SIM, runs=[
    dict(h="modes", s="passes", params=D(mode=m, reuse=r), e=1, thorough=dict(params=D(mode=m, reuse=r, until=70), e=2, time=900)) for m in (4, 0, 1, 2, 3) for r in (0, 1)] + [
    dict(h="modes", s="passes", params=D(mode=m, times=3, reuse=1, gap=50), thorough=dict(params=D(mode=m, times=4, reuse=1, gap=50), time=900)) for m in (4, 0, 1, 2, 3)] + [
    dict(h="modes", s="passes", params=D(mode=m, times=2, reuse=0, gap=200), thorough=dict(params=D(mode=m, times=3, gap=200), time=900)) for m in (4, 0, 2)] + [
    dict(h="modes", s="passes", params=D(mode=0, acts=3, until=1, reuse=1), e=2)]),
"C14": dict(technique=TASKTECH, note=TASKNOTE, assumptions=SCHED, runs=[
    dict(h="task", s="mix", params=D(main_ops=1, thread_ops=1), p=1, thorough=dict(p=2, time=1500)),
    dict(h="task", s="mix", params=D(main_ops=1, thread_ops=1, workers=1), p=1),
    dict(h="task", s="mix", params=D(main_ops=2, thread_ops=0), p=1, thorough=dict(p=2, time=900)),
    dict(h="task", s="mix", params=D(main_ops=2, thread_ops=1), p=0, thorough=dict(p=1, time=1500)),
    dict(h="task", s="append_order", params=D(), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="fifo", p=1, params=dict(tasks=4), thorough=dict(params=dict(tasks=5), time=900)),
    dict(h="task", s="merge", params=D(), p=2, thorough=dict(p=4, time=600)),
    dict(h="task", s="again", params=D(), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="waiting", params=D(workers=1), p=1, thorough=dict(p=2, time=600)),
    dict(h="task", s="waiting", params=D(workers=2), p=1, thorough=dict(p=2, time=900)),
    dict(h="task", s="requeue", params=D(), p=1, thorough=dict(p=2, time=600)),
    dict(h="task", s="destroyed", params=D(), p=1, thorough=dict(p=2, time=900))]),
"C15": dict(technique=TASKTECH, note=TASKNOTE + " The whole daemon told by signal to pause at any call and to go on later, in three scan modes.", assumptions=SCHED, runs=[
    dict(h="task", s="control", params=D(calls=2), p=1, thorough=dict(p=2, time=900)),
    dict(h="task", s="control", params=D(calls=1, tasks=2), p=2, thorough=dict(p=3, time=900)),
    dict(h="task", s="control", params=D(calls=3, tasks=1), p=1, thorough=dict(p=2, time=900)),
    dict(h="task", s="paused", params=D(), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="handover", params=D(), p=1, thorough=dict(p=2, time=600)),
    dict(h="task", s="limit", params=D(), p=1, thorough=dict(p=2, time=600)),
    dict(h="task", s="cancel", params=D(), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="destroyed", params=D(), p=1, thorough=dict(p=2, time=900)),
    dict(h="task", s="load", params=D(ticks=3), p=0, thorough=dict(params=D(ticks=5), time=1200))] + [
    dict(h="stop", s="pause", params=D(mode=m), e=1, thorough=dict(params=D(mode=m, threads=2, points=1), p=1, e=1, time=900)) for m in (4, 0, 2)] + [
    dict(h="stop", s="pause", params=D(mode=0, threads=2, load=1), e=1)]),
"C16": dict(technique=TASKTECH, note=TASKNOTE, assumptions=SCHED, runs=[
    dict(h="task", s="exclusion", params=D(), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="exclusion", params=D(tasks=3), p=2, thorough=dict(p=3, time=1200)),
    dict(h="task", s="exclusion", params=D(tasks=3, workers=3), p=1, thorough=dict(p=2, time=1200))] + [
    dict(h="modes", s="held", params=D(mode=m, threads=2, points=1), p=1, thorough=dict(params=D(mode=m, threads=3, points=1), p=2, time=900)) for m in (4, 0, 1, 2, 3)]),
"C17": dict(technique=TASKTECH, note=TASKNOTE, assumptions=SCHED, runs=[
    dict(h="task", s="barrier", params=D(), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="barrier", params=D(workers=2), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="barrier_tasks", params=D(), p=2, thorough=dict(p=3, time=600)),
    dict(h="task", s="destroyed", params=D(), p=1, thorough=dict(p=2, time=900))]),
"C18": dict(
    technique="exhaustive operation sequences against a reference plus preemption-bounded interleavings of the real tracker",
    note="Complete for the stated depth/positions and preemption bound; sequentially consistent scheduling at lock operations.",
    assumptions=SCHED,
    runs=[dict(h="progress", s="seq", params=dict(prune=0, depth=6), thorough=dict(params=dict(prune=0, depth=8), time=600)),
          dict(h="progress", s="seq", quick=dict(params=dict(depth=9, positions=4)), thorough=dict(params=dict(depth=14, positions=5), time=600)),
          dict(h="progress", s="conc", p=2, quick=dict(params=dict(threads=2)), thorough=dict(p=4, time=1200)),
          dict(h="progress", s="conc", p=1, quick=dict(params=dict(threads=3)), thorough=dict(p=2, time=1200))]),
"C19": dict(technique="exhaustive operation sequences against a reference cache plus preemption-bounded interleavings of the real cache",
    note="All sequences of lookup/expire/insert/prune/clear/size changes to the stated depth over 3 keys; 2-3 threads within the preemption bound. State-merged runs are complemented by unmerged ones.", assumptions=SCHED, runs=[
    dict(h="cache", s="seq", params=dict(prune=0, depth=5), thorough=dict(params=dict(prune=0, depth=6), time=900)),
    dict(h="cache", s="seq", params=dict(depth=6), thorough=dict(params=dict(depth=9), time=600)),
    dict(h="cache", s="conc", p=2, params=dict(threads=2), thorough=dict(p=4, time=600)),
    dict(h="cache", s="conc", p=1, params=dict(threads=3), thorough=dict(p=2, time=600))]),
"C20": dict(technique="preemption-bounded interleavings and exhaustive operation sequences of the real handle maps and pools",
    note="2-3 threads acquiring, copying, releasing handles of the same and different names, within the preemption bound; descriptors, objects and pool items are counted at creation and destruction.", assumptions=SCHED, runs=[
    dict(h="handles", s="fds", p=2, thorough=dict(p=3, time=600)), dict(h="handles", s="fds", p=1, params=dict(threads=3), thorough=dict(p=2, time=600)),
    dict(h="handles", s="named", p=2, thorough=dict(p=3, time=600)), dict(h="handles", s="named", p=1, params=dict(threads=3), thorough=dict(p=2, time=600)),
    dict(h="handles", s="named_seq", params=dict(prune=0, depth=6), thorough=dict(params=dict(prune=0, depth=7), time=600)),
    dict(h="handles", s="resources", p=2, thorough=dict(p=3, time=600)), dict(h="handles", s="resources", p=1, params=dict(threads=3), thorough=dict(p=2, time=600)),
    dict(h="handles", s="footprint"),
    dict(h="handles", s="pool", p=2, thorough=dict(p=3, time=600)), dict(h="handles", s="pool", p=1, params=dict(threads=3), thorough=dict(p=2, time=600))]),
"C21": dict(technique="preemption-bounded interleavings of threads using the real lock sets and operation locks",
    note="2-4 threads taking, trying, releasing locks on overlapping names and operation types in every program of the stated shape, every schedule in the preemption bound.", assumptions=SCHED, runs=[
    dict(h="locks", s="lockset", p=2, params=dict(threads=2), thorough=dict(p=3, time=600)), dict(h="locks", s="lockset", p=1, params=dict(threads=3), thorough=dict(p=2, time=600)),
    dict(h="locks", s="wakeups", p=0, params=dict(threads=3), thorough=dict(p=1, time=600)), dict(h="locks", s="wakeups", p=1, params=dict(threads=2), thorough=dict(p=2, time=600)),
    dict(h="locks", s="multi", p=2, params=dict(threads=3), thorough=dict(p=3, time=600)), dict(h="locks", s="multi", p=1, params=dict(threads=4), thorough=dict(p=2, time=600))]),
"C22": dict(technique="exhaustive enumeration of tree contents against an ordered listing, over a simulated kernel search",
    note="Every subset of items over the stated key alphabets (neighbouring types, generations, item sizes up to a 64K leaf, block groups) and every query position at and around them; kernel TREE_SEARCH_V2 semantics (order, generation filter, item count, buffer overflow) are reimplemented in the harness.",
    assumptions=["the simulated TREE_SEARCH_V2 orders, filters and truncates as the kernel does"], runs=[
    dict(h="tree", s="objects"), dict(h="tree", s="offsets"), dict(h="tree", s="pages", params=dict(items=3), thorough=dict(params=dict(items=4), time=600)), dict(h="tree", s="csums", thorough=dict(params=dict(blocks=9), time=600)),
    dict(h="tree", s="data_extents", params=dict(chunks=2, extents=2), thorough=dict(params=dict(chunks=3, extents=2), time=1500)),
    dict(h="tree", s="data_extents", params=dict(chunks=2, extents=2, walk=1), thorough=dict(params=dict(chunks=3, extents=2, walk=1), time=900)),
    dict(h="tree", s="data_extents", params=dict(chunks=3, extents=1, walk=1))]),
"C23": dict(technique="exhaustive enumeration of position sets, targets and fetch answers against a linear search",
    note="Every subset of the position universe, every target and step, every fetch answer policy with bounded departures from it.", assumptions=[], runs=[
    dict(h="seeker", s="small", e=2, thorough=dict(e=3, time=600)), dict(h="seeker", s="narrow", e=1, thorough=dict(e=2, time=600)), dict(h="seeker", s="wide", e=0, thorough=dict(e=1, time=900))]),
"C24": dict(technique="exhaustive enumeration of file layouts and walks against the layout itself, over a simulated kernel search",
    note="Every sequence of up to 4 segments of 7 kinds, with 5 kinds of file end and 3 kinds of neighbour, from every start in both directions; patterns repeated beyond two result pages.",
    assumptions=["the simulated TREE_SEARCH_V2 orders, filters and truncates as the kernel does", "files of non-zero size that do not change during the walk"], runs=[
    dict(h="extents", s="layouts", params=dict(segments=4), thorough=dict(params=dict(segments=5), time=900)),
    dict(h="extents", s="repeated", params=dict(segments=2, items=26), thorough=dict(params=dict(segments=3, items=40), time=1800)),
    dict(h="extents", s="inlines")]),
"C31": dict(technique=DTECH + "; a termination request at every call and thread schedule after it", note="Termination by SIGTERM or SIGINT at every call of a run in every scan mode, workers paused before, a slow call at the same time, all or single writes failing from then on, a second request and slow or failing calls at every later call; for requests during calls on the daemon's own files, every thread schedule of the shutdown within the delay bound. Exit status, time, work begun after the request, and table entries on disk for the positions saved last.", assumptions=SIM, runs=[
    dict(h="stop", s="stop", params=D(mode=m), e=1, thorough=dict(params=D(mode=m), e=2, time=400)) for m in (4, 0, 1, 2, 3)] + [
    dict(h="stop", s="stop", params=D(mode=m, unique=1), e=1, thorough=dict(params=D(mode=m, unique=1), e=2, time=400)) for m in (4, 0, 3)] + [
    dict(h="stop", s="stop", params=D(mode=4, unique=1, threads=2), e=1), dict(h="stop", s="stop", params=D(mode=4, threads=2, sending=1), e=1), dict(h="stop", s="stop", params=D(mode=0, sending=1), e=1),
    dict(h="stop", s="stop", params=D(mode=4, home=1), e=3, thorough=dict(params=D(mode=4, home=1), e=4, time=400)), dict(h="stop", s="stop", params=D(mode=0, home=1), e=2),
    dict(h="stop", s="stop", params=D(mode=4, home=1, kinds=1, later=0, spoints=1), p=1, e=1, time=200, thorough=dict(params=D(mode=4, home=1, kinds=1, later=1, spoints=1), p=1, e=2, time=900)),
    dict(h="stop", s="stop", params=D(mode=0, home=1, kinds=1, later=0, spoints=1), p=1, e=1, time=200, thorough=dict(params=D(mode=0, home=1, kinds=1, later=0, spoints=1, threads=2), p=2, e=1, time=900))]),
"C32": dict(technique="exhaustive operation sequences and preemption-bounded interleavings of the real rate limiter and estimator under virtual time",
    note="All sequences of borrow/wait/rate and update/wait operations to the stated depth, with virtual time; concurrent users within the preemption bound. Throttling: every sequence of up to 4 (5) operations of two kinds and up to four durations, with idle time between, under five throttle factors, and two threads at once.", assumptions=SCHED, runs=[
    dict(h="time", s="limiter", params=dict(depth=3), thorough=dict(params=dict(depth=4), time=900)),
    dict(h="time", s="limiter_conc", p=2, thorough=dict(p=3, time=600)), dict(h="time", s="limiter_conc", p=1, params=dict(threads=3), thorough=dict(p=2, time=600)),
    dict(h="time", s="estimator", params=dict(depth=5), thorough=dict(params=dict(depth=6), time=900)),
    dict(h="time", s="waiters", p=1, thorough=dict(p=2, time=900)),
    dict(h="safety", s="throttle", params=D(depth=3), thorough=dict(params=D(depth=4), time=900)),
    dict(h="safety", s="throttle", params=D(depth=4, idle=1, times=3), thorough=dict(params=D(depth=5, idle=1, times=3), time=600)),
    dict(h="safety", s="throttle", params=D(callers=2, depth=2, idle=1, times=3), thorough=dict(params=D(callers=2, depth=3, idle=1), time=600))]),
"C33": dict(technique="exhaustive enumeration of system call answers against a reference file",
    note="Every answer sequence (full, each partial length, interruption, error, end of file) of the system calls under the complete-or-fail helpers, up to 3 departures from full success.", assumptions=[], runs=[
    dict(h="io", s="helpers", e=3, thorough=dict(e=5, params=dict(size=8), time=600)), dict(h="io", s="refused")]),
"C34": dict(technique="exhaustive operation sequences against a reference byte array on the real buffer under address and undefined-behaviour sanitizers",
    note="Every operation sequence to the stated depth over buffers of a few bytes with every offset and length in and around the bounds; two threads copying, comparing, clearing and viewing two buffers in every order, within the preemption bound.", assumptions=["memory errors are those the sanitizers detect"], runs=[
    dict(h="bytevec", s="ops", params=dict(depth=2, size=3), thorough=dict(params=dict(depth=3, size=3), time=900)),
    dict(h="bytevec", s="ops", params=dict(depth=3, size=2), thorough=dict(params=dict(depth=4, size=2), time=900)),
    dict(h="bytevec", s="ops", params=dict(depth=2, size=3, ctor=1), thorough=dict(params=dict(depth=3, size=3, ctor=1), time=900)),
    dict(h="bvshare", s="bv", p=1, thorough=dict(p=2, time=600))]),

"C01": dict(technique=DTECH, note="Every small filesystem in the stated shapes, every single user act of ten kinds at every call the daemon makes on eight base filesystems, every mix of share answers; every mode. Byte-for-byte comparison with the user's own view.", assumptions=SIM,
    runs=layout_runs(1) + [
    dict(h="scan", s="race", params=D(), e=1, thorough=dict(params=D(acts=2, kinds=6), e=2, time=1500)),
    dict(h="scan", s="race", params=D(kinds=5, mode=0), e=1, thorough=dict(params=D(mode=0), time=600)),
    dict(h="scan", s="answers", params=D(), e=4, thorough=dict(e=6, time=900))]),
"C02": dict(technique=DTECH, note="Every small filesystem in the stated shapes, extent mode and the four per-subvolume modes, compared with the set of duplicate extents of the layout; also where the top directory makes new files not copied on write, or not compressed.", assumptions=SIM, runs=layout_runs(2) + [
    dict(h="scan", s="layouts", params=L(2, dirflags=d, files=2, extents=1, len=3, letters=2), thorough=dict(params=L(2, dirflags=d, files=2, extents=2, len=2, letters=2), time=600)) for d in (1, 2)]),
"C03": dict(technique=DTECH, note="Every small filesystem in the stated shapes; data space referenced by user files before and after, and the extents of files with no duplicate; the same with share requests refused from any moment on.", assumptions=SIM, runs=layout_runs(3) + [
    dict(h="scan", s="layouts", params=L(3, refuse=1, zeros=0, files=2, extents=1, len=4, letters=3), e=1, thorough=dict(params=L(3, refuse=1, zeros=0, files=2, extents=2, len=2, letters=3), e=1, time=600)),
    dict(h="scan", s="layouts", params=L(3, refuse=1, zeros=0, files=2, extents=1, len=3, letters=3, mode=0), e=1)]),
"C04": dict(technique=DTECH, note="Every small filesystem with zero blocks in the stated shapes; extent maps and contents after the pass.", assumptions=SIM, runs=layout_runs(4)),
"C35": dict(technique=DTECH, note="Every single failure of any system call (errno from a list of up to 8) at every call, every deletion or truncation of one of four files at every call, and persistent failures of one file, with per-file outcome, descriptors left open and exit status; one pass and several.", assumptions=SIM, runs=[
    dict(h="fault", s="faults", params=D(errors=2, onepass=1), e=1, thorough=dict(params=D(errors=8, onepass=1), time=900)),
    dict(h="fault", s="faults", params=D(errors=1, users=8), e=1, thorough=dict(params=D(errors=8, users=8), time=900)),
    dict(h="fault", s="faults", params=D(errors=1, persist=1), e=1, thorough=dict(params=D(errors=1, persist=1, mode=0), time=900)),
    dict(h="fault", s="faults", params=D(errors=1, users=8, mode=0), e=1, thorough=dict(params=D(errors=8, users=8, mode=0), time=900)),
    dict(h="fault", s="faults", params=D(errors=1, users=4, mode=1), e=1), dict(h="fault", s="faults", params=D(errors=1, users=4, mode=2), e=1), dict(h="fault", s="faults", params=D(errors=1, users=4, mode=3), e=1),
    dict(h="fault", s="faults", params=D(errors=1, threads=2), e=1, thorough=dict(params=D(errors=2, threads=2, onepass=1), e=2, time=900))]),
"C27": dict(technique="stateless model checking of the real open-by-inode code over a simulated filesystem: every user act at every system call", note="Twenty acts (renames, replacements, links, mounts, deletions of the file, its directories, its subvolume and those above) before any one or two system calls of three lookups, with and without openat2; the descriptor returned is compared with the inode asked for.", assumptions=SIM[:1], runs=[
    dict(h="safety", s="opens", params=D(openat2=1), e=1, thorough=dict(params=D(openat2=1, others=1), e=2, time=900)),
    dict(h="safety", s="opens", params=D(openat2=0), e=1, thorough=dict(params=D(openat2=0, others=1), e=2, time=900)),
    dict(h="safety", s="opens", params=D(openat2=0), e=2, time=100), dict(h="safety", s="opens", params=D(openat2=1), e=2, time=100)]),
"C28": dict(technique=DTECH, note="Eight filesystems; every single and double failure or short transfer of calls on temporary files, their creation and the reads and share requests around them; workers copying at the same time under every schedule within the bound. Every use of a temporary file is attributed to its worker; sources are compared byte for byte.", assumptions=SIM[:1], runs=[
    dict(h="safety", s="tmpfiles", params=D(), thorough=dict(params=D(points=1, threads=2), p=1, time=300)),
    dict(h="safety", s="tmpfiles", params=D(errors=1), e=1), dict(h="safety", s="tmpfiles", params=D(errors=1), e=2, time=100),
    dict(h="safety", s="tmpfiles", params=D(threads=2, pairs=2, points=1), p=1, thorough=dict(params=D(threads=2, pairs=2, points=1), p=2, time=900)),
    dict(h="safety", s="tmpfiles", params=D(threads=3, pairs=3, points=1), p=1, thorough=dict(params=D(threads=3, pairs=3, points=1), p=2, time=900)),
    dict(h="safety", s="tmpfiles", params=D(threads=2, pairs=2, points=1, errors=1), p=0, e=1, thorough=dict(params=D(threads=2, pairs=2, points=1, errors=1), p=1, e=1, time=900))]),
"C05": dict(technique=DTECH, note="Every kind of wrong entry (20) for every block of eight filesystems, alone, in full buckets, and in pairs; tables filled with constants and disorder; every small filesystem over contents that really collide in the hash. Compared with a run on an empty table.", assumptions=SIM, runs=[
    dict(h="safety", s="junk", params=D(fill=f)) for f in range(5)] + [
    dict(h="safety", s="junk", params=D(entries=2, few=1), thorough=dict(params=D(entries=2), time=900))] + [
    dict(h="safety", s="junk", params=D(mode=m)) for m in range(4)] + [
    dict(h="scan", s="layouts", params=L(1, collide=1, files=2, extents=2, len=2, letters=2)),
    dict(h="scan", s="layouts", params=L(2, collide=1, files=3, extents=1, len=2, letters=3, zeros=0), thorough=dict(params=L(2, collide=1, files=3, extents=1, len=3, letters=3, zeros=0), time=900)),
    dict(h="scan", s="layouts", params=L(2, collide=1, files=2, extents=2, len=2, letters=2))]),
"C25": dict(technique="exhaustive enumeration of file layouts against the layout itself on the real address code over a simulated btrfs", note="Every sequence of up to 2 (3) segments of 14 kinds (plain, partly referenced, compressed, shared within the file, holes of both kinds, preallocated, zeros, many small extents, overwritten, adjacent), four kinds of file end, a second file and a snapshot sharing the extents: every block and every pair of blocks; addresses written to the table and read back; and a whole-daemon run that must find each block again at its stored address.", assumptions=SIM[:1], runs=[
    dict(h="addr", s="addr", params=D(segs=1)), dict(h="addr", s="addr", params=D(segs=2), thorough=dict(params=D(segs=3), time=900)),
    dict(h="addr", s="resolve", params=D(segs=1, secs=100, mode=0)), dict(h="addr", s="resolve", params=D(segs=2, secs=100), thorough=dict(params=D(segs=3, secs=100), time=900))]),
"C26": dict(technique="exhaustive enumeration of pairs of files and starting blocks on the real match extension code over a simulated btrfs", note="Every pair of files of up to 3 (4) blocks over holes, zeros and two (three) letters, stored compressed or not, in one extent or one per block, with aligned and unaligned ends, from every pair of equal blocks, within the extent or beyond, with one letter's hash toxic or not; every file of up to 6 blocks against itself; the same with two letters whose hashes collide, and with any one block already shared by the two files.", assumptions=SIM[:1], runs=[
    dict(h="addr", s="grow", params=D(len=3), thorough=dict(params=D(len=3, letters=5, tails=3), time=900)),
    dict(h="addr", s="grow", params=D(len=4, lenb=2), thorough=dict(params=D(len=4, lenb=4, tails=1), time=900)),
    dict(h="addr", s="grow", params=D(len=2, lenb=4), thorough=dict(params=D(len=2, lenb=5), time=900)),
    dict(h="addr", s="grow", params=D(len=3, letters=3, tails=3)),
    dict(h="addr", s="grow", params=D(len=5, one=1), thorough=dict(params=D(len=6, one=1), time=900)),
    dict(h="addr", s="grow", params=D(len=6, one=1, letters=3)),
    dict(h="addr", s="grow", params=D(len=3, share=1), thorough=dict(params=D(len=4, share=1, tails=1), time=900)),
    dict(h="addr", s="grow", params=D(len=3, collide=1, tails=1), thorough=dict(params=D(len=4, lenb=3, collide=1, tails=1), time=900)),
    dict(h="addr", s="grow", params=D(len=5, one=1, collide=1, tails=1))]),
"C29": dict(technique=DTECH, note="Every assignment of read-only to three subvolumes (one of them a snapshot) in every scan mode, and every single change of it before any call that depends on it, with new data written afterwards; a send of either or both of two subvolumes that ends before any share request or much later.", assumptions=SIM, runs=[
    dict(h="safety", s="readonly", params=D(mode=m)) for m in (4, 0, 1, 2, 3)] + [
    dict(h="safety", s="readonly", params=D(mode=m, flips=1), e=1, thorough=dict(params=D(mode=m, flips=1), e=2, time=900)) for m in (4, 0)] + [
    dict(h="safety", s="sending", params=D(mode=m), e=1, thorough=dict(e=2, p=1)) for m in (4, 0)]),
"C30": dict(technique=DTECH, note="Every assignment of lookup times (none, just below, at and above the limit) to up to three lookups, the same data written again in the same run and after a restart; table files with every order of up to three of seven entries, some recorded as slow, loaded; extents with 100 to 10001 references, known and unknown.", assumptions=SIM, runs=[
    dict(h="safety", s="toxic", params=D(pairs=4, again=1), e=3, thorough=dict(params=D(pairs=4, again=1), e=6, time=600)),
    dict(h="safety", s="toxic", params=D(pairs=4, again=1, mode=1), e=3),
    dict(h="safety", s="toxic", params=D(pairs=4, restart=1), e=3), dict(h="safety", s="toxic", params=D(pairs=4, restart=1, mode=0), e=3),
    dict(h="hash", s="load", params=D(cells=3), thorough=dict(params=D(cells=6))),
    dict(h="safety", s="many", params=D(), exec_timeout=150), dict(h="safety", s="many", params=D(mode=1), exec_timeout=150)]),
"C37": dict(technique="exhaustive enumeration of the kernel's answers to the requests of one dedupe call on the real code",
    note="Every source and destination position of the set, length up to five blocks with and without a partial last block, and every sequence of up to three unusual answers of the kernel (each shorter length, different data, refusal, interruption, nothing done, unknown status).", assumptions=[], runs=[
    dict(h="same", s="one", e=3, thorough=dict(e=6, params=dict(blocks=8), time=600)), dict(h="same", s="refused")]),
"C36": dict(technique="happens-before race detection on every explored schedule (stateless model checking of the real code, instrumented at every memory access)", note="The scenarios of the task scheduler, locks, caches, handles, progress tracker, rate limiter, shared helpers, hash table and whole daemon, built with memory-access instrumentation; on every schedule within the stated delay/preemption bound every pair of conflicting accesses must be ordered by locks, thread creation and joining, or atomic operations. Accesses inside the C and C++ runtime libraries are not seen; all atomic operations are taken as sequentially consistent.", assumptions=SCHED[:1] + SIM[:1], runs=[
    dict(h="task-race", s="mix", params=D(main_ops=1, thread_ops=1, workers=1), p=1, time=60, thorough=dict(params=D(main_ops=1, thread_ops=1), p=1, time=900)),
    dict(h="task-race", s="mix", params=D(main_ops=2, thread_ops=1), p=0, time=60, thorough=dict(p=1, time=900))] + [
    dict(h="task-race", s=s, params=D(), p=1, thorough=dict(p=2, time=400)) for s in ("again", "waiting", "destroyed", "handover", "control", "paused", "limit", "cancel", "barrier", "barrier_tasks")] + [
    dict(h="task-race", s="exclusion", params=D(), p=2, thorough=dict(p=3, time=400)),
    dict(h="task-race", s="load", params=D(ticks=3), p=0, thorough=dict(params=D(ticks=3), p=1, time=400)),
    dict(h="shared-race", s="crc", params=D(), p=2, thorough=dict(p=4, time=300)),
    dict(h="shared-race", s="errors", params=D(), p=2, thorough=dict(p=4, time=300)),
    dict(h="locks-race", s="lockset", params=dict(threads=2), p=2, thorough=dict(params=dict(threads=3), p=1, time=400)),
    dict(h="locks-race", s="wakeups", params=dict(threads=2), p=1, thorough=dict(p=2, time=400)), dict(h="locks-race", s="multi", p=1, thorough=dict(p=2, time=400)),
    dict(h="cache-race", s="conc", params=dict(threads=2), p=2, thorough=dict(params=dict(threads=3), p=1, time=400)),
    dict(h="handles-race", s="named", p=2, thorough=dict(params=dict(threads=3), p=1, time=400)), dict(h="handles-race", s="fds", p=2, thorough=dict(params=dict(threads=3), p=1, time=400)),
    dict(h="handles-race", s="resources", p=1, thorough=dict(p=2, time=400)),
    dict(h="handles-race", s="pool", p=2, thorough=dict(params=dict(threads=3), p=1, time=400)), dict(h="progress-race", s="conc", params=dict(threads=2), p=2, thorough=dict(params=dict(threads=3), p=1, time=400)),
    dict(h="time-race", s="waiters", p=1, thorough=dict(p=2, time=400)), dict(h="time-race", s="limiter_conc", p=1, thorough=dict(p=2, time=400)),
    dict(h="hash-race", s="conc", params=D(ops=1), p=0, thorough=dict(params=D(ops=1), p=1, time=900)), dict(h="hash-race", s="conc", params=D(ops=2), p=0, time=40, thorough=dict(params=D(ops=2), p=0, time=400)),
    dict(h="hash-race", s="flush", params=D(regions=1, ops=2), p=1, e=1, thorough=dict(params=D(regions=2, ops=2), p=1, e=1, time=400)),
    dict(h="scan-race", s="layouts", params=L(2, files=2, extents=1, len=2, letters=2, threads=2, points=1), p=0, thorough=dict(params=L(2, files=2, extents=1, len=2, letters=2, threads=2, points=1), p=1, time=900)),
    dict(h="scan-race", s="layouts", params=L(2, files=1, extents=1, len=1, letters=1, threads=2, points=1), p=1, thorough=dict(params=L(2, files=2, extents=1, len=1, letters=2, threads=2, points=1), p=1, time=900)),
    dict(h="safety-race", s="opens", params=D(openat2=0), e=1), dict(h="safety-race", s="tmpfiles", params=D(threads=2, pairs=2, points=1), p=1, thorough=dict(params=D(threads=3, pairs=3, points=1), p=1, time=900)),
    dict(h="safety-race", s="toxic", params=D(pairs=4, threads=2, again=1), e=1), dict(h="fault-race", s="faults", params=D(errors=1, threads=2), e=1, time=90),
    dict(h="state-race", s="reload", params=D(mode=4, few=1), e=0, time=30), dict(h="state-race", s="save", params=D(), e=1, time=90, thorough=dict(params=D(), e=1, time=400)),
    dict(h="restart-race", s="restart", params=D(mode=4, combo=1, threads=2), e=1, time=90, thorough=dict(params=D(mode=4, threads=2), e=1, time=400)),
    dict(h="modes-race", s="refs", params=D(mode=4, threads=2, points=1), p=1, time=50, thorough=dict(p=1, time=900)), dict(h="modes-race", s="refs", params=D(mode=0, threads=2, points=1), p=1, time=40, thorough=dict(p=1, time=900))] + [
    dict(h="modes-race", s="held", params=D(mode=m, threads=2, points=1), p=1, thorough=dict(p=2, time=400)) for m in (4, 0, 1, 2, 3)] + [
    dict(h="modes-race", s="tiers", params=D(extents=2, gaps=5, threads=2, points=1), p=0, time=30, thorough=dict(params=D(extents=2, gaps=5, threads=2, points=1), p=1, time=900)),
    dict(h="modes-race", s="modes", params=D(mode=2, files=2, subs=2, threads=2), time=30), dict(h="modes-race", s="modes", params=D(mode=3, files=2, subs=2, threads=2), time=30), dict(h="modes-race", s="modes", params=D(mode=4, files=2, gens=1, leaf=1, threads=2), time=30),
    dict(h="stop-race", s="stop", params=D(mode=4, unique=1, threads=2), e=1, time=40), dict(h="stop-race", s="stop", params=D(mode=0, home=1, kinds=1, later=0, spoints=1), p=1, e=1, time=60, thorough=dict(params=D(mode=0, home=1, kinds=1, later=0, spoints=1, threads=2), p=1, e=1, time=900))]),
}
