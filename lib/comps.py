"""Registry: per property the worlds (harness + specification + programs) that decide it."""
C8 = {"C": "{1,2,3,4,5,6,7,8}"}

def wchoice(rng, w):
    t = sum(x[0] for x in w); r = rng.random() * t
    for x in w:
        r -= x[0]
        if r <= 0: return x[1]
    return w[-1][1]

def rand_phases(rng, opgen, ncoro=(2, 5), nph=(1, 4), nops=(1, 3), seq_prob=0.25):
    nc = rng.randint(*ncoro)
    if rng.random() < 0.45:   # small programs, whose schedules are covered densely
        nc, nph, nops = rng.randint(ncoro[0], min(3, ncoro[1])), (1, 2), (1, 2)
    seq = rng.random() < seq_prob
    phases = []
    if seq:
        for _ in range(rng.randint(4, 14)):
            c = rng.randint(1, nc)
            phases.append([[c] + list(opgen(rng, c))])
        return phases
    for _ in range(rng.randint(*nph)):
        ph = []
        for c in range(1, nc + 1):
            if rng.random() < 0.85:
                for _ in range(rng.randint(*nops)): ph.append([c] + list(opgen(rng, c)))
        rng.shuffle(ph)
        if ph: phases.append(ph)
    return phases or [[[1] + list(opgen(rng, 1))]]

PROPS = {}
def destroyed(rng, phases, prob=0.12):
    """the object is destroyed at the end, with suspended callers"""
    return phases + [[[7, "destroy", 0, 0]]] if rng.random() < prob else phases

# ---- C01 mutex ---------------------------------------------------------------------------------------
def mutex_rand(rng):
    def op(rng, c):
        return (wchoice(rng, [(4, "lock"), (4, "slock"), (3, "trylock"), (5, "unlock"), (2, "sunlock"), (2, "sdrop"), (1, "smove"), (1, "stwice"), (1, "sself"), (1, "sassign")]), rng.randint(0, 1), 0)
    ph = rand_phases(rng, op)
    if rng.random() < 0.2: ph.insert(rng.randint(0, len(ph)), [[7, "badunlock", 0, 0]])
    return [], ph
PROPS["C01"] = dict(worlds=[dict(name="mutex", harness="mutex.cpp", sources=["mutex.cpp"], spec="Mutex", consts=C8, rand=mutex_rand,
    mc=[dict(consts={"C": "{1,2,3}"}, K=3, T=9, invs=["Inv"])],
    gen=dict(consts={"C": "{1,2,3,4}"}, K=5, T=14, depth=90))])

# ---- C02 event ---------------------------------------------------------------------------------------
def ids(phases, opname, field=2, limit=24):
    """numbers the given operations: b := id * 2 + old low bit"""
    n = 0
    out = []
    for ph in phases:
        q = []
        for o in ph:
            if o[1] == opname:
                if n >= limit: continue
                o = [o[0], o[1], o[2], n * 2 + o[3] % 2]; n += 1
            q.append(o)
        if q: out.append(q)
    return out
def event_rand(rng):
    wset, cl = rng.choice([1, 2, 4]), rng.random() < 0.15
    def op(rng, c):
        o = wchoice(rng, [(6, "wait"), (wset, "set"), (1.5, "reset"), (1, "isset"), (1.5 if cl else 0, "close")])
        return (o, rng.randint(0, 1), rng.randint(0, 1))
    return [int(rng.random() < 0.2), rng.choice([1, 1, 2])], ids(rand_phases(rng, op, ncoro=(2, 6)), "set")
PROPS["C02"] = dict(worlds=[dict(name="event", harness="event.cpp", sources=["event.cpp"], spec="Event", consts=C8, rand=event_rand, canon="calls",
    mc=[dict(consts={"C": "{1,2,3}"}, K=2, T=6, invs=["Inv"])], fix=lambda ph: ids(ph, "set"),
    gen=dict(consts={"C": "{1,2,3,4}"}, K=5, T=14, depth=90))])
# ---- C03 latch ---------------------------------------------------------------------------------------
def latch_rand(rng):
    cl = rng.random() < 0.1
    def op(rng, c):
        o = wchoice(rng, [(3, "wait"), (4, "down"), (1, "remaining"), (1, "ready"), (1.5 if cl else 0, "close")])
        return (o, rng.choice([1, 1, 1, 2, 3]) if o == "down" else 0, rng.randint(0, 1))
    return [rng.choice([-1, 0, 1, 2, 2, 3, 3, 4, 6])], ids(rand_phases(rng, op, ncoro=(2, 6)), "down")
PROPS["C03"] = dict(worlds=[dict(name="latch", harness="latch.cpp", sources=["event.cpp"], spec="Latch", consts=C8, rand=latch_rand, 
    mc=[dict(consts={"C": "{1,2,3}"}, K=2, T=5, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=2, T=4, invs=["Inv"], props=["WaitersReleased"])], fix=lambda ph: ids(ph, "down"),
    gen=dict(consts={"C": "{1,2,3,4}"}, K=4, T=12, depth=80))])
# ---- C04 semaphore -----------------------------------------------------------------------------------
def sem_rand(rng):
    mx = rng.choice([1, 1, 2, 3]); lock = int(rng.random() < 0.35)
    start = mx if lock else rng.randint(0, mx)
    sd = rng.random() < 0.5
    def op(rng, c):
        o = wchoice(rng, [(5, "acquire"), (3, "try"), (6, "release"), (1, "value"), (0.8 if sd else 0, "shutdown"), (0.3, "down")])
        return (o, 0, 0)
    if lock: mx = start = 1
    return [mx, start, lock], destroyed(rng, rand_phases(rng, op))
PROPS["C04"] = dict(worlds=[dict(name="semaphore", harness="semaphore.cpp", sources=["mutex.cpp", "semaphore.cpp", "sync_wait.cpp", "event.cpp"], spec="Semaphore", consts=C8, rand=sem_rand,
    mc=[dict(consts={"C": "{1,2,3}"}, K=2, T=6, invs=["Inv"])],
    gen=dict(consts={"C": "{1,2,3,4}"}, K=5, T=14, depth=90))])
# ---- C05 shared mutex --------------------------------------------------------------------------------
def shm_rand(rng):
    sc, cl = rng.random() < 0.5, rng.random() < 0.15
    def op(rng, c):
        o = wchoice(rng, [(4, "lock"), (5, "lockS"), (1, "try"), (1, "tryS"), (8, "unlock"), (1.5 if cl else 0, "close"), (2 if sc else 0, "scx"), (2 if sc else 0, "scs")])
        return (o, int(rng.random() < 0.25), 0)
    return [rng.choice([1, 2])], rand_phases(rng, op, ncoro=(2, 5))
PROPS["C05"] = dict(worlds=[dict(name="shared_mutex", harness="shared_mutex.cpp", sources=["mutex.cpp"], spec="SharedMutex", consts=C8, rand=shm_rand,
    mc=[dict(consts={"C": "{1,2,3}"}, K=3, T=8, invs=["Inv"])],
    gen=dict(consts={"C": "{1,2,3,4}"}, K=5, T=14, depth=90))])
# ---- C06 queue ---------------------------------------------------------------------------------------
def uniq_a(phases, names, start=1, limit=60, step=1):
    """gives every element pushed its own number"""
    n, out = start, []
    for ph in phases:
        q = []
        for o in ph:
            if o[1] in names:
                if n - start >= limit * step: continue
                o = [o[0], o[1], n, o[3]]; n += step
            q.append(o)
        if q: out.append(q)
    return out
QP = ("push", "pushc", "emplace")
def queue_rand(rng):
    sd, dr = rng.random() < 0.4, rng.random() < 0.4
    def op(rng, c):
        return (wchoice(rng, [(5, "push"), (2, "pushc"), (2, "emplace"), (8, "pop"), (2, "trypop"), (1 if sd else 0, "shutdown"), (1 if dr else 0, "drain"), (0.5, "size"), (0.3, "down")]), 0, 0)
    return [], destroyed(rng, uniq_a(rand_phases(rng, op), QP))
PROPS["C06"] = dict(worlds=[dict(name="queue", harness="queue.cpp", sources=["mutex.cpp", "sync_wait.cpp", "event.cpp"], spec="Queue", consts=C8, rand=queue_rand,
    mc=[dict(consts={"C": "{1,2,3}"}, K=2, T=5, invs=["Inv"])], fix=lambda ph: uniq_a(ph, QP),
    gen=dict(consts={"C": "{1,2,3,4}"}, K=5, T=14, depth=90))])
# ---- C07 ring buffer ---------------------------------------------------------------------------------
def ring_rand(rng):
    sd, dr, no = rng.random() < 0.35, rng.random() < 0.35, rng.random() < 0.5
    def op(rng, c):
        return (wchoice(rng, [(8, "produce"), (8, "consume"), (1 if no else 0, "notifyP"), (1 if no else 0, "notifyC"), (1 if sd else 0, "shutdown"), (1 if dr else 0, "drain"),
                              (0.4, "size"), (0.3, "full"), (0.3, "empty"), (0.2, "down")]), 0, 0)
    return [rng.choice([1, 1, 2, 2, 3])], destroyed(rng, uniq_a(rand_phases(rng, op), ("produce",)))
PROPS["C07"] = dict(worlds=[dict(name="ring", harness="ring_buffer.cpp", sources=["mutex.cpp", "sync_wait.cpp", "event.cpp"], spec="RingBuffer", consts=C8, rand=ring_rand,
    mc=[dict(consts={"C": "{1,2,3}"}, K=2, T=4, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=2, T=4, invs=["Inv"], props=["Served"])], fix=lambda ph: uniq_a(ph, ("produce",)),
    gen=dict(consts={"C": "{1,2,3,4}"}, K=5, T=14, depth=90))])
# ---- C08 condition variable --------------------------------------------------------------------------
def cv_rand(rng):
    tm, st, x = rng.random() < 0.55, rng.random() < 0.4, rng.random() < 0.4
    def op(rng, c):
        o = wchoice(rng, [(3, "wait"), (3, "waitp"), (2 if st else 0, "waits"), (3 if tm else 0, "waitf"), (2 if tm else 0, "waitfp"), (1 if tm and st else 0, "waitfs"),
                          (5, "one"), (2, "all"), (2 if x else 0, "xone"), (1 if x else 0, "xall"), (1 if x and not tm else 0, "close"), (3, "set"), (0.8 if st else 0, "stop")])
        return (o, rng.randint(0, 2) if o == "set" else rng.randint(1, 2), rng.randint(0, 7))
    return [rng.choice([1, 1, 2])], rand_phases(rng, op, ncoro=(2, 5))
PROPS["C08"] = dict(worlds=[dict(name="condvar", harness="condvar.cpp", sources=["mutex.cpp", "sync_wait.cpp", "event.cpp", "condition_variable.cpp", "detail/task_self_deleting.cpp"], defines=["LIBCORO_FEATURE_NETWORKING"], spec="CondVar", consts=C8, rand=cv_rand,
    mc=[dict(consts={"C": "{1,2,3}"}, K=2, T=3, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"], props=["ClaimedServed"]), dict(consts={"C": "{1,2,3}"}, K=2, T=4, invs=["Inv"], tier="thorough", timeout=1200)],
    gen=dict(consts={"C": "{1,2,3,4}"}, K=4, T=12, depth=90))])
# ---- C09 thread pool ---------------------------------------------------------------------------------
def tp_rand(rng):
    sd, hold, self_ = rng.random() < 0.5, rng.random() < 0.35, rng.random() < 0.15
    def op(rng, c):
        o = wchoice(rng, [(4, "sched"), (4, "resume"), (3, "spawn"), (2, "range"), (0.5, "null"), (1.5 if sd else 0, "shutdown"), (1 if hold else 0, "free")])
        return (o, 0, (1 if hold and rng.random() < 0.4 else 0) | (2 if rng.random() < 0.3 else 0) | (rng.randint(0, 2 if o == "range" else 3 if self_ else 1) << 2))
    return [rng.choice([1, 1, 2, 2, 3])], uniq_a(rand_phases(rng, op, ncoro=(2, 4), nops=(1, 2)), ("sched", "resume", "spawn", "range"), start=10, step=10)
PROPS["C09"] = dict(worlds=[dict(name="pool", harness="thread_pool.cpp", sources=["sync_wait.cpp", "event.cpp", "thread_pool.cpp", "detail/task_self_deleting.cpp"], spec="ThreadPool", consts=C8, rand=tp_rand, lazy=("ret", "start", "yref", "q", "fin", "gone", "wstop"),
    mc=[dict(consts={"C": "{1,2}"}, K=3, T=4, invs=["Inv"]), dict(consts={"C": "{1,2,3}"}, K=2, T=4, invs=["Inv"], tier="thorough", timeout=1200)], fix=lambda ph: uniq_a(ph, ("sched", "resume", "spawn", "range"), start=10, step=10),
    gen=dict(consts={"C": "{1,2,3,4}"}, K=4, T=12, depth=90))])
# ---- C10 task group and joinable spawn ----------------------------------------------------------------
TG_OPS = ("start", "join", "jdrop")
def tg_rand(join):
    def f(rng):
        rf = rng.random() < 0.3
        def op(rng, c):
            return (wchoice(rng, [(6, "start"), (4, "wait"), (2 if join else 0, "join"), (0.7 if join else 0, "jdrop"), (0.8 if rf else 0, "refuse"), (1, "size")]), 0, rng.randint(0, 7) | (8 if rng.random() < 0.15 else 0) | (16 if rng.random() < 0.2 else 0))
        return [rng.choice([1, 2, 2, 3]), rng.choice([0, 0, 1, 2, 3]), rng.randint(0, 5)], uniq_a(rand_phases(rng, op, ncoro=(2, 4)), TG_OPS, start=10, step=10)
    return f
def tg_fix(join):
    return lambda ph: [q for q in ([o for o in p if join or o[1] not in ("join", "jdrop")] for p in uniq_a(ph, TG_OPS, start=10, step=10)) if q]
def tg_world(join):
    return dict(name="pool" if join else "exec", harness="task_group.cpp", sources=["sync_wait.cpp", "event.cpp", "thread_pool.cpp", "detail/task_self_deleting.cpp"], defines=["EXEC_POOL"] if join else [],
        spec="TaskGroup", consts=C8, rand=tg_rand(join), fix=tg_fix(join), nrand=220, budget=5, tv_budget=14,
        mc=[] if not join else [dict(consts={"C": "{1,2,3}"}, K=2, T=3, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"], props=["Joined"])],
        gen=dict(consts={"C": "{1,2,3,4}"}, K=4, T=12, depth=90, num=60, par=lambda rng, p: [rng.choice([1, 2, 3]), rng.choice([0, 1, 2, 3]), rng.randint(0, 5)]))
PROPS["C10"] = dict(worlds=[tg_world(True), tg_world(False)])
# ---- C11 scheduler, execution ----------------------------------------------------------------------
IO_WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("epoll_wait", "epoll_ctl", "timerfd_create", "timerfd_settime", "close", "write", "read", "send", "recv"))]
SCHED_SRC = ["sync_wait.cpp", "event.cpp", "thread_pool.cpp", "scheduler.cpp", "poll.cpp", "detail/task_self_deleting.cpp", "detail/pipe.cpp", "detail/io_notifier_epoll.cpp", "detail/timer_handle.cpp"]
SC_SUB = ("sched", "resume", "spawn", "join", "range")
def sc_rand(rng):
    sd, hold = rng.random() < 0.45, rng.random() < 0.25
    def op(rng, c):
        o = wchoice(rng, [(4, "sched"), (4, "resume"), (2, "spawn"), (2, "join"), (1, "range"), (0.4, "null"), (1.5 if sd else 0, "shutdown"), (1 if hold else 0, "free")])
        return (o, 0, (1 if hold and rng.random() < 0.4 else 0) | (2 if rng.random() < 0.35 else 0) | (rng.randint(0, 3) << 2))
    return [rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 0, 1, 2])], uniq_a(rand_phases(rng, op, ncoro=(2, 4), nops=(1, 2)), SC_SUB, start=10, step=10)
PROPS["C11"] = dict(worlds=[dict(name="sched", harness="scheduler.cpp", sources=SCHED_SRC, extra=["vx/vxio.cpp"], ldflags=IO_WRAP, spec="Scheduler", consts=C8, rand=sc_rand,
    lazy=("ret", "start", "yref", "q", "fin", "gone", "wstop"),
    mc=[dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=3, T=4, invs=["Inv"], tier="thorough"), dict(consts={"C": "{1,2,3}"}, K=2, T=4, invs=["Inv"], tier="thorough", timeout=1200), dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"], props=["Served"], tier="thorough")],
    fix=lambda ph: uniq_a(ph, SC_SUB, start=10, step=10),
    gen=dict(consts={"C": "{1,2,3,4}"}, K=4, T=12, depth=90, par=lambda rng, p: [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])]))])

# ---- C12 timers --------------------------------------------------------------------------------------
def tm_fix(ph): return uniq_a(ph, ("tm", "poll"), start=10, step=2, limit=30)
def tm_rand(rng):
    sd, pl = rng.random() < 0.3, rng.random() < 0.4
    dl = [rng.randint(0, 11) for _ in range(rng.randint(1, 4))] if rng.random() < 0.5 else list(range(12))
    def op(rng, c):
        return (wchoice(rng, [(7, "tm"), (2 if pl else 0, "poll"), (2 if pl else 0, "wr"), (0.7 if sd else 0, "shutdown")]), 0, 8 * rng.choice(dl) + rng.randint(0, 3) + (4 if rng.random() < 0.2 else 0))
    return [rng.choice([0, 0, 0, 1, 1, 2]), rng.choice([0, 0, 1]), rng.choice([0, 1, 1])], tm_fix(rand_phases(rng, op, ncoro=(2, 4), nops=(1, 3), nph=(1, 3)))
PROPS["C12"] = dict(worlds=[dict(name="timers", harness="timers.cpp", sources=SCHED_SRC, extra=["vx/vxio.cpp"], ldflags=IO_WRAP, spec="Timers", consts=C8, rand=tm_rand, canon="calls",
    mc=[dict(consts={"C": "{1}"}, K=2, T=2, invs=["Inv", "NoStandoff"]), dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv", "NoStandoff"], tier="thorough", timeout=1800)], fix=tm_fix, nrand=320,
    gen=dict(consts={"C": "{1,2,3,4}"}, K=4, T=12, depth=60, num=40, par=lambda rng, p: [rng.choice([0, 0, 1, 2]), rng.choice([0, 1]), rng.choice([0, 1])]))])

# ---- C13 poll ----------------------------------------------------------------------------------------
def poll_fix(ph):
    """one poll of a descriptor at a time: coroutine i polls and reopens descriptor i"""
    out = []
    for p in ph:
        q = []
        for o in p:
            if o[1] in ("poll", "polls", "reopen"):
                if o[0] > 3: continue
                o = [o[0], o[1], o[0], o[3]]
            q.append(o)
        if q: out.append(q)
    return out
def poll_rand(rng):
    st, tmo, cl = rng.random() < 0.6, rng.random() < 0.6, rng.random() < 0.5
    nd = rng.choice([1, 1, 2, 3])
    def op(rng, c):
        if c <= 3 and rng.random() < 0.75:
            o = wchoice(rng, [(3, "poll"), (4 if st else 0, "polls"), (0.5, "rd"), (0.5, "fill"), (0.3, "reopen"), (0.6 if tmo else 0, "nap")])
            return (o, c, rng.randint(0, 2) + 3 * (rng.randint(1, 3) if tmo and rng.random() < 0.6 else 0) if o != "nap" else rng.randint(1, 6))
        o = wchoice(rng, [(4, "wr"), (1, "rd"), (1, "fill"), (1, "unfill"), (1 if cl else 0, "cl"), (1 if cl else 0, "hc"), (2 if st else 0, "stop"), (3 if tmo else 0, "nap")])
        return (o, rng.randint(1, nd), rng.choice([2, 4, 2, 4, 1, 3, 10]) if o == "nap" else 0)
    ph = rand_phases(rng, op, ncoro=(2, 5), nops=(1, 4), nph=(1, 3))
    if nd == 1: ph = [q for q in ([o for o in p if o[0] not in (2, 3) or o[1] not in ("poll", "polls", "reopen")] for p in ph) if q] or ph
    return [rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 1])] + [rng.choice([0, 1, 2, 2] * 5 + [3, 4]) for _ in range(3)], poll_fix(ph)
PROPS["C13"] = dict(worlds=[dict(name="poll", harness="poll.cpp", sources=SCHED_SRC, extra=["vx/vxio.cpp"], ldflags=IO_WRAP, spec="Poll", consts=C8, rand=poll_rand,
    mc=[dict(consts={"C": "{1,2}"}, K=2, T=4, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"], props=["Ends"])], fix=poll_fix,
    gen=dict(consts={"C": "{1,2,3,4}"}, K=4, T=12, depth=60, num=60, par=lambda rng, p: [rng.choice([0, 0, 1, 2]), rng.choice([0, 1])] + p[2:]))])

# ---- C21 timed scheduling ----------------------------------------------------------------------------
def ts_fix(ph): return uniq_a(ph, ("ts",), start=2, step=2, limit=30)
def ts_rand(rng):
    how = [rng.randint(0, 4) for _ in range(3)]
    def op(rng, c):
        if rng.random() < 0.12: return ("go", 0, 0)
        return ("ts", 0, rng.randint(0, 7) + 8 * rng.choice(how) + 40 * rng.randint(0, 7) + 320 * rng.randint(0, 2) + 960 * rng.randint(0, 1))
    return [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.choice([0, 1, 1])], ts_fix(rand_phases(rng, op, ncoro=(1, 4), nops=(1, 3), nph=(1, 3)))
PROPS["C21"] = dict(worlds=[dict(name="timed", harness="timed.cpp", sources=SCHED_SRC, extra=["vx/vxio.cpp"], ldflags=IO_WRAP, spec="Timed", consts=C8, rand=ts_rand,
    mc=[dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"])], fix=ts_fix,
    gen=dict(consts={"C": "{1,2,3}"}, K=3, T=8, depth=60, num=60, par=lambda rng, p: [rng.choice([0, 0, 1, 2]), rng.choice([0, 1]), p[2]]))])

# ---- C16 when_any ------------------------------------------------------------------------------------
def any_fix(op, limit=24): return lambda ph: uniq_a(ph, (op,), start=1, step=1, limit=limit)
def any_rand(rng):
    ks = rng.choice([[0, 1, 2, 3, 6], [2, 3, 6], [2, 6, 4, 5], list(range(8)), [2, 2, 2, 3], [0, 5, 5, 2]])
    tf = rng.randint(0, 7) if rng.random() < 0.5 else None
    def op(rng, c):
        if rng.random() < 0.15: return ("go", 0, 0)
        b = rng.choice([0, 1, 1, 2, 3]) | (rng.randint(0, 7) if tf is None else tf) << 2 | rng.randint(0, 1) << 5
        for i in range(4): b |= rng.choice(ks) << (6 + 3 * i)
        return ("any", 0, b)
    return [rng.choice([1, 2, 2, 3])], any_fix("any")(rand_phases(rng, op, ncoro=(1, 4), nops=(1, 2), nph=(1, 3)))
PROPS["C16"] = dict(worlds=[dict(name="whenany", harness="whenany.cpp", sources=["event.cpp", "mutex.cpp", "sync_wait.cpp", "thread_pool.cpp", "detail/task_self_deleting.cpp"], spec="WhenAny", consts=C8, rand=any_rand, lazy=("ret", "q"),
    mc=[dict(consts={"C": "{1,2}"}, K=2, T=2, invs=["Inv"]), dict(consts={"C": "{1}"}, K=2, T=2, invs=["Inv"], props=["Wakes"]), dict(consts={"C": "{1,2,3}"}, K=2, T=3, invs=["Inv"], tier="thorough", timeout=1500)],
    fix=any_fix("any"), gen=dict(consts={"C": "{1,2,3}"}, K=3, T=6, depth=50, num=60, par=lambda rng, p: [rng.choice([1, 2, 3])]))])

# ---- C15 when_all ------------------------------------------------------------------------------------
COROSRC = ["event.cpp", "mutex.cpp", "sync_wait.cpp", "thread_pool.cpp", "detail/task_self_deleting.cpp"]
def all_rand(rng):
    ks = rng.choice([[0, 1, 2, 3, 6], [2, 3, 6], [2, 6, 4, 5], list(range(8)), [2, 2, 2, 3], [0, 0, 1, 2]])
    tf = rng.randint(0, 31) if rng.random() < 0.4 else None
    def op(rng, c):
        if rng.random() < 0.15: return ("go", 0, 0)
        f = rng.randint(0, 31) if tf is None else tf
        b = (rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]) if f & 1 else rng.choice([0, 1, 2, 2, 3, 4])) | f << 3
        for i in range(4): b |= rng.choice(ks) << (8 + 3 * i)
        return ("all", 0, b)
    return [rng.choice([1, 2, 2, 3])], any_fix("all")(rand_phases(rng, op, ncoro=(1, 4), nops=(1, 2), nph=(1, 3)))
PROPS["C15"] = dict(worlds=[dict(name="whenall", harness="whenall.cpp", sources=COROSRC, spec="WhenAll", consts=C8, rand=all_rand, lazy=("ret", "q"),
    mc=[dict(consts={"C": "{1,2}"}, K=2, T=2, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=2, T=2, invs=["Inv"], props=["Wakes"]), dict(consts={"C": "{1,2,3}"}, K=2, T=4, invs=["Inv"], tier="thorough", timeout=1500)],
    fix=any_fix("all"), gen=dict(consts={"C": "{1,2,3}"}, K=3, T=6, depth=50, num=60, par=lambda rng, p: [rng.choice([1, 2, 3])]))])

# ---- C14 sync_wait -----------------------------------------------------------------------------------
def sw_rand(rng):
    ks = rng.choice([[0, 1, 2, 3, 6], [2, 3, 6], [2, 6, 4, 5], list(range(8)), [2, 2, 2, 3]])
    def op(rng, c):
        if rng.random() < 0.15: return ("go", 0, 0)
        return ("sw", 0, rng.choice(ks) | rng.randint(0, 7) << 3 | (64 if rng.random() < 0.35 else 0) | rng.choice(ks) << 7)
    return [rng.choice([1, 2, 2, 3])], any_fix("sw", limit=14)(rand_phases(rng, op, ncoro=(1, 4), nops=(1, 3), nph=(1, 3)))
PROPS["C14"] = dict(worlds=[dict(name="syncwait", harness="syncwait.cpp", sources=COROSRC, spec="SyncWait", consts=C8, rand=sw_rand, lazy=("ret", "q"),
    mc=[dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=2, T=2, invs=["Inv"], props=["Wakes"]), dict(consts={"C": "{1,2,3}"}, K=2, T=4, invs=["Inv"], tier="thorough", timeout=1500)],
    fix=any_fix("sw", limit=14), gen=dict(consts={"C": "{1,2,3}"}, K=3, T=6, depth=50, num=60, par=lambda rng, p: [rng.choice([1, 2, 3])]))])

# ---- C17 task ----------------------------------------------------------------------------------------
def seq_only(ph): return [[o] for p in ph for o in p]
def task_rand(rng):
    n = rng.choice([1, 2, 3]); deep = rng.random() < 0.4
    def op():
        o = wchoice(rng, [(4, "make"), (3, "await"), (3, "resume"), (5, "step"), (2, "move"), (1, "destroy"), (0.5, "self"), (1.5, "ready"), (1.5, "result")])
        b = {"make": rng.randint(0, 31) | (rng.randint(0, 7) << 5 if deep else 0), "move": rng.randint(1, n), "await": rng.randint(0, 1)}.get(o, 0)
        return [rng.randint(1, 3), o, rng.randint(1, n), b]
    return [0], [[[1, "make", 1, rng.randint(0, 31)]]] + [[op()] for _ in range(rng.randint(4, 18))]
def task_world(name, made, rand, K, **kw):
    m = {"C": "{1,2}", "Made": made}
    return dict(name=name, harness="task.cpp", sources=COROSRC, spec="Task", consts=dict(C8, Made=made), rand=rand, canon=False, nrand=9000, trace_cap=1, budget=7, lazy=("ret",),
        mc=[dict(consts=m, K=K, T=5, invs=["Inv"]), dict(consts=m, K=K + 2, T=7, invs=["Inv"], tier="thorough", timeout=1800)],
        fix=seq_only, gen=dict(consts=m, K=8, T=16, depth=90, num=100), **kw)
PROPS["C17"] = dict(worlds=[task_world("task", '{"make"}', task_rand, 4)])

# ---- C27 invoke --------------------------------------------------------------------------------------
def invoke_rand(rng):
    n = rng.choice([1, 2, 3]); deep = rng.random() < 0.3
    def op():
        o = wchoice(rng, [(3, "invoke"), (0.6, "refuse"), (4, "await"), (2, "resume"), (6, "step"), (1.5, "move"), (1, "destroy"), (1, "ready"), (1, "result")])
        mk = rng.randint(0, 31) | (rng.randint(0, 7) << 5 if deep else 0)
        b = {"invoke": mk, "refuse": mk | 4, "move": rng.randint(1, n), "await": rng.randint(0, 1)}.get(o, 0)
        return [rng.randint(1, 3), o, rng.randint(1, n), b]
    return [0], [[[1, "invoke", 1, rng.randint(0, 31)]]] + [[op()] for _ in range(rng.randint(3, 14))]
PROPS["C27"] = dict(worlds=[task_world("invoke", '{"invoke", "refuse"}', invoke_rand, 4, defines=["WITH_INVOKE"])])

# ---- C18 generator -----------------------------------------------------------------------------------
def generator_rand(rng):
    n = rng.choice([1, 1, 2, 3])
    def mk(): return rng.choice([0, 1, 2, 3, 3, 5, 7]) | (8 if rng.random() < 0.3 else 0) | rng.randint(0, 6) << 4 | (128 if rng.random() < 0.25 else 0)
    def op():
        o = wchoice(rng, [(2, "make"), (3, "begin"), (6, "inc"), (1.5, "post"), (4, "get"), (1.5, "end"), (0.7, "all"), (2, "move"), (0.7, "drop"), (0.4, "self")])
        b = {"make": mk(), "move": rng.randint(1, n), "all": rng.choice([0, 1, 2, 9])}.get(o, 0)
        return [1, o, rng.randint(1, n), b]
    return [0], [[[1, "make", 1, mk()]]] + [[op()] for _ in range(rng.randint(4, 20))]
PROPS["C18"] = dict(worlds=[dict(name="generator", harness="generator.cpp", sources=COROSRC, spec="Generator", consts=C8, rand=generator_rand, canon=False, nrand=9000, trace_cap=1, budget=7, lazy=("ret",),
    mc=[dict(consts={"C": "{1}"}, K=5, T=5, invs=["Inv"]), dict(consts={"C": "{1}"}, K=7, T=7, invs=["Inv"], tier="thorough", timeout=1800)],
    fix=seq_only, gen=dict(consts={"C": "{1}"}, K=16, T=16, depth=90, num=100))])

# ---- C22 default executors ---------------------------------------------------------------------------
def de_fix(ph):
    """options are set in phases of their own"""
    out = []
    for p in ph:
        a, b = [o for o in p if o[1] == "opt"], [o for o in p if o[1] != "opt"]
        for o in a: out.append([o])
        if b: out.append(b)
    return out
def de_rand(rng):
    ks = rng.choice([[0], [1], [0, 1]])
    def op(rng, c):
        o = wchoice(rng, [(5, "get"), (4, "work"), (0.5, "opt")])
        k = rng.choice(ks)
        return (o, k, rng.randint(1, 3) if o == "opt" else rng.randint(0, 1) * k)
    ph = de_fix(rand_phases(rng, op, ncoro=(2, 6), nops=(1, 2), nph=(1, 2), seq_prob=0.05))
    if rng.random() < 0.3: ph.insert(0, [[1, "opt", rng.choice(ks), rng.randint(1, 3)]])
    return [rng.randint(1, 3), rng.randint(1, 3)], ph
PROPS["C22"] = dict(worlds=[dict(name="defexec", harness="defexec.cpp", defines=["LIBCORO_FEATURE_NETWORKING"], sources=SCHED_SRC + ["default_executor.cpp"], extra=["vx/vxio.cpp"], ldflags=IO_WRAP, spec="DefaultExecutor", consts=C8, rand=de_rand, fork_each=True,
    mc=[dict(consts={"C": "{1,2,3}"}, K=2, T=4, invs=["Inv"], props=["Once"]), dict(consts={"C": "{1,2}"}, K=2, T=3, invs=["Inv"], props=["Served"])], fix=de_fix,
    gen=dict(consts={"C": "{1,2,3,4}"}, K=3, T=8, depth=60, num=60, par=lambda rng, p: [rng.randint(1, 3), rng.randint(1, 3)]))])

# ---- C19 tcp -----------------------------------------------------------------------------------------
NET_WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("socket", "bind", "listen", "accept", "accept4", "connect", "setsockopt", "getsockopt", "getsockname", "shutdown", "dup", "sendto", "recvfrom", "sendmsg", "recvmsg"))]
NET_SRC = ["net/tcp/client.cpp", "net/tcp/server.cpp", "net/udp/peer.cpp", "net/socket.cpp", "net/io_status.cpp", "net/connect.cpp", "net/ip_address.cpp"]
def tcp_ops(rng, nk, w):
    """w: weights of accept, connect, up/refuse, reads, writes, fin/close, down, nap"""
    tmo = rng.random() < 0.5
    szs = rng.choice([[0, 1, 2, 3, 4, 5], [1, 2, 3], [3, 4, 5], [4, 5, 6, 7], [6, 7]])
    def to(): return rng.randint(1, 3) if tmo and rng.random() < 0.6 else 0
    wf = rng.choice([0, 0, 0.5, 1.5])
    def op(rng, c):
        k = rng.randint(1, nk); e = 2 * k + rng.randint(0, 1)
        if rng.random() * 10 < wf:
            d = rng.choice([0, 1]) if w[3] > 1 else rng.choice([0, 1, 2, 2, 3, 3])
            return ("flt", e if d < 2 else 2 * k if d == 2 else 0, 8 * d + rng.randint(0, 7))
        o = wchoice(rng, [(w[0], "accept"), (w[1], "connect"), (w[2], "up"), (w[2] / 3, "refuse"), (w[3] / 2, "rs"), (w[3] / 2, "re"), (w[4] / 3, "ws"), (w[4] * 2 / 3, "wa"), (w[5], "fin"), (w[5], "close"), (w[6], "down"), (w[7] if tmo else 0, "nap")])
        if o == "accept": return (o, 0, to())
        if o == "connect": return (o, k, to() + 4 * rng.choice([0, 1, 1, 2, 3]))
        if o in ("rs", "re", "ws", "wa"): return (o, e, to() + 4 * rng.choice(szs))
        if o in ("fin", "close"): return (o, e, 0)
        if o == "nap": return (o, 0, rng.choice([1, 2, 3, 4, 10]))
        return (o, k if o in ("up", "refuse") else 0, 0)
    return op
def tcp_rand(rng):
    nk = rng.choice([1, 1, 1, 2, 3])
    par = [rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.randint(0, 1), rng.randint(0, 1), rng.choice([0, 0, 1, 2, 3, 4])]
    if rng.random() < 0.3: # connecting
        return par, rand_phases(rng, tcp_ops(rng, nk, [4, 4, 2, 0.5, 0.5, 0.5, 0.6, 3]), ncoro=(2, 5), nops=(1, 3), nph=(1, 3))
    ph = [[[1, "accept", 0, 0], [2, "connect", k, 4 * rng.choice([0, 0, 1])], [3, "up", k, 0]] for k in range(1, nk + 1)]
    if rng.random() < 0.25: # one end trickles while the other waits for everything, with a time limit
        e = rng.choice([2, 3]); f = e ^ 1; par[2] = 1
        slow = rng.random() < 0.5
        q = [[2, "re", e, rng.choice([1, 2, 3, 3, 3]) + 4 * rng.choice([4, 5, 6])]] if not slow else [[2, "wa", e, rng.choice([1, 2, 3, 3, 3]) + 4 * rng.choice([6, 7, 7])]]
        for _ in range(rng.randint(1, 4)):
            q.append([3, "nap", 0, rng.choice([1, 2, 3, 4, 6, 8])])
            q.append([3, "ws", f, 4 * rng.choice([1, 1, 2, 3])] if not slow else [3, "rs", f, rng.choice([0, 1, 3]) + 4 * rng.choice([4, 5, 6, 7])])
        if rng.random() < 0.3: q.append([2, "re" if not slow else "wa", e, rng.choice([1, 3]) + 4 * rng.choice([3, 4, 6])])
        return par, ph[:1] + [q]
    return par, ph + rand_phases(rng, tcp_ops(rng, nk, [0.1, 0.1, 0.1, 4, 5, 0.4, 0.1, 2]), ncoro=(2, 6), nops=(1, 4), nph=(1, 4))
PROPS["C19"] = dict(worlds=[dict(name="tcp", harness="tcp.cpp", sources=SCHED_SRC + NET_SRC, extra=["vx/vxio.cpp", "vx/vxnet.cpp"], ldflags=IO_WRAP + NET_WRAP, defines=["LIBCORO_FEATURE_NETWORKING"], spec="Tcp", consts=C8, rand=tcp_rand,
    lazy=("never",), canon=False, trace_cap=20, budget=6,
    mc=[dict(consts={"C": "{1,2}"}, K=3, T=4, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=3, T=6, invs=["Inv"], tier="thorough", timeout=1800)],
    gen=dict(consts={"C": "{1,2,3}"}, K=5, T=12, depth=80, num=60, par=lambda rng, p: [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.randint(0, 1), rng.randint(0, 1)]))])

# ---- C20 udp -----------------------------------------------------------------------------------------
def udp_rand(rng):
    tmo = rng.random() < 0.5
    szs = rng.choice([[0, 1, 2, 3, 4, 5], [1, 2, 3], [4, 5, 6], [6], [6, 7], list(range(8))])
    prs = rng.choice([[1, 2], [1, 2, 3], [1]]); tgt = rng.choice([[1, 2], [1], [1, 2, 3]])
    rw = rng.choice([(3, 3), (1, 4), (4, 2)]); wf = rng.choice([0, 0, 0.7, 2])
    def op(rng, c):
        if rng.random() * 10 < wf: return ("flt", rng.choice([1, 1, 2, 2, 3]), 8 * rng.randint(0, 1) + rng.randint(0, 7))
        o = wchoice(rng, [(rw[0], "rd"), (rw[1], "wr"), (0.6, "raw"), (2 if tmo else 0, "nap")])
        to = rng.randint(1, 3) if tmo and rng.random() < 0.6 else 0
        if o == "nap": return (o, 0, rng.choice([1, 2, 3, 4, 10]))
        if o == "rd": return (o, rng.choice(prs if rng.random() < 0.15 else [p for p in prs if p < 3]), to + 4 * rng.choice(szs))
        return (o, rng.choice([1, 2, 3]) * 4 + rng.choice(tgt), 4 * rng.choice([0, 0, 1, 3]) if o == "raw" else to + 4 * rng.choice(szs))
    return [rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.randint(0, 1), rng.randint(0, 3), rng.choice([0, 0, 1, 2, 3, 4])], rand_phases(rng, op, ncoro=(2, 5), nops=(1, 5), nph=(1, 4))
PROPS["C20"] = dict(worlds=[dict(name="udp", harness="udp.cpp", sources=SCHED_SRC + NET_SRC, extra=["vx/vxio.cpp", "vx/vxnet.cpp"], ldflags=IO_WRAP + NET_WRAP, defines=["LIBCORO_FEATURE_NETWORKING"], spec="Udp", consts=C8, rand=udp_rand,
    lazy=("never",), canon=False, trace_cap=20, budget=6,
    mc=[dict(consts={"C": "{1,2}"}, K=3, T=4, invs=["Inv"]), dict(consts={"C": "{1,2,3}"}, K=3, T=5, invs=["Inv"], tier="thorough", timeout=1800)],
    gen=dict(consts={"C": "{1,2,3}"}, K=5, T=12, depth=80, num=60, par=lambda rng, p: [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.randint(0, 1), rng.randint(0, 3)]))])

# ---- C24 tls -----------------------------------------------------------------------------------------
TLS_SRC = ["net/tls/client.cpp", "net/tls/server.cpp", "net/tls/context.cpp", "net/tls/connection_status.cpp", "net/tls/recv_status.cpp", "net/tls/send_status.cpp"]
def tls_ops(rng, nk, w):
    """w: accept, connect, up/refuse, rd, wr, sd, cls, mv, tear, rej, flt, down, nap"""
    tmo = rng.random() < 0.5
    szs = rng.choice([[0, 1, 2, 3, 4, 5], [1, 2, 3], [3, 4, 5], [4, 5, 6], [6, 7]])
    def to(): return rng.randint(1, 3) if tmo and rng.random() < 0.6 else 0
    names = ["accept", "connect", "up", "rd", "wr", "sd", "cls", "mv", "tear", "rej", "flt", "down", "nap"]
    def op(rng, c):
        k = rng.randint(1, nk); e = 2 * k + rng.randint(0, 1)
        o = wchoice(rng, [(x, n) for x, n in zip(w, names)])
        if o == "accept": return (o, 0, to())
        if o == "connect": return (o, k, to() + 4 * rng.choice([0, 1, 1, 2, 3]))
        if o == "up": return (rng.choice(["up", "up", "up", "refuse"]), k, 0)
        if o in ("rd", "wr"): return (o, e, to() + 4 * rng.choice(szs))
        if o == "sd": return (o, e, rng.choice([0, 0, 1, 5]))
        if o == "mv": return (o, e, rng.randint(0, 1))
        if o == "tear": return (o, e, rng.randint(0, 2))
        if o == "flt": return (o, e, rng.randint(0, 7))
        if o == "nap": return (o, 0, rng.choice([1, 2, 3, 4, 10]))
        return (o, e if o in ("cls", "rej") else 0, 0)
    return op
def tls_par(rng): return [rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.randint(0, 1), rng.randint(0, 7) + 8 * rng.randint(0, 3)]
def tls_rand(rng):
    nk = rng.choice([1, 1, 1, 2, 3]); par = tls_par(rng)
    bad = rng.random() < 0.4
    if rng.random() < 0.25: # several at once, some turned away
        n = rng.choice([2, 3, 3]); ph = []
        for k in range(1, n + 1): ph += [[k, "accept", 0, 0], [3 + k, "connect", k, 4 * rng.choice([0, 0, 1])], [7, "up", k, 0]]
        rng.shuffle(ph)
        for k in rng.sample(range(1, n + 1), rng.choice([1, 1, 2])): ph.insert(0, [7, "rej", 2 * k + rng.randint(0, 1), 0])
        for _ in range(rng.choice([0, 1, 2])): ph.insert(rng.randint(0, len(ph)), [rng.randint(1, 6), "nap", 0, rng.choice([1, 2, 4])])
        return par, [ph] + rand_phases(rng, tls_ops(rng, n, [0.5, 0.2, 0.2, 4, 5, 0.4, 0.2, 0.3, 0, 0, 0, 0, 2]), ncoro=(2, 6), nops=(1, 2), nph=(0, 1))
    if rng.random() < 0.35: # connecting
        return par, rand_phases(rng, tls_ops(rng, nk, [4, 4, 2, 0.5, 0.5, 0.3, 0.3, 0.3, 0.3 * bad, 0.5 * bad, 0.4 * bad, 0.3 * bad, 2]), ncoro=(2, 5), nops=(1, 3), nph=(1, 3))
    ph = [[[1, "accept", 0, 0], [2, "connect", k, 4 * rng.choice([0, 0, 1])], [3, "up", k, 0]] for k in range(1, nk + 1)]
    return par, ph + rand_phases(rng, tls_ops(rng, nk, [0.1, 0.1, 0.1, 4, 5, 0.4, 0.2, 0.3, 0.2 * bad, 0.1 * bad, 0.3 * bad, 0.1 * bad, 2]), ncoro=(2, 6), nops=(1, 4), nph=(1, 4))
PROPS["C24"] = dict(worlds=[dict(name="tls", harness="tls.cpp", sources=SCHED_SRC + NET_SRC + TLS_SRC, extra=["vx/vxio.cpp", "vx/vxnet.cpp", "vx/vxtls.cpp"], ldflags=IO_WRAP + NET_WRAP, defines=["LIBCORO_FEATURE_NETWORKING", "LIBCORO_FEATURE_TLS"], spec="Tls", consts=C8, rand=tls_rand,
    lazy=("never",), canon=False, trace_cap=20, budget=6,
    mc=[dict(consts={"C": "{1,2}"}, K=3, T=4, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=3, T=6, invs=["Inv"], tier="thorough", timeout=1800)],
    gen=dict(consts={"C": "{1,2,3}"}, K=5, T=12, depth=80, num=60, par=lambda rng, p: tls_par(rng)))])

# ---- C25 dns resolver -----------------------------------------------------------------------------------
def dns_rand(rng):
    par = [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.randint(0, 1), rng.choice([0, 1, 2, 3, 3])]
    gone = rng.random() < 0.4; bad = rng.random() < 0.4; tcp = rng.random() < 0.4; two = rng.random() < 0.4
    def look(rng): return ("look", rng.choice([1, 2]) if two else 1, (rng.choice([0, 1]) if tcp else rng.choice([0, 0, 0, 0, 0, 2, 3, 4])) + rng.choice([0, 8, 8, 16]))
    def op(rng, c):
        if c % 2:
            o = wchoice(rng, [(6, "look"), (0.5, "nap"), (0.15 * bad, "bad")])
        else: o = wchoice(rng, [(6, "ans"), (1.5 * bad, "brk"), (0.5 * gone, "gone"), (2, "nap"), (0.2, "look")])
        if o == "look": return look(rng)
        if o == "ans": return (o, rng.choice([1, 1, 3, 3, 5, 2]), wchoice(rng, [(6, 0), (1, 1), (2 * bad, 2), (0.7, 3), (0.7, 4)]) + 8 * rng.choice([0, 1, 1, 2, 3, 5]))
        if o == "brk": return (o, rng.choice([1, 1, 3, 5]), int(rng.random() < 0.3))
        if o == "gone": return (o, rng.choice([1, 1, 2]), 0)
        if o == "bad": return (o, 0, rng.choice([0, 1, 2, 4]))
        return (o, 0, rng.choice([1, 2, 3, 4, 7, 10]))
    return par, rand_phases(rng, op, ncoro=(2, 6), nops=(1, 4), nph=(1, 3))
PROPS["C25"] = dict(worlds=[dict(name="dns", harness="dns.cpp", sources=SCHED_SRC + ["net/dns/resolver.cpp", "net/ip_address.cpp"], extra=["vx/vxio.cpp", "vx/vxares.cpp"], ldflags=IO_WRAP, defines=["LIBCORO_FEATURE_NETWORKING"], spec="Dns", consts=C8, rand=dns_rand,
    lazy=("never",), canon=False, trace_cap=20, budget=6,
    mc=[dict(consts={"C": "{1,2}"}, K=3, T=4, invs=["Inv"]), dict(consts={"C": "{1,2}"}, K=3, T=6, invs=["Inv"], tier="thorough", timeout=1800)],
    gen=dict(consts={"C": "{1,2,3}"}, K=4, T=10, depth=80, num=60, par=lambda rng, p: [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1]), rng.randint(0, 1), rng.randint(0, 3)]))])

# ---- C23 descriptor handles ---------------------------------------------------------------------------
def handles_rand(rng):
    kinds = rng.sample([1, 2, 3, 4, 5, 6, 7], rng.choice([1, 1, 2, 2, 3]))
    nmax = rng.choice([2, 2, 3]); ph = []
    few = rng.random() < 0.15; bad = rng.random() < 0.15
    for k in kinds:
        for i in range(1, nmax + 1):
            if rng.random() < 0.7: ph.append([[1, "mk", 10 * k + i, 0]])
    for _ in range(rng.randint(2, 12)):
        k = rng.choice(kinds); a = 10 * k + rng.randint(1, nmax); b = 10 * k + rng.randint(1, nmax)
        o = wchoice(rng, [(2, "mk"), (3, "cc"), (3, "mc"), (4, "ca"), (4, "ma"), (1.5, "cl"), (2.5, "de"), (3, "us"), (1.5, "sd"), (3 if few else 0, "few"), (3 if bad else 0, "bad")])
        if o == "bad": a = rng.randint(1, 7)
        ph.append([[1, o, a, b if o in ("cc", "mc", "ca", "ma") else rng.randint(0, 7) if o == "few" else 0]])
    return [0], ph
PROPS["C23"] = dict(worlds=[dict(name="handles", harness="handles.cpp", sources=SCHED_SRC + NET_SRC, extra=["vx/vxio.cpp"], ldflags=IO_WRAP, defines=["LIBCORO_FEATURE_NETWORKING"], spec="Handles", consts=C8, rand=handles_rand,
    lazy=("never",), canon=False, nrand=6000, trace_cap=1, budget=7, fix=seq_only,
    mc=[dict(consts={"C": "{1}"}, K=4, T=4, invs=["Inv"]), dict(consts={"C": "{1}"}, K=6, T=6, invs=["Inv"], tier="thorough", timeout=1800)],
    gen=dict(consts={"C": "{1}"}, K=16, T=16, depth=70, num=100))])

# ---- C26 addresses and status values -------------------------------------------------------------------
def addr_rand(rng):
    def op():
        o = wchoice(rng, [(8, "parse"), (4, "print"), (2, "cmp"), (2, "sock"), (2, "eq"), (0.6, "status"), (0.3, "pstatus"), (0.3, "names")])
        b = {"status": rng.choice([7, 8, 19, 98, 112, 119, rng.randint(0, 150)]), "pstatus": rng.randint(0, 5)}.get(o, rng.randint(0, 2 ** 30))
        return [1, o, rng.choice([4, 6, 6]), b]
    return [0], [[op() for _ in range(rng.randint(6, 14))]]
PROPS["C26"] = dict(worlds=[dict(name="addr", harness="addr.cpp", sources=["net/ip_address.cpp", "net/io_status.cpp", "net/connect.cpp", "poll.cpp", "detail/pipe.cpp", "net/tls/connection_status.cpp", "net/tls/recv_status.cpp", "net/tls/send_status.cpp"], extra=["vx/vxio.cpp"], ldflags=IO_WRAP, defines=["LIBCORO_FEATURE_NETWORKING", "LIBCORO_FEATURE_TLS"],
    spec="Addr", consts=dict(C="{1}"), rand=addr_rand, canon=False, nrand=6000, trace_cap=1, budget=3, race_budget=1, lazy=("never",),
    mc=[dict(consts={"C": "{1}"}, K=2, T=2, invs=["Inv"])])])
