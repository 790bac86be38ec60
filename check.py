#!/usr/bin/env python3
"""check.py <property id>: builds the harness(es) from /repo's working tree, executes programs under the
controlled scheduler, validates every recorded trace against the TLA+ specification with TLC, model checks
the specification, writes evidence/<id>.json.  exit 0 held / 1 VIOLATION line / 2 the check itself failed."""
import sys, os, re, json, random, time, subprocess, traceback, shutil, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild, vtla
from comps import PROPS

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = 8

def prog_line(pid, nsched, base, par, phases):
    s = "%d %d %d %d %s :" % (pid, nsched, base, len(par), " ".join(map(str, par)))
    return s + " / ".join("".join(" %d.%s.%d.%d" % tuple(o) for o in ph) + " " for ph in phases)

def run_harness(world, bin_, d, progs, budget, tag="", only=None, nproc=NPROC):
    """progs: list of (pid, par, phases, base, nsched); returns list of trace dicts"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:detect_stack_use_after_return=0:exitcode=77" % (0), VX_CAP=str(world.get("trace_cap", 60) * (1 if TIER == "quick" else 20)))
    ps = []
    chunks = [progs[i::nproc] for i in range(nproc)] if only is None else [progs]
    for i, ch in enumerate(chunks):
        if not ch: continue
        pf, of = os.path.join(d, "p%s%d.txt" % (tag, i)), os.path.join(d, "o%s%d.txt" % (tag, i))
        with open(pf, "w") as fh:
            for (pid, par, phases, base, ns) in ch: fh.write(prog_line(pid, ns, base, par, phases) + "\n")
        cmd = [bin_, pf, of, str(budget), "1" if world.get("fork_each") else "0"] + ([str(only)] if only is not None else [])
        errf = open(os.path.join(d, "err%s%d.txt" % (tag, i)), "w")
        ps.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=errf, env=env, cwd=d), of, errf))
    traces, runs = [], 0
    for p, of, ef in ps:
        try: out, _ = p.communicate(timeout=budget * 3 + 120)
        except subprocess.TimeoutExpired:
            p.kill(); raise RuntimeError("harness did not finish")
        ef.close()
        if p.returncode != 0: raise RuntimeError("harness exit %d: %s" % (p.returncode, open(ef.name).read()[-2000:]))
        for w in out.decode().split("\n"):
            if w.startswith("RUNS "): runs += int(w.split()[1])
        with open(of) as fh:
            for line in fh:
                line = line.strip()
                if not line: continue
                try: traces.append(json.loads(line))
                except ValueError: pass
    return traces, runs

def explain(world, d, module, consts, evs):
    """how far a rejected trace was accepted"""
    acc, st, reached, trie, _ = vtla.validate(d, module, consts, [(1, evs)], workers=1, at=True, lazy=world.get("lazy"))
    return (1 in acc), (max(reached) if reached else 1)   # nodes are numbered along the only path

class Known:
    def __init__(self):
        self.entries = []
        p = os.path.join(HERE, "known_findings.json")
        if os.path.exists(p): self.entries = json.load(open(p)).get("findings", [])
    def match(self, prop, world, prog, evs, pos):
        for e in self.entries:
            if e.get("status") != "open" or e["property"] != prop or e["world"] != world: continue
            if all(any(ev[:len(w)] == w for ev in evs[:pos + 1]) for w in e["events"]) and evs[min(pos, len(evs) - 1)][:len(e["at"])] == e["at"]:
                return e
        return None

def canon(evs, kinds=("call", "ret")):
    """adjacent calls commute, adjacent returns commute (the specifications do not order them)"""
    out, i = [], 0
    while i < len(evs):
        k = evs[i][0]
        j = i + 1
        if k in kinds:
            while j < len(evs) and evs[j][0] == k: j += 1
        out.extend(sorted(evs[i:j]) if j - i > 1 else evs[i:j])
        i = j
    return out

def race_sites(bin_, err):
    """where the two unordered accesses of the last reported race are"""
    out, seen = [], set()
    for l in open(err, errors="replace"):
        m = re.match(r"RACE \S+: (\w+) at (\S+) by \d+, before that (\w+) at (\S+)", l)
        if not m or l in seen: continue
        seen.add(l)
        for what, a in ((m.group(1), m.group(2)), ("not ordered after a " + m.group(3), m.group(4))):
            try:
                o = subprocess.run(["addr2line", "-Cfspe", bin_, hex(int(a, 16) - 1)], capture_output=True, text=True).stdout.strip()
            except ValueError: o = a
            out.append("%s in %s" % (what, re.sub(r" \(discriminator \d+\)", "", o)))
    return out[:8]

def corrupt(rng, evs):
    """a trace that no longer tells the truth, for the self-test of the binding"""
    evs = json.loads(json.dumps(evs))
    kind = rng.randrange(3)
    rets = [i for i, e in enumerate(evs) if e[0] == "ret"]
    if not rets: return None
    i = rng.choice(rets)
    if kind == 0: evs[i][5] = 0
    elif kind == 1: evs[i][3] = "corrupted"
    else: evs.insert(i, list(evs[i]))
    return evs

def main():
    prop = sys.argv[1]
    t0 = time.time()
    P = PROPS[prop]
    replay_dir = os.path.join(HERE, "build", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    known = Known()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], executions=0, distinct_traces=0,
               mc_states_distinct=0, mc_states_generated=0, programs=0, programs_from_spec=0, executions_with_checked_accesses=0, corrupted_rejected=0, corrupted_tried=0,
               worlds=[], untaken_actions={})
    violations, finds = [], {}
    mult = 1 if TIER == "quick" else 20
    for wi, world in enumerate(P["worlds"]):
        wn = world["name"]
        d = os.path.join(HERE, "build", "%s-%s" % (prop, wn))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        rng = random.Random(SEED * 1000003 + wi * 7919 + 17)
        consts = world.get("consts", {"C": "{1,2,3,4,5,6,7,8}"})
        module = world["spec"]
        # 1. the specification itself, exhaustively within small constants (in the background)
        mcres = {}
        def mc():
            try:
                for k, m in enumerate(world.get("mc", [])):
                    if m.get("tier") == "thorough" and TIER == "quick": continue
                    md = os.path.join(d, "mc%d" % k)
                    mcres[k] = vtla.model_check(md, m.get("module", module), m["consts"], m["K"], m["T"], m["invs"], m.get("props", ()),
                                                workers=3 if TIER == "quick" else 8, timeout=m.get("timeout", 300), extra=m.get("extra", ""))
                for k, m in enumerate(world.get("impl", [])):
                    if m.get("tier") == "thorough" and TIER == "quick": continue
                    md = os.path.join(d, "impl%d" % k)
                    vtla.stage(md, m["module"])
                    rc, out, wall = vtla.tlc(md, m["module"], m["cfg"], workers=3 if TIER == "quick" else 8, timeout=m.get("timeout", 300))
                    if rc != 0: raise RuntimeError("TLC failed on %s (rc %d)\n%s" % (m["module"], rc, out[-3000:]))
                    mcres["impl%d" % k] = (vtla.stats(out), [], wall)
            except Exception as e: mcres["err"] = e
        if os.environ.get("VX_COV"): mc = lambda: None
        th = threading.Thread(target=mc, daemon=True); th.start()
        rb = {}
        def race_build():
            try: rb["bin"] = vbuild.build("%s-%s/rb" % (prop, wn), world["harness"], world["sources"], world.get("defines", ()), extra=world.get("extra", ()), ldflags=world.get("ldflags", ()), race=True)
            except Exception as e: rb["err"] = str(e)
        rth = threading.Thread(target=race_build, daemon=True)
        if world.get("race", True) and not os.environ.get("VX_COV"): rth.start()
        bin_ = vbuild.build("%s-%s/b" % (prop, wn), world["harness"], world["sources"], world.get("defines", ()),
                            extra=world.get("extra", ()), ldflags=world.get("ldflags", ()), asan=world.get("asan", True))
        # 2. programs: random ones and ones generated by TLC from the specification
        progs, pid = [], 0
        nrand = world.get("nrand", 320)
        progmap = {}
        def add(par, phases):
            nonlocal pid
            pid += 1
            progs.append((pid, par, phases, SEED * 100000 + pid * 31, 10 ** 7))
        for par, phases in world.get("fixed", lambda: [])(): add(par, phases)
        for _ in range(nrand):
            par, phases = world["rand"](rng)
            add(par, phases)
        gen = world.get("gen")
        nspec = 0
        if gen:
            for g in vtla.generate(os.path.join(d, "gen"), module, gen["consts"], gen.get("K", 4), gen.get("T", 10), gen.get("num", 100), gen.get("depth", 60), SEED):
                par = g[0][1]
                if "par" in gen: par = gen["par"](rng, par)
                phases, cur = [], []
                for o in g[1:]:
                    if len(o) == 1:
                        if cur: phases.append(cur); cur = []
                    else: cur.append(o)
                if cur: phases.append(cur)
                if "fix" in world: phases = world["fix"](phases)
                if phases: add(par, phases); nspec += 1
        rng.shuffle(progs)
        for p in progs: progmap[p[0]] = p
        # 3. run
        budget = world.get("budget", 8) * mult
        th_wait = False
        traces, runs = run_harness(world, bin_, d, progs, budget)
        if os.environ.get("VX_COV"):
            th.join(); continue
        # the same programs with every memory access of the library checked for happens-before; only executions that end in a race count
        rtraces, rruns = [], 0
        if rth.ident is not None:
            rth.join()
            if "bin" in rb:
                try:
                    rtraces, rruns = run_harness(world, rb["bin"], d, progs, world.get("race_budget", 4) * mult, tag="r")
                    rtraces = [t for t in rtraces if t["ev"][-1] == ["end", "race"]]
                except RuntimeError as e: rb["err"] = str(e)
            if "err" in rb: print("note: %s/%s: no executions with checked memory accesses: %s" % (prop, wn, rb["err"][:600]))
        # 4. distinct traces, abnormal endings first
        uniq = {}
        par_of = lambda t: ["par", [int(x) for x in progmap[t["p"]][1]]]
        for t in traces:
            ev = [par_of(t)] + (canon(t["ev"], {"calls": ("call",)}.get(world.get("canon"), ("call", "ret"))) if world.get("canon", True) else t["ev"])
            key = json.dumps(ev)
            if key not in uniq: uniq[key] = (t["p"], t["k"], ev, bin_)
        for t in rtraces:
            ev = [par_of(t)] + t["ev"]
            uniq.setdefault(json.dumps(ev), (t["p"], t["k"], ev, rb["bin"]))
        items = list(uniq.values())
        # every program its turn, and outcomes not seen before first (irrespective of the order of events, then of calls)
        byprog = {}
        for it in items: byprog.setdefault(it[0], []).append(it)
        turn = {}
        for p, l in byprog.items():
            rng.shuffle(l)
            s1, s2, first, second, third = set(), set(), [], [], []
            for it in l:
                e = [json.dumps(x) for x in it[2] if x[0] != "call"]
                a, b = tuple(sorted(e)), tuple(e)
                (first if a not in s1 else second if b not in s2 else third).append(it)
                s1.add(a); s2.add(b)
            for j, it in enumerate(first + second + third): turn[id(it)] = j
        def rank(it):
            ev = it[2]
            bad = ev[-1] != ["end", "ok"] or any(e[0] == "ret" and len(e) > 5 and e[5] == 0 for e in ev)
            return (0 if bad else 1, turn[id(it)], it[0])
        items.sort(key=rank)
        cap = world.get("cap_events", 200000) * (1 if TIER == "quick" else 5)
        chosen, n = [], 0
        for it in items:
            if n > cap and len(chosen) > 50: break
            chosen.append(it); n += len(it[2])
        acc, st, walls, rejected = set(), (0, 0), 0, []
        # self-test of the binding: corrupted copies must be rejected
        cor = []
        for it in rng.sample(chosen, min(25, len(chosen))):
            if it[2][-1] != ["end", "ok"]: continue
            e = corrupt(rng, it[2])
            if e: cor.append(e)
        # bad endings and corrupted copies first; then as many as fit into the time
        leafs = [(10 ** 6 + i, e) for i, e in enumerate(cor)] + [(i + 1, it[2]) for i, it in enumerate(chosen)]
        tvb = world.get("tv_budget", 30) * (1 if TIER == "quick" else 20)
        size, pos, t1, done_leafs = world.get("batch", 60000), 0, time.time(), set()
        while pos < len(leafs):
            cur, cn = [], 0
            while pos + len(cur) < len(leafs) and (cn < size or not cur):
                cur.append(leafs[pos + len(cur)]); cn += len(cur[-1][1])
            try:
                a, s, _, trie, wall = vtla.validate(os.path.join(d, "tv"), module, consts, cur, workers=8, timeout=max(10, tvb * 0.6), lazy=world.get("lazy"))
            except vtla.Slow:
                walls = time.time() - t1
                if not done_leafs and size > 50 and walls < 6 * tvb: size = size // 6; continue
                if not done_leafs: raise
                break
            pos += len(cur); done_leafs |= {l for l, _ in cur}
            acc |= a; st = (st[0] + s[0], st[1] + s[1]); walls = time.time() - t1
            if cn and wall > 0.5: size = int(min(world.get("batch", 60000), max(size * 0.2, cn * (tvb * 0.35) / wall)))
            if walls + wall * 0.7 > tvb: break
        rank_ok = lambda i: (i + 1) in done_leafs
        for i, it in enumerate(chosen):
            if rank_ok(i) and (i + 1) not in acc: rejected.append(it)
        nval = sum(1 for l in done_leafs if l < 10 ** 6)
        orig_bad = sum(1 for i, e in enumerate(cor) if (10 ** 6 + i) in acc)
        if orig_bad: raise RuntimeError("binding self-test: %d corrupted traces were accepted" % orig_bad)
        # 5. confirm rejections: the same program and schedule again, validated alone
        rejected.sort(key=lambda it: len(it[2]))
        confirmed = 0
        # the shortest ones, and some from all over
        for (p, k, ev, xbin) in rejected[:15] + (rng.sample(rejected[15:], min(45, len(rejected) - 15)) if len(rejected) > 15 else []):
            if confirmed >= 3: break
            tr2 = []
            for attempt in range(world.get("confirm_attempts", 1)):
                t2, _ = run_harness(world, xbin, d, [progmap[p]], 60, tag="c", only=k)
                tr2 += t2
            bad = None
            for t in tr2:
                ev2 = [par_of(t)] + t["ev"]
                ok, pos = explain(world, os.path.join(d, "cv"), module, consts, ev2)
                if not ok: bad = (ev2, pos); break
            if bad is None:
                print("note: a rejected trace was not reproduced (program %d schedule %d)" % (p, k)); continue
            ev2, pos = bad
            # node ids: 1 root, 2 = first event
            i = min(pos - 1, len(ev2) - 1)
            e = known.match(prop, wn, progmap[p], ev2, i)
            if e: finds[e["id"]] = e; continue
            confirmed += 1
            rp = os.path.join(replay_dir, "%s-%s-%d.json" % (prop, wn, confirmed))
            json.dump(dict(property=prop, world=wn, harness=world["harness"], spec=module, program=prog_line(*(progmap[p][0], 1, progmap[p][3], progmap[p][1], progmap[p][2])),
                           schedule=k, seed=SEED, checked_accesses=xbin != bin_, race=race_sites(xbin, os.path.join(d, "errc0.txt")) if xbin != bin_ else [], trace=ev2, accepted_prefix=ev2[:i], rejected_event=ev2[i] if i < len(ev2) else None,
                           replay_cmd="python3 replay.py " + os.path.relpath(rp, HERE)), open(rp, "w"), indent=1)
            violations.append((rp, ev2, i))
            if xbin != bin_: print("\n".join(json.load(open(rp))["race"]))
        th.join()
        if "err" in mcres: raise mcres["err"]
        for k, (s, dead, wall) in mcres.items():
            cov["mc_states_generated"] += s[0]; cov["mc_states_distinct"] += s[1]
            if dead: cov["untaken_actions"]["%s/%s" % (wn, k)] = dead
        cov["states"] += st[1] + sum(r[0][1] for k, r in mcres.items())
        cov["transitions"] += st[0] + sum(r[0][0] for k, r in mcres.items())
        cov["traces_validated_against_impl"] += nval
        cov["executions"] += runs; cov["executions_with_checked_accesses"] += rruns; cov["distinct_traces"] += len(items)
        cov["programs"] += len(progs); cov["programs_from_spec"] += nspec
        cov["corrupted_tried"] += len(cor); cov["corrupted_rejected"] += len(cor) - orig_bad
        cov["worlds"].append(dict(name=wn, spec=module, executions=runs, executions_with_checked_accesses=rruns, distinct=len(items), validated=nval, rejected=len(rejected), tlc_wall=round(walls, 1)))
        for it in rng.sample(chosen, min(2, len(chosen))): cov["samples"].append(dict(world=wn, program=it[0], schedule=it[1], trace=it[2][:60]))
        ends = {}
        for it in items: ends[it[2][-1][1]] = ends.get(it[2][-1][1], 0) + 1
        mcw = {k: round(v[2]) for k, v in mcres.items() if k != "err"}
        print("%s/%s: %d+%d executions, %d distinct traces, %d validated (%d states), %d rejected, ends %s, mc %s, tv %.0fs, %.0fs" % (prop, wn, runs, rruns, len(items), nval, st[1], len(rejected), ends, mcw, walls, time.time() - t0))
        if not world.get("keep"): shutil.rmtree(os.path.join(d, "b", "gen"), ignore_errors=True); shutil.rmtree(os.path.join(d, "rb"), ignore_errors=True)
        if not items: raise RuntimeError("no trace was recorded")
        if violations: break
    if os.environ.get("VX_COV"): return 0
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking", coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for e in finds.values(): print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for rp, ev2, i in violations:
        print("rejected at event %d: %s   (after %s)" % (i, json.dumps(ev2[i]) if i < len(ev2) else "-", json.dumps(ev2[max(0, i - 6):i])))
    for rp, _, _ in violations[:1]: print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1 if violations else 0

if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
