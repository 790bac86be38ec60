"""TLC: validation of recorded traces (merged into a prefix tree), exhaustive model checking of the
specification, and generation of programs from the specification's own behaviours."""
import json, os, re, subprocess, shutil, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

TRACE_TMPL = r"""
------------------------------ MODULE %(m)sTrace ------------------------------
EXTENDS %(m)s, Json, IOUtils, TLC
VARIABLE n
Data == JsonDeserialize(IOEnv.TRIE)
N == Data.n
TInit == \E k \in DOMAIN N[1].k : LET i == N[1].k[k] IN n = i /\ Init(N[i].e[2])
TraceEvent(e, leaf) ==
    CASE e[1] = "call" -> Call(e[2], e[3], e[4], e[5])
      [] e[1] = "ret"  -> Ret(e[2], e[3], e[4], e[5], e[6])
      [] e[1] = "q"    -> Q({e[2][k] : k \in DOMAIN e[2]})
      [] e[1] = "end"  -> End(e[2]) /\ PrintT(<<"ACC", leaf>>)
      [] OTHER         -> Other(e)
TNext == \/ N[n].s = 1 /\ Silent /\ n' = n
         \/ \E k \in DOMAIN N[n].k : LET i == N[n].k[k] IN n' = i /\ TraceEvent(N[i].e, N[i].l) %(at)s
TSpec == TInit /\ [][TNext]_<<vars, n>>
===============================================================================
"""
MC_TMPL = r"""
------------------------------ MODULE %(m)sMC ------------------------------
EXTENDS %(m)s, TLC
CONSTANTS K, T
VARIABLES cnt, tot
mcvars == <<vars, cnt, tot>>
MCInit == (\E p \in MCPars : Init(p)) /\ cnt = [c \in C |-> 0] /\ tot = 0
NoDone == \A c \in C : pend[c].pc # "done"
PendSet == {c \in C : pend[c].pc # "idle"}
ACall == \E c \in C : /\ pend[c].pc = "idle" /\ cnt[c] < K /\ tot < T
                      /\ \E o \in MCOps : May(c, o) /\ Call(c, o[1], o[2], o[3])
                      /\ cnt' = [cnt EXCEPT ![c] = @ + 1] /\ tot' = tot + 1
ASilent == Silent /\ UNCHANGED <<cnt, tot>>
ARet == \E c \in C : Ret(c, pend[c].op, pend[c].res, pend[c].val, 1) /\ UNCHANGED <<cnt, tot>>
AOther == MCOther /\ UNCHANGED <<cnt, tot>>
AQuiet == ~ENABLED Silent /\ ~ENABLED MCOther /\ NoDone /\ Q(PendSet) /\ UNCHANGED <<cnt, tot>>
MCNext == ACall \/ ASilent \/ AOther \/ ARet \/ AQuiet
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(ASilent) /\ WF_mcvars(AOther) /\ WF_mcvars(ARet)
\* whenever nothing can run, the specification accepts that as a quiescent state
QuietOK == (~ENABLED Silent /\ ~ENABLED MCOther /\ NoDone) => ENABLED Q(PendSet)
%(extra)s
=============================================================================
"""
GEN_TMPL = r"""
------------------------------ MODULE %(m)sGen ------------------------------
EXTENDS %(m)sMC, Json
VARIABLE hist
GInit == (\E p \in MCPars : Init(p) /\ hist = <<<<"par", p>>>>) /\ cnt = [c \in C |-> 0] /\ tot = 0
GCall == \E c \in C : /\ pend[c].pc = "idle" /\ cnt[c] < K /\ tot < T
                      /\ \E o \in MCOps : May(c, o) /\ Call(c, o[1], o[2], o[3]) /\ hist' = Append(hist, <<c, o[1], o[2], o[3]>>)
                      /\ cnt' = [cnt EXCEPT ![c] = @ + 1] /\ tot' = tot + 1
GSilent == Silent /\ UNCHANGED <<cnt, tot, hist>>
GRet == ARet /\ UNCHANGED hist
GOther == AOther /\ UNCHANGED hist
GQuiet == ~ENABLED Silent /\ ~ENABLED MCOther /\ NoDone /\ Q(PendSet) /\ Len(hist[Len(hist)]) # 1 /\ Len(hist) > 1 /\ hist' = Append(hist, <<0>>) /\ UNCHANGED <<cnt, tot>>
GNext == GCall \/ GSilent \/ GOther \/ GRet \/ GQuiet \/ UNCHANGED <<mcvars, hist>>
GSpec == GInit /\ [][GNext]_<<mcvars, hist>>
Emit == TLCGet("level") = %(depth)d => PrintT("PROG " \o ToJson(hist))
=============================================================================
"""

def _java(mem="6g"):
    return ["java", "-Xmx" + mem, "-Xss16m", "-XX:+UseParallelGC", "-cp", JAR]

def stage(d, module):
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"): shutil.copy(os.path.join(SPECS, f), d)

def mc_text(module, extra):
    return strip_other(module, MC_TMPL % dict(m=module, extra=extra))

def strip_other(module, t):
    if not re.search(r"^MCOther ==", open(os.path.join(SPECS, module + ".tla")).read(), re.M):
        t = t.replace("GOther == AOther /\\ UNCHANGED hist\n", "").replace(" \\/ GOther", "").replace("AOther == MCOther /\\ UNCHANGED <<cnt, tot>>\n", "").replace(" \\/ AOther", "").replace(" /\\ ~ENABLED MCOther", "").replace(" /\\ WF_mcvars(AOther)", "")
    return t

def tlc(d, module, cfg, env=None, workers=8, timeout=600, extra=(), mem="6g"):
    with open(os.path.join(d, module + ".cfg"), "w") as fh: fh.write(cfg)
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=d)
    e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = _java(mem) + ["-Djava.io.tmpdir=" + meta, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = -9
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out, time.time() - t0

def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated,? .*?([\d,]+) distinct states", out.replace("(", "")): pass
    if not m:
        m = re.search(r"([\d,]+) states generated", out)
        return (0, 0) if not m else (int(m.group(1).replace(",", "")), 0)
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))

def make_trie(traces, lazy=None):
    """traces: list of (leaf id, [events]); first event of each is ['par', [...]]"""
    nodes = [dict(e=["root"], k=[], l=0)]
    index = [dict()]
    for leaf, evs in traces:
        cur = 0
        for j, e in enumerate(evs):
            key = json.dumps(e)
            if j == len(evs) - 1: key += "#%d" % leaf
            nx = index[cur].get(key)
            if nx is None:
                nodes.append(dict(e=e, k=[], l=0)); index.append({})
                nx = len(nodes) - 1
                index[cur][key] = nx
                nodes[cur]["k"].append(nx + 1)
            cur = nx
        nodes[cur]["l"] = leaf
    for nd in nodes:
        nd["s"] = 1 if any((nodes[k - 1]["e"][0] in lazy) if lazy else (nodes[k - 1]["e"][0] != "call") for k in nd["k"]) else 0
    return dict(n=nodes)

class Slow(Exception): pass

def validate(d, module, consts, traces, workers=8, timeout=600, at=False, lazy=None):
    """returns (set of accepted leaf ids, stats, reached node indexes if at)"""
    stage(d, module)
    with open(os.path.join(d, module + "Trace.tla"), "w") as fh:
        fh.write(TRACE_TMPL % dict(m=module, at='/\\ PrintT(<<"AT", i>>)' if at else ""))
    trie = make_trie(traces, lazy)
    tf = os.path.join(d, "trie%s.json" % ("1" if at else ""))
    with open(tf, "w") as fh: json.dump(trie, fh)
    cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
    rc, out, wall = tlc(d, module + "Trace", cfg, env={"TRIE": tf}, workers=workers, timeout=timeout)
    if rc == -9: raise Slow("TLC did not finish %sTrace within %ds" % (module, timeout))
    if rc != 0:
        raise RuntimeError("TLC failed on %sTrace (rc %d):\n%s" % (module, rc, out[-3500:]))
    acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
    reached = set(int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)) if at else set()
    return acc, stats(out), reached, trie, wall

def model_check(d, module, consts, K, T, invs, props=(), workers=4, timeout=600, extra="", mem="6g"):
    stage(d, module)
    with open(os.path.join(d, module + "MC.tla"), "w") as fh: fh.write(mc_text(module, extra))
    c = dict(consts); c["K"] = K; c["T"] = T
    cfg = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in c.items()) + "\n"
    cfg += "".join("INVARIANT %s\n" % i for i in list(invs) + ["QuietOK"]) + "".join("PROPERTY %s\n" % p for p in props)
    rc, out, wall = tlc(d, module + "MC", cfg, workers=workers, timeout=timeout, extra=["-coverage", "1"], mem=mem)
    if rc != 0:
        i = out.find("Error:")
        raise RuntimeError("TLC model checking of %s failed (rc %d):\n%s" % (module, rc, out[i:i + 6000] if i >= 0 else out[-3500:]))
    # actions never taken = vacuous exploration
    dead = sorted(set(re.findall(r"<(\w+) line [^>]*>: 0:0", out)))
    return stats(out), dead, wall

def generate(d, module, consts, K, T, num, depth, seed, timeout=120):
    """programs out of the specification's own random behaviours (-simulate)"""
    stage(d, module)
    with open(os.path.join(d, module + "MC.tla"), "w") as fh: fh.write(mc_text(module, ""))
    with open(os.path.join(d, module + "Gen.tla"), "w") as fh: fh.write(strip_other(module, GEN_TMPL % dict(m=module, depth=depth)))
    c = dict(consts); c["K"] = K; c["T"] = T
    cfg = "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in c.items()) + "\n"
    rc, out, wall = tlc(d, module + "Gen", cfg, workers=1, timeout=timeout, extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    progs = []
    for l in out.split("\n"):
        if l.startswith('"PROG '):
            progs.append(json.loads(json.loads(l)[5:]))
    if not progs: raise RuntimeError("no programs generated from %s:\n%s" % (module, (re.search(r"Error:.*?(?=State 1:|$)", out, re.S) or [out[-2000:]])[0][:2500]))
    return progs
