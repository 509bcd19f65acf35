"""What every check runs: models, harness tracks, scenario families."""

TLC_TIMEOUT = 800

TRACE_SPECS = {"spop": "SpopTrace", "codec": "CodecTrace", "peers": "PeersTrace"}

ASSUMPTIONS = [
    "the generated scenarios and the explored interleavings are representative; nothing is claimed about executions that were not produced",
    "TLC, the Go toolchain and the harness's own wire codec (harness/wire.go) are correct",
]


def _spop(conns, w, q, kinds, hellos, n, faults):
    s = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs.split()) + "}"
    return {"module": "Spop", "inv": ["NoFailure", "QuietOk", "Released"],
            "const": {"Conns": conns, "W": w, "QCap": q, "Kinds": s(kinds), "Hellos": s(hellos), "MaxSend": n, "Faults": s(faults), "BUG": '"none"'}}


ALLH = "hello small health n1 disc unknown fatal"
MODELS = {
    "sched": _spop("{1}", 2, 1, "n1 n2 bad", "hello", 4, "panic"),
    "two": _spop("{1, 2}", 1, 1, "n1 unknown", "hello", 2, "panic"),
    "two_big": _spop("{1, 2}", 2, 1, "n1", "hello", 3, ""),
    "two_big1": _spop("{1, 2}", 1, 1, "n1 unknown", "hello", 3, "panic"),
    "gate": _spop("{1}", 2, 2, "n1 disc", "hello", 3, "gate"),
    "gate_big": _spop("{1}", 2, 2, "n1 n0 disc", "hello", 4, "gate"),
    "end": _spop("{1}", 1, 1, "n1 disc fatal long", "hello", 3, "eof werr cancel"),
    "serve": _spop("{1, 2}", 1, 1, "n1", "hello", 2, "eof cancel serve"),
    "end_gate": _spop("{1}", 2, 2, "n1 disc", "hello", 3, "gate eof"),
    "end_big": _spop("{1, 2}", 1, 1, "n1 disc fatal", "hello", 2, "eof cancel"),
    "end_big2": _spop("{1}", 2, 1, "n1 disc fatal long unknown", "hello", 4, "eof werr"),
    "hello": _spop("{1}", 1, 1, "n1 hello2", ALLH, 3, "eof"),
    "hello_big": _spop("{1, 2}", 1, 1, "n1 hello2", ALLH, 2, "eof"),
    "limit": _spop("{1}", 2, 2, "n1 edge long n0", "hello", 3, "big panic"),
    "limit_big": _spop("{1}", 2, 2, "n1 edge long n0", "hello", 4, "big panic"),
    # for the generation of scripts only
    "sim": _spop("{1, 2}", 2, 4, "n0 n1 n2 bad disc unknown edge long fatal hello2", "hello hello hello health small", 7, "eof werr cancel panic big gate serve"),
    "sim1": _spop("{1}", 2, 4, "n0 n1 n2 bad unknown", "hello", 12, "panic gate"),
}



def _codec(obj, steps):
    return {"module": "Codec", "inv": ["NoFailure"], "const": {"OBJ": f'"{obj}"', "BUG": '"none"', "STEPS": steps}}


MODELS.update({
    "wire": {"module": "WireModel", "inv": ["NoFailure"], "const": {"BUG": '"none"'}},
    "varint": _codec("varint", 1),
    "kvs": _codec("kvs", 4), "kvs_big": _codec("kvs", 6),
    "kvw": _codec("kvw", 4), "kvw_big": _codec("kvw", 6),
    "act": _codec("act", 4), "act_big": _codec("act", 5),
    "un": _codec("un", 1),
    "buf": _codec("buf", 6), "buf_big": _codec("buf", 9),
    "frm": _codec("frm", 3), "frm_big": _codec("frm", 4), "hs": _codec("hs", 1),
    # for the generation of scripts only
    "kvs_sim": _codec("kvs", 7), "kvw_sim": _codec("kvw", 7), "act_sim": _codec("act", 7), "buf_sim": _codec("buf", 14),
})



def _set(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs.split()) + "}"


def _peers(conns, kinds, hellos, n, t, faults, block=False, calm=True, shared=False):
    return {"module": "Peers", "inv": ["NoFailure", "QuietOk", "Released"],
            "const": {"Conns": conns, "Kinds": _set(kinds), "Hellos": _set(hellos), "MaxSend": n, "MaxT": t, "Faults": _set(faults),
                      "Shared": str(shared).upper(), "Block": str(block).upper(), "Calm": str(calm).upper(), "BUG": '"none"'}}


def _writer(s, calls, per, hb, sy, werr, cap=12):
    return {"module": "PeerWriter", "inv": ["NoFailure", "QuietOk"],
            "const": {"S": s, "Calls": _set(calls), "MaxCalls": per, "HB": hb, "SY": sy, "Cap": cap, "Werr": str(werr).upper(), "BUG": '"none"'}}


ALLM = "hb sync fin ack def1 def2 def3 sw1 sw2 uid max inc tim inct class trunc perr"
MODELS.update({
    "p_hello": _peers("{1}", "uid def1 sync", "hello badhello", 3, 4, "eof werr half panic", block=True),
    "p_upd": _peers("{1}", "def1 def2 def3 sw1 sw2 uid inc max trunc", "hello badhello", 5, 0, "", calm=False),
    "p_two": _peers("{1, 2}", "def1 def3 sw1 inc", "hello", 3, 0, ""),
    "p_two_big": _peers("{1, 2}", "def1 def3 sw1 inc", "hello", 4, 0, ""),
    "p_bad": _peers("{1, 2}", "def1 inc class trunc perr", "hello badhello", 3, 0, "panic"),
    "p_time": _peers("{1}", "hb uid", "hello", 4, 9, "half", block=True),
    "p_time_big": _peers("{1}", "hb uid sync", "hello", 4, 11, "half", block=True),
    "p_timer": _peers("{1}", "hb uid def1 sync", "hello", 4, 11, "half"),
    "p_end": _peers("{1}", "def1 uid", "hello badhello", 3, 5, "eof werr cancel panic", block=True),
    "p_end_big": _peers("{1}", "def1 uid", "hello badhello", 3, 5, "eof werr cancel panic half", block=True),
    "p_end_all": _peers("{1}", "def1 uid", "hello badhello", 3, 5, "eof werr cancel panic", block=True, calm=False),
    "p_ctl": _peers("{1}", "def1 uid", "hello badhello", 3, 6, "eof cancel panic half", block=True),
    "p_serve": _peers("{1, 2}", "def1", "hello", 1, 0, "eof cancel serve", calm=False),
    "p_serve_big": _peers("{1, 2}", "def1", "hello badhello", 2, 0, "eof cancel serve", calm=False),
    "p_shared": _peers("{1, 2}", "def1 class", "hello badhello", 2, 0, "eof cancel panic", shared=True),
    "w_bad": _writer(2, "batch badbatch sw pan", 1, 1, 0, True),
    "w_two": _writer(2, "def ent bad", 1, 1, 1, False),
    "w_three": _writer(3, "ent def pan", 1, 1, 1, False),
    "w_big": _writer(2, "def ent batch sw pan", 2, 1, 0, False),
    "w_ctl": _writer(2, "batch badbatch sw pan def ent", 1, 1, 1, False),
    # for the generation of scripts only
    "p_sim": _peers("{1, 2}", ALLM, "hello hello badhello", 9, 30, "eof werr cancel panic half serve", block=True),
    "p_sim1": _peers("{1}", "hb sync def1 def2 def3 sw1 sw2 uid max inc tim inct", "hello", 14, 20, "half"),
    "w_sim": _writer(4, "def sw ent batch bad pan badbatch", 3, 0, 2, True),
})

# ---------------------------------------------------------------- judges
# (property, {trace id: [(event, rule)]}) -> [(trace id, [(event, rule)])]


def _own(prop, fails):
    out = []
    for id_, f in fails.items():
        if "/" in id_.split(":", 1)[1]:
            continue
        mine = [x for x in f if x[1].startswith(prop + ".")]
        if mine:
            out.append((id_, mine))
    return out


def _twin(prop, fails):
    """Broken rules of a scenario none of whose twins breaks any: the only
    difference between them is what the property is about."""
    out = []
    for id_, f in fails.items():
        if "/" in id_.split(":", 1)[1]:
            continue
        mine = [x for x in f if x[1].startswith(prop + ".")]
        twins = [t for t in fails if t.startswith(id_ + "/")]
        if mine or not twins:
            out.append((id_, mine or f))
    return out


# "alone": what breaks with its twins may do so because of the connections that
# the process has served before; run.py runs these twins in processes of their own
JUDGES = {"own": _own, "twin": _twin, "alone": _twin}


def matches_known(key, id_, what, trace):
    """Whether a broken trace is exactly the finding listed under key."""
    if key == "arrays":
        # the one fixed input of family arr, and nothing else about it
        return id_.startswith("codec:arr:") and {r for _, r in what} == {"C21.array"} and all(e["arr"] for e in trace["ev"])
    return False


# ---------------------------------------------------------------- properties

MC = "model_checking"


def spop(fams, n, scripts=(), par=True, judge="own"):
    t = {"track": "spop", "fams": fams.split(), "n": n, "par": par, "judge": judge}
    if judge in ("twin", "alone"):
        t["env"] = {"VH_TWINS": 1}
    if scripts:
        t["scripts"] = list(scripts)
        t["fams"] = t["fams"] + ["script"]
    return t


def codec(fams, n, scripts=()):
    t = {"track": "codec", "fams": fams.split(), "n": n, "par": True, "judge": "own", "nscripts": (300, 2000)}
    if scripts:
        t["scripts"] = list(scripts)
        t["fams"] = t["fams"] + ["script"]
    return t


def peers(fams, n, scripts=(), par=True, judge="own"):
    t = dict(spop(fams, n, scripts, par, judge), track="peers")
    return t


PROPS = {
    "C01": {"level": MC, "models": {"quick": ["sched", "limit"], "thorough": ["sched", "limit_big", "two_big1", "gate_big"]},
            "controls": [("sched", "ackbad"), ("sched", "nolock"), ("sched", "dropfull")],
            "tracks": [spop("sched gate fault alias stress limit sched end seg hello", (1500, 6000), ["sim", "sim1"]), spop("bulk", (4, 24))]},
    "C02": {"level": MC, "models": {"quick": ["sched"], "thorough": ["sched", "two_big", "two_big1"]},
            "controls": [("sched", "earlyrelease")],
            "tracks": [spop("alias alias alias sched fault stress seg limit", (1600, 6000), ["sim1"]), spop("bulk", (4, 24))]},
    "C03": {"level": MC, "models": {"quick": ["gate"], "thorough": ["gate", "gate_big", "end_big2"]},
            "controls": [("gate", "nolock")],
            "tracks": [spop("gate gate gate stress sched end", (1400, 6000), ["sim", "sim1"])]},
    "C04": {"level": MC, "models": {"quick": ["hello"], "thorough": ["hello", "hello_big"]},
            "controls": [("hello", "anyoffer")],
            "tracks": [spop("hello hello hello hello hello fault limit iso", (2400, 9000), ["sim"])]},
    "C05": {"level": MC, "models": {"quick": ["limit"], "thorough": ["limit_big"]},
            "controls": [("limit", "offbyone")],
            "tracks": [spop("limit limit limit limit hello fault iso", (1600, 6000), ["sim"])]},
    "C06": {"level": MC, "models": {"quick": ["two", "sched"], "thorough": ["two_big1", "sched", "end_big"]},
            "controls": [("sched", "nopanicguard")],
            "tracks": [spop("fault fault fault fault stress sched hello", (1500, 6000), ["sim"])]},
    "C07": {"level": MC, "models": {"quick": ["end", "hello"], "thorough": ["end", "end_gate", "end_big", "end_big2", "hello_big"]},
            "controls": [("end", "eofleak"), ("end", "nodiscreply"), ("end", "nodiscclose")],
            "tracks": [spop("end end end end fault hello gate", (1800, 7000), ["sim"])]},
    "C08": {"level": MC, "models": {"quick": ["two", "sched"], "thorough": ["two_big", "two_big1", "sched"]},
            "controls": [("sched", "dropfull"), ("sched", "nosignal"), ("sched", "nonotfull")],
            "tracks": [spop("sched sched sched stress stress fault gate", (1400, 6000), ["sim1", "sim"]), spop("bulk", (4, 24))]},
}

PROPS.update({
    "C10": {"level": MC, "models": {"quick": ["wire", "varint"]},
            "controls": [("varint", "nocheck"), ("varint", "limit"), ("varint", "shift"), ("wire", "nosub")],
            "tracks": [codec("varint", (1200, 12000))]},
    "C11": {"level": MC, "models": {"quick": ["kvs"], "thorough": ["wire", "kvs_big"]},
            "controls": [("kvs", "nocount"), ("kvs", "short"), ("kvs", "addr")],
            "tracks": [codec("kv msg kv msg kvx", (5000, 40000), ["kvs_sim"])]},
    "C12": {"level": MC, "models": {"quick": ["act"], "thorough": ["wire", "act_big"]},
            "controls": [("act", "growcopy"), ("act", "header")],
            "tracks": [codec("act act act", (5000, 30000), ["act_sim"])]},
    "C13": {"level": MC, "models": {"quick": ["un"], "thorough": ["wire", "un"]},
            "controls": [("un", "noclear"), ("un", "firstwins"), ("un", "loose"), ("un", "reuse")],
            "tracks": [codec("unm", (6000, 50000))]},
    "C14": {"level": MC, "models": {"quick": ["kvw"], "thorough": ["wire", "kvw_big"]},
            "controls": [("kvw", "norollback"), ("kvw", "typebyte")],
            "tracks": [codec("kvw kvw kvw", (5000, 40000), ["kvw_sim"])]},
    "C21": {"level": MC, "models": {"quick": ["wire"]},
            "controls": [("wire", "noparams")],
            "tracks": [codec("def ent ent def ent ent ent ent ent ent ent arr", (3600, 24000))]},
    "C24": {"level": MC, "models": {"quick": ["buf"], "thorough": ["buf_big"]},
            "controls": [("buf", "growunread"), ("buf", "growlen"), ("buf", "reset")],
            "tracks": [codec("buf", (6000, 50000), ["buf_sim"])]},
})

PROPS.update({
    "C09": {"level": MC, "models": {"quick": ["limit", "p_time"], "thorough": ["limit_big", "p_time_big", "p_hello"]},
            "controls": [("p_ctl", "ctxearly"), ("limit", "offbyone")],
            "tracks": [spop("seg", (700, 3000), judge="twin"), peers("seg", (900, 5000), judge="twin")]},
    "C15": {"level": MC, "models": {"quick": ["p_hello"], "thorough": ["p_hello", "p_end_big"]},
            "controls": [("p_upd", "statuslate"), ("p_upd", "badhello")],
            "tracks": [peers("hello hello hello hello end seg bad", (2400, 12000), ["p_sim"]), peers("slow", (300, 2400))]},
    "C16": {"level": MC, "models": {"quick": ["p_upd", "p_two"], "thorough": ["p_upd", "p_two_big"]},
            "controls": [("p_upd", "noswitch"), ("p_upd", "firstdef"), ("p_upd", "noid"), ("p_two", "sharedtables")],
            "tracks": [peers("upd upd upd upd iso end seg bad", (2400, 12000), ["p_sim1", "p_sim"]), peers("bulk", (6, 48))]},
    "C17": {"level": MC, "models": {"quick": ["p_bad"], "thorough": ["p_bad", "p_end_all"]},
            "controls": [("p_ctl", "nopanicguard")],
            "tracks": [peers("bad bad bad bad hello end", (2000, 12000), ["p_sim"]), peers("slow", (300, 2400))]},
    "C18": {"level": MC, "models": {"quick": ["p_time"], "thorough": ["p_time_big", "p_end_big"]},
            "controls": [("p_timer", b) for b in "nohb slowhb notimeout timeronce updonly hbreset nosync".split()] + [("p_upd", "syncall")],
            "tracks": [peers("time time time time time hello upd end", (2400, 12000), ["p_sim", "p_sim1"]), peers("slow", (300, 2400)), peers("bulk", (6, 48))]},
    "C19": {"level": MC, "models": {"quick": ["p_end", "p_shared"], "thorough": ["p_end", "p_end_big", "p_end_all", "p_shared"]},
            "controls": [("p_ctl", b) for b in "nopanicguard noclosebad latecancel closetwice hellowait ctxearly".split()],
            "tracks": [peers("end end end end hello time bad", (2400, 12000), ["p_sim"]), peers("bulk", (6, 48))]},
    "C20": {"level": MC, "models": {"quick": ["w_bad", "w_two"], "thorough": ["w_bad", "w_three", "w_big"]},
            "controls": [("w_ctl", b) for b in "nolock idoutside swnolock noflush headfirst sameid keeplock ownbuf".split()],
            "tracks": [dict(peers("wr wr wr wr time hello", (2000, 12000), ["w_sim"]), nscripts=(400, 2000)), peers("gate gate slow", (500, 3000)), peers("bulk", (6, 48))]},
    "C22": {"level": MC, "models": {"quick": ["end", "serve", "p_shared", "p_serve"], "thorough": ["end", "end_big", "serve", "p_end", "p_shared", "p_serve_big"]},
            "controls": [("p_ctl", "hellowait"), ("end", "eofleak"), ("serve", "serveonce"), ("p_serve", "serveonce")],
            "tracks": [spop("end end end fault gate", (900, 4000), ["sim"]), peers("end end end time", (1200, 6000), ["p_sim"])]},
    "C23": {"level": MC, "models": {"quick": ["two", "p_two"], "thorough": ["two_big1", "p_two_big"]},
            "controls": [("p_two", "sharedtables")],
            "tracks": [spop("iso", (300, 1500), judge="alone"), peers("iso iso slow", (600, 3600), judge="alone")]},
})

PROPS["C26"] = {"level": MC, "models": {"quick": ["frm"], "thorough": ["wire", "frm_big"]},
                "controls": [("frm", b) for b in "lastcount errlost noreset early nojoin".split()],
                "tracks": [codec("frm", (2400, 20000))]}
PROPS["C27"] = {"level": MC, "models": {"quick": ["wire", "hs"]},
                "controls": [("hs", b) for b in "nocr ahead short norel lastcount errlost".split()],
                "tracks": [codec("hs", (4000, 30000))]}
PROPS["C25"] = {"level": MC, "models": {"quick": ["end", "sched", "p_end"], "thorough": ["end", "end_big2", "sched", "p_end", "p_end_big"]},
                "controls": [("sched", "keepbuf"), ("p_ctl", "timerleak")],
                "tracks": [spop("leak", (64, 480), par=False), peers("leak", (48, 480), par=False)]}

# families that a run of their own has to be given: hours of virtual time,
# very many connections or frames, real TCP connections
BULK = "many churn long"
for p in "C01 C03 C04 C07 C08 C22".split():
    PROPS[p]["tracks"].append(spop("idle", (160, 800), par=False))
for p in "C01 C02 C06 C07 C08 C22".split():
    PROPS[p]["tracks"].append(spop(BULK, (48, 240), par=False))
for p in "C01 C03 C04 C07 C22".split():
    PROPS[p]["tracks"].append(spop("tcp", (24, 160)))
for p in "C16 C17 C19 C20 C22".split():
    PROPS[p]["tracks"].append(peers(BULK, (48, 480), par=False))
for p in "C15 C16 C19 C20 C22".split():
    PROPS[p]["tracks"].append(peers("tcp", (24, 160)))

NOT_APPLICABLE = {}
TECHNIQUE = "TLA+ model checked with TLC; TLC validates traces of the real code, partly driven by behaviours of the model"
NOTE = ("Exhaustive for the model within small constants; the real code is checked on the generated executions only, "
        "each event of which TLC checks against the contract. Trusts TLC, the Go toolchain and the harness's own codec.")
