"""What each check runs: the family (pallet), the model-checking profiles per tier, the profiles scenarios come from."""

SPEC_TAGS = {}
SUBSTRATE = [
    "pallet-balances, pallet-scheduler, pallet-preimage, frame-support and frame-system are as in the pinned registry sources and are not themselves under test",
    "FRAME's dispatch discards all storage changes of a call that returns an error (the driver dispatches through it)",
    "the driver's small mock runtime exercises the same pallet code as the production runtimes",
]
FAMILIES = {
    "dem": {
        "bin": "dem", "trace": "DemocracyTrace", "mc": "MCDemocracy", "runs": 130, "steps": 60,
        "assumptions": SUBSTRATE + ["6 voters, 6 proposals, balances below 12,000 units (a unit stands for 1, 10^10, 2^64, 10^18 or 10^29), about 60 calls and blocks per run",
                                     "bounded exhaustive exploration: the profiles and depths listed under model_checking_runs"],
    },
}

FAMILIES["ele"] = {
    "bin": "ele", "trace": "ElectionsTrace", "mc": "MCElections", "runs": 90, "steps": 60,
    "assumptions": SUBSTRATE + ["sp-npos-elections (sequential Phragmen) is not itself under test: its answer for the electorate of record is the reference, and the answer's justified representation is checked",
                                 "8 accounts, balances below 5,000 units (a unit stands for 1, 10^10, 10^14, 10^18 or 10^29), about 60 calls and blocks per run",
                                 "bounded exhaustive exploration: the profiles and depths listed under model_checking_runs; the election there is any order of backed candidates with justified representation"],
}

FAMILIES["osv"] = {
    "bin": "osv", "trace": "OnSlashVestingTrace", "mc": "MCOnSlashVesting", "runs": 150, "steps": 60,
    "assumptions": SUBSTRATE + ["pallet-vesting (the calls that create, vest and merge schedules) is as in the pinned registry source; its effects are specified and judged too",
                                 "4 accounts, at most 4 schedules each, amounts up to 10^34, blocks below about 600"],
}

FAMILIES["lin"] = {
    "bin": "lin", "crate": "ws/drivers", "trace": "LinearReleaseTrace", "mc": "MCLinearRelease", "runs": 130, "steps": 60,
    "assumptions": SUBSTRATE + ["4 accounts, 2 hold reasons, at most 4 schedules each, amounts below 1 million units (rates up to the top of the type), blocks below about 600",
                                 "other pallets use the trait as meant: what they put under a schedule without holding it anew is on hold under that reason and not yet scheduled"],
}

def P(profile, depth, mx=12):
    return {"Profile": profile, "Depth": depth, "MaxBlock": mx}

V, L, Q, X, M, K, C = "votes", "locks", "queue", "external", "meta", "stacked", "callers"
VOTE_OPS = ["vote", "delegate", "undelegate", "remove_vote", "remove_other_vote", "unlock"]
ALL_OPS = VOTE_OPS + ["propose", "second", "external_propose", "external_propose_majority", "external_propose_default", "fast_track",
                      "veto_external", "emergency_cancel", "cancel_referendum", "blacklist", "cancel_proposal",
                      "clear_public_proposals", "set_metadata", "block", "inject", "pull"]

def D(quick, thorough, emit, prof, ops, sim=None, **kw):
    return dict(fam="dem", mc={"quick": quick, "thorough": thorough}, emit=emit, prof=prof, ops=ops, sim=sim or [], **kw)

SIMV = [(P(V, 14, 16), (60, 14, 60))]
SIML = [(P(L, 16, 20), (60, 16, 60))]
SIMQ = [(P(Q, 14, 16), (60, 14, 60))]
SIMX = [(P(X, 14, 16), (60, 14, 60))]
SIMM = [(P(M, 14, 16), (60, 14, 60))]
PROPS = {
    "D01": D([P(V, 4)], [P(V, 6)], [P(V, 4)], [0, 1, 1, 2], ["vote", "delegate", "undelegate"], SIMV),
    "D02": D([P(L, 6), P(K, 8)], [P(L, 9, 14), P(K, 14, 20)], [P(L, 5), P(K, 8)], [0, 1, 2, 2], VOTE_OPS, SIML),
    "D03": D([P(L, 6), P(K, 8)], [P(L, 9, 14), P(K, 14, 20)], [P(L, 5), P(K, 8)], [0, 1, 2, 2], ["unlock", "remove_vote", "remove_other_vote"], SIML),
    "D04": D([P(V, 4)], [P(V, 6)], [P(V, 4)], [0, 1, 1, 2], ["block"], SIMV),
    "D05": D([P(X, 7), P(L, 5)], [P(X, 9), P(L, 8)], [P(X, 6), P(L, 5)], [0, 0, 2, 4], ["block", "cancel_referendum", "emergency_cancel"], SIMX),
    "D06": D([P(X, 7), P(Q, 5)], [P(X, 9), P(Q, 8)], [P(X, 6)], [0, 0, 2, 4], ["block"], SIMX),
    "D07": D([P(Q, 6)], [P(Q, 8)], [P(Q, 5)], [0, 3, 3, 3], ["propose", "second", "cancel_proposal", "clear_public_proposals"], SIMQ),
    "D08": D([P(Q, 6)], [P(Q, 8)], [P(Q, 5)], [0, 3, 3, 3], ["block"], SIMQ),
    "D09": D([P(X, 7)], [P(X, 9)], [P(X, 6)], [0, 3, 4, 4], ["external_propose", "veto_external", "emergency_cancel", "blacklist"], SIMX),
    "D10": D([P(X, 7), P(C, 2)], [P(X, 9), P(C, 3)], [P(X, 6), P(C, 2)], [0, 4, 4, 4],
             ["fast_track", "external_propose", "external_propose_majority", "external_propose_default", "veto_external", "emergency_cancel",
              "cancel_referendum", "blacklist", "cancel_proposal", "clear_public_proposals"], SIMX),
    "D11": D([P(M, 6), P(C, 2)], [P(M, 8), P(C, 3)], [P(M, 6), P(C, 1)], [0, 3, 4, 4], ["set_metadata"], SIMM),
    "D12": D([P(V, 4), P(Q, 5), P(X, 6)], [P(V, 5), P(Q, 7), P(X, 8), P(L, 7), P(M, 8)], [P(V, 4), P(Q, 5), P(X, 5), P(M, 5), P(L, 4)],
             [0, 0, 1, 2, 3, 4], ALL_OPS, nopanic=True),
    "D13": D([P(M, 5), P(C, 2)], [P(M, 7), P(V, 5), P(Q, 7), P(C, 3)], [P(V, 4), P(Q, 5), P(X, 5), P(M, 5), P(L, 4), P(C, 1)], [0, 0, 1, 3, 4], ALL_OPS, SIMM),
}


SE, RO, VO, LI = "seats", "rounds", "voters", "limits"
E_OPS = ["vote", "remove_voter", "submit", "renounce", "remove_member", "clean", "block"]

def E(quick, thorough, emit, prof, ops, sim=None, **kw):
    return dict(fam="ele", mc={"quick": quick, "thorough": thorough}, emit=emit, prof=prof, ops=ops, sim=sim or [], **kw)

SIMSE, SIMRO, SIMVO = [(P(SE, 20, 24), (60, 20, 60))], [(P(RO, 18, 24), (60, 18, 60))], [(P(VO, 18, 24), (60, 18, 60))]
PROPS.update({
    "E01": E([P(SE, 8), P(RO, 6)], [P(SE, 12, 16), P(RO, 8, 16)], [P(SE, 7), P(RO, 5)], [0, 2, 2, 3], ["renounce", "submit", "block", "remove_member"], SIMSE),
    "E02": E([P(SE, 8), P(RO, 6)], [P(SE, 12, 16), P(RO, 8, 16)], [P(SE, 7), P(RO, 5)], [0, 2, 2, 3], ["submit", "renounce"], SIMSE),
    "E03": E([P(VO, 7)], [P(VO, 10, 14)], [P(VO, 6)], [0, 1, 1, 1], ["vote", "remove_voter", "clean"], SIMVO),
    "E04": E([P(RO, 6), P(SE, 7)], [P(RO, 8, 16), P(SE, 11, 16)], [P(RO, 6)], [0, 3, 3, 3], ["block"], SIMRO),
    "E05": E([P(SE, 8), P(RO, 6)], [P(SE, 12, 16), P(RO, 8, 16)], [P(SE, 8), P(RO, 5)], [0, 2, 2, 3], ["renounce", "remove_member"], SIMSE),
    "E06": E([P(RO, 6), P(SE, 7)], [P(RO, 8, 16), P(SE, 11, 16)], [P(RO, 6), P(SE, 7)], [0, 2, 3, 3], ["block"], SIMRO),
    "E07": E([P(LI, 6)], [P(LI, 9, 14)], [P(LI, 5)], [0, 1, 2, 3], ["submit", "vote"], SIMRO),
    "E08": E([P(LI, 5), P(VO, 5), P(SE, 6), P(C, 2)], [P(LI, 8, 14), P(VO, 8, 14), P(SE, 11, 16), P(C, 4)], [P(LI, 5), P(VO, 5), P(SE, 6), P(C, 2)], [0, 0, 1, 2, 3], E_OPS, SIMSE, nopanic=True),
    "E09": E([P(RO, 6), P(SE, 8)], [P(RO, 8, 16), P(SE, 12, 16)], [P(RO, 5), P(LI, 5)], [0, 0, 3, 3], ["block", "remove_member"], SIMRO),
    "E10": E([P(RO, 5), P(SE, 7), P(C, 2)], [P(RO, 7, 16), P(SE, 11, 16), P(C, 4)], [P(RO, 5), P(SE, 6), P(C, 2)], [0, 2, 3, 3], E_OPS, SIMRO),
})

CU, BO, CA = "curves", "bonds", "calls"
def S(quick, thorough, emit, prof, ops, **kw):
    return dict(fam="osv", mc={"quick": quick, "thorough": thorough}, emit=emit, prof=prof, ops=ops,
                sim=[(P(CU, 16, 40), (80, 16, 60)), (P(CA, 16, 40), (40, 16, 60))], **kw)
SL = ["slash", "onslash"]
PROPS.update({
    "V01": S([P(CU, 5, 14)], [P(CU, 7, 16)], [P(CU, 5, 14), P(CA, 5)], [0, 1], SL),
    "V02": S([P(BO, 7), P(CU, 4)], [P(BO, 10, 16), P(CU, 6, 16)], [P(BO, 7), P(CU, 4)], [0, 1], SL),
    "V03": S([P(CU, 5, 14)], [P(CU, 7, 16)], [P(CU, 5, 14), P(CA, 5)], [0, 1], SL),
    "V04": S([P(CA, 5), P(BO, 6)], [P(CA, 8, 16), P(BO, 10, 16)], [P(CA, 5), P(BO, 6)], [0, 0, 1], ["vest", "vest_other", "merge"] + SL, nopanic=True),
})

CL, ME, OT = "claims", "merges", "others"
def R(quick, thorough, emit, prof, ops, **kw):
    return dict(fam="lin", mc={"quick": quick, "thorough": thorough}, emit=emit, prof=prof, ops=ops,
                sim=[(P(CL, 16, 40), (60, 16, 60)), (P(OT, 16, 40), (60, 16, 60))], **kw)
L_ALL = ["vest", "vest_other", "vest_all", "vest_all_other", "tvest", "merge", "vtransfer", "fvtransfer", "addrel", "setrel", "rmsched", "rmall"]
PROPS.update({
    "L01": R([P(CL, 7), P(OT, 5)], [P(CL, 9, 16), P(OT, 7, 16)], [P(CL, 6), P(OT, 5)], [0, 0, 1], L_ALL[:5]),
    "L02": R([P(OT, 6), P(CL, 5)], [P(OT, 8, 16), P(CL, 8, 16)], [P(OT, 6)], [0, 1, 1], ["addrel", "setrel"]),
    "L03": R([P(ME, 6, 14)], [P(ME, 8, 18)], [P(ME, 6, 14)], [0, 2, 2], ["merge"]),
    "L04": R([P(CL, 6), P(OT, 5)], [P(CL, 9, 16), P(OT, 7, 16)], [P(CL, 6), P(OT, 5)], [0, 2], ["vtransfer", "fvtransfer"]),
    "L05": R([P(OT, 6), P(ME, 5, 14)], [P(OT, 8, 16), P(ME, 7, 18)], [P(OT, 6), P(ME, 5, 14), P(CL, 5)], [0, 1, 2], L_ALL, nopanic=True),
})

FAMILIES["dis"] = {
    "bin": "dis", "crate": "ws/drivers", "trace": "DispenserTrace", "mc": "MCDispenser", "runs": 130, "steps": 60,
    "assumptions": SUBSTRATE + ["signatures: the token library is a stand-in in which a token is valid under a key exactly when made with it; everything done with the token afterwards is the real code",
                                 "4 users, 6 DIDs, at most 3 schedules per account"],
}
CD, MN, TX = "creds", "money", "txs"
def I(quick, thorough, emit, prof, ops, **kw):
    return dict(fam="dis", mc={"quick": quick, "thorough": thorough}, emit=emit, prof=prof, ops=ops,
                sim=[(P(CD, 16, 30), (60, 16, 60)), (P(MN, 16, 30), (60, 16, 60))], **kw)
PROPS.update({
    "S01": I([P(CD, 5, 12)], [P(CD, 7, 16)], [P(CD, 5, 12), P(MN, 4)], [0, 1], ["dispense"]),
    "S02": I([P(CD, 5, 12), P(MN, 4)], [P(CD, 7, 16), P(MN, 6, 16)], [P(CD, 5, 12), P(MN, 5)], [0, 1], ["dispense"]),
    "S03": I([P(MN, 5, 12)], [P(MN, 7, 16)], [P(MN, 5, 12), P(CD, 4)], [0, 1], ["dispense", "set_amount"], nopanic=True),
    "S04": I([P(TX, 5, 12)], [P(TX, 7, 16)], [P(TX, 5, 12)], [0, 1, 1], ["tx"]),
})
FAMILIES["rec"] = {
    "bin": "rec", "crate": "ws/drivers", "trace": "ReceiverTrace", "mc": "MCReceiver", "runs": 130, "steps": 60,
    "assumptions": SUBSTRATE + ["the XCM origin and location types are stand-ins with the same meaning; the amount vested per block is that of the integration test's receiving chain",
                                 "4 users, at most 3 schedules per account, batches of at most 6 migrations"],
}
BT, PU, FU = "batches", "purse", "full"
def RC(quick, thorough, emit, prof, ops, **kw):
    return dict(fam="rec", mc={"quick": quick, "thorough": thorough}, emit=emit, prof=prof, ops=ops,
                sim=[(P(BT, 14, 30), (60, 14, 60)), (P(PU, 14, 30), (40, 14, 60))], **kw)
PROPS.update({
    "R01": RC([P(BT, 5, 12)], [P(BT, 7, 14)], [P(BT, 5, 12)], [0, 1], ["execute"]),
    "R02": RC([P(BT, 5, 12), P(FU, 5, 12)], [P(BT, 7, 14), P(FU, 9, 14)], [P(BT, 5, 12), P(FU, 5, 12)], [0, 1], ["execute"]),
    "R03": RC([P(PU, 5, 12), P(BT, 4, 12)], [P(PU, 9, 14), P(BT, 7, 14)], [P(PU, 5, 12), P(BT, 4, 12)], [0, 1], ["execute", "vest"]),
    "R04": RC([P(PU, 5, 12), P(FU, 5, 12)], [P(PU, 9, 14), P(FU, 9, 14)], [P(PU, 5, 12), P(FU, 6, 12)], [0, 1], ["execute"], nopanic=True),
})
FAMILIES["fun"] = {
    "bin": "fun", "crate": "ws/drivers", "trace": "FundingTrace", "mc": "MCFunding", "runs": 25, "steps": 150,
    "assumptions": SUBSTRATE + ["numbers are exact: TLC evaluates the arithmetic of Big.tla with java.math.BigInteger",
                                 "contribution tokens and funding assets are kept by a minimal implementation of the fungibles traits (minimum balance 1); XCM is a stand-in that records messages and delivers answers",
                                 "6 users, 4 projects per run, at most about 150 calls and blocks per run; round durations of 10, 15, 18 and 6 blocks; USD prices of the assets within 0.05 and 300",
                                 "the issuer's destination account is one and the same; release schedules are not claimed meanwhile (see L01 for that)"],
}
RG, EV, AU, CO, SU, FA, MI = "reg", "eval", "auction", "community", "success", "failure", "migrate"
def F(mc, emit, ops, prof=(0, 1, 2), **kw):
    deep = {RG: 8, EV: 9, AU: 8, CO: 7, SU: 5, FA: 8, MI: 16}
    quick = {RG: 6, EV: 6, AU: 5, CO: 5, SU: 4, FA: 6, MI: 9}
    em = {RG: 4, EV: 5, AU: 4, CO: 4, SU: 4, FA: 5, MI: 6}
    return dict(fam="fun", mc={"quick": [P(p, quick[p], 1) for p in mc], "thorough": [P(p, deep[p], 1) for p in mc]}, emit=[P(p, em[p], 1) for p in emit],
                prof=list(prof), ops=ops, sim=[(P(p, 14, 1), (40, 14, 40)) for p in emit], **kw)
SETTLE = ["settle_ev", "settle_bid", "settle_co"]
MIGR = ["start_off", "start_pal", "confirm_off", "ch_open", "ch_acc", "ready", "resp", "send_mig", "conf_mig", "mark_mig"]
PROPS.update({
    "F01": F([RG], [RG], ["create", "edit", "remove"]),
    "F02": F([EV, FA], [EV, CO], ["start_eval", "end_eval", "end_auction", "end_funding", "start_settle", "mark_settled", "block"]),
    "F03": F([EV], [EV], ["evaluate"]),
    "F04": F([AU], [AU], ["bid"]),
    "F05": F([AU], [AU], ["end_auction"]),
    "F06": F([CO], [CO], ["contribute"]),
    "F07": F([CO, FA], [CO, EV], ["end_funding"], (0, 1, 1, 2)),
    "F08": F([SU, FA], [SU, FA], ["bid", "contribute"] + SETTLE),
    "F09": F([SU, FA], [SU, FA, EV], ["evaluate", "bid", "contribute"] + SETTLE),
    "F10": F([SU, FA], [SU, FA], SETTLE + ["mark_settled"]),
    "F11": F([SU], [SU], SETTLE + ["start_settle"], (0, 1, 1)),
    "F12": F([MI], [MI], MIGR, (0, 1, 1)),
    "F13": F([MI, AU], [RG, EV, AU, CO, FA, SU], ["create", "edit", "remove", "evaluate", "bid", "end_auction", "contribute", "end_funding"] + SETTLE + MIGR, nopanic=True),
    "B01": F([AU, SU], [AU, SU], ["bid", "contribute"]),
    "B02": F([SU, FA], [SU, FA], ["tr_bonds", "tr_fees"] + SETTLE),
})

FAMILIES["stk"] = {
    "bin": "stk", "crate": "ws/drivers", "trace": "StakingTrace", "mc": "MCStaking", "runs": 16, "steps": 120,
    "assumptions": SUBSTRATE + ["the pallets telling of blocks' authors and sessions are stand-ins: the driver names each block's author and asks the pallet's session functions after each block",
                                 "rewards are paid from the pay master account, as in the runtime; the driver's starts with a few thousand units, so that it also runs out",
                                 "the per-round rates the pallet derives from annual ones (a root of high order, in fixed point) are accepted when within the error of that arithmetic; what is paid is computed from the rates in force",
                                 "8 accounts, at most 3 counted and 3 uncounted delegations per candidate, rounds of 1 to 6 blocks, about 120 calls and blocks per run"],
}
LS, EX, RN, RW, PA = "lists", "exits", "rounds", "rewards", "params"
def ST(mc, emit, ops, prof=(0, 1, 2), **kw):
    deep, quick, em = {LS: 9, EX: 9, RN: 9, RW: 10, PA: 8}, {LS: 6, EX: 6, RN: 6, RW: 7, PA: 5}, {LS: 3, EX: 5, RN: 5, RW: 7, PA: 3}
    return dict(fam="stk", mc={"quick": [P(p, quick[p], 14) for p in mc], "thorough": [P(p, deep[p], 16) for p in mc]}, emit=[P(p, em[p], 14) for p in emit],
                prof=list(prof), ops=ops, sim=[(P(p, 20, 24), (40, 20, 40)) for p in emit], **kw)
K_ADD, K_DEL = ["join", "delegate", "c_more", "d_more"], ["revoke", "d_less", "d_exec", "d_cancel", "d_leave", "d_exec_leave", "d_cancel_leave"]
K_EXIT = ["leave", "exec_leave", "cancel_leave", "c_less", "c_exec", "c_cancel"] + K_DEL
PROPS.update({
    "K01": ST([LS, EX], [LS, EX], K_ADD + K_EXIT, (0, 1)),
    "K02": ST([LS], [LS], ["delegate", "d_more", "d_exec"], (0, 0, 1)),
    "K03": ST([LS, EX], [LS, EX], ["delegate", "set_ac", "exec_leave"] + K_DEL, (0, 1)),
    "K04": ST([EX], [EX], K_EXIT, (0, 1)),
    "K05": ST([RN], [RN], ["block", "offline", "online"], (1, 2)),
    "K06": ST([RN, PA], [RN], ["block", "set_len"], (1, 2)),
    "K07": ST([RW, RN], [RW, RN], ["block"], (2,)),
    "K08": ST([RW], [RW], ["block"], (2, 2, 0)),
    "K09": ST([LS, EX], [LS, EX], K_ADD + ["set_ac"], (0, 1)),
    "K10": ST([PA, RN], [PA, EX, RW], K_ADD + K_EXIT + ["block", "set_ac", "offline", "online", "hotfix", "set_expect", "set_inf", "set_pba", "set_pbp", "set_ts", "set_com", "set_len"], nopanic=True),
})

FAMILIES["ocw"] = {
    "bin": "ocw", "crate": "ws/drivers", "trace": "OracleTrace", "mc": "MCOracle", "runs": 60, "steps": 60,
    "assumptions": ["the node around the worker (clock, database, keystore, transaction pool, HTTP) is the driver's; requests take no time unless they are late or slow",
                    "heapless, serde-json-core (over serde_json), substrate-fixed's conversions and the oracle's call are stand-ins with the documented behaviour",
                    "4 keys, figures below 10^12; interval at least twice the window, as in the runtime"],
}
WI, KE, AN = "windows", "keys", "answers"
def O(quick, thorough, emit, prof, **kw):
    return dict(fam="ocw", mc={"quick": quick, "thorough": thorough}, emit=emit, prof=prof, ops=["run"],
                sim=[(P(WI, 14, 30), (40, 14, 60))], **kw)
PROPS.update({
    "O01": O([P(WI, 5, 14)], [P(WI, 8, 20)], [P(WI, 4, 14)], [0, 1, 2]),
    "O02": O([P(AN, 2, 14)], [P(AN, 5, 20), P(WI, 6, 14)], [P(AN, 2, 14)], [0, 0, 1]),
    "O03": O([P(AN, 2, 14), P(WI, 4, 14)], [P(AN, 5, 20), P(WI, 6, 14)], [P(AN, 2, 14), P(WI, 4, 14)], [1, 1, 0], nopanic=True),
    "O04": O([P(KE, 4, 14)], [P(KE, 9, 20), P(WI, 6, 14)], [P(KE, 3, 14)], [2, 2, 0]),
})
