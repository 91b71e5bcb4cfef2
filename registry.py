"""The checks: how each property's driver is built and run."""


# scale: of both tiers, quick: of the quick one
def R(mode="asan", **k):
    return dict(mode=mode, **k)


RULE = ("Cases are drawn from a tape of bounded integers seeded with VERIF_SEED; a case is non-trivial if its section's rule says so, distinct if its tape is.")

CHECKS = {
    "C01": dict(runs=[R(quick=2)], rule=RULE),
    "C02": dict(runs=[R(quick=8)], rule=RULE),
    "C03": dict(runs=[R(quick=8)], rule=RULE),
    "C04": dict(runs=[R()], rule=RULE),
    "C05": dict(runs=[R(quick=2)], rule=RULE),
    "C06": dict(runs=[R(quick=3)], rule=RULE),
    "C07": dict(runs=[R(quick=3)], rule=RULE),
    "C08": dict(runs=[R(quick=6)], rule=RULE),
    "C09": dict(runs=[R(quick=2)], rule=RULE),
    "C10": dict(runs=[R(quick=1.5)], rule=RULE),
    "C11": dict(runs=[R(), R("plain", only="endless")], rule=RULE),
    "C12": dict(runs=[R(quick=2)], rule=RULE),
    "C13": dict(runs=[R(quick=4)], rule=RULE),
    "C14": dict(runs=[R(quick=8)], rule=RULE),
    "C15": dict(runs=[R(quick=6)], rule=RULE),
    "C16": dict(runs=[R(quick=3)], rule=RULE),
    "C17": dict(runs=[R(quick=16)], rule=RULE),
    "C18": dict(runs=[R(quick=6)], rule=RULE),
    "C19": dict(runs=[R(), R("tsan", scale=0.5)], rule=RULE, confirm=300,
                assumptions=["Schedules come from random delays in the producer, the consumer and the controller on real threads; they are not enumerated."]),
    "C20": dict(runs=[R(quick=2)], rule=RULE),
    "C21": dict(runs=[R(quick=3)], rule=RULE),
    "C22": dict(runs=[R(quick=2)], rule=RULE),
    "C23": dict(runs=[R(quick=4)], rule=RULE),
    "C24": dict(runs=[R(quick=2)], rule=RULE),
    "C25": dict(runs=[R(quick=20)], rule=RULE),
    "C26": dict(runs=[R(quick=1.5)], rule=RULE),
    "C27": dict(runs=[R(quick=3)], rule=RULE),
    "C28": dict(runs=[R(quick=2)], rule=RULE),
    "C29": dict(runs=[R(quick=8)], rule=RULE),
    "C30": dict(runs=[R(quick=10)], rule=RULE),
    "C31": dict(runs=[R(quick=8)], rule=RULE),
    "C32": dict(runs=[R(quick=4)], rule=RULE,
                assumptions=["The sound library is a stand-in that follows its documented rules; no sound hardware is involved."]),
}
