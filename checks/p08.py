"""P08: revocation and reinstatement, by whom and for what, in generated histories."""

from vlib.core import Job

RULE = ("case = (kind of revocation message, outcome, set of certificate states present); valid ones by owner and trusted "
        "RA and 21 kinds of hostile ones; the CA's record is compared with a reference model after each")
REQUIRED = {"histories": 6, "revoked": 25, "revived": 15, "bad_revocations_refused": 150, "bad_rr_other-owner": 4,
            "bad_rr_outsider": 4, "bad_rr_twin": 4, "bad_rr_revive-other": 3, "bad_rr_serial": 4, "bad_rr_issuer": 4,
            "bad_rr_revoked-again": 4, "bad_rr_other-key": 4, "bad_rr_ra-twin": 4, "bad_rr_superseded": 2,
            "bad_rr_tampered": 4, "bad_rr_two-entries": 3}
ASSUMPTIONS = ["messages are handled one at a time", "signature-protected revocation requests (KEM-based ones: P10)",
               "replays of earlier revocation requests are not sent (the profile gives the CA nothing to detect them by)"]


def history(rec, steps, budget):
    from vlib.world import World
    World(rec, {"P08"}, weights={"status": 0, "enroll": 4, "confirm": 2, "conf_hostile": 0.3, "conf_replay": 0.2,
                                 "kur": 1.5, "kur_hostile": 0.3, "rr_hostile": 12, "revoke": 4, "revive": 3,
                                 "request_hostile": 0.3, "same_key": 0.1, "compromised_key": 0.1,
                                 "timeout": 0.2}).run(steps, budget)


def jobs(tier, seed):
    n, steps, budget = (8, 220, 20) if tier == "quick" else (40, 900, 110)
    return [Job(f"history-{i}", history, timeout=400, steps=steps, budget=budget) for i in range(n)]
