"""P06: certificate confirmations, in generated histories with a reference model."""

from vlib.core import Job

RULE = ("case = (kind of confirmation sent, outcome, set of certificate states present); valid, rejecting, replayed, late "
        "and 20 kinds of wrong confirmations for MAC- and signature-protected transactions of real histories; the CA's "
        "record is compared with a reference model after each")
REQUIRED = {"histories": 6, "confirmed": 30, "bad_confirmations_refused": 120, "replayed_confirmations_refused": 20,
            "client_rejections": 3, "acceptances_after_rejection": 1, "bad_conf_hash": 3, "bad_conf_txid": 3, "bad_conf_recipNonce": 3,
            "bad_conf_wrong-password": 2, "bad_conf_other-signer": 1, "bad_conf_mech-switch": 2,
            "bad_conf_senderNonce-reused": 2, "bad_conf_txid-other": 2, "bad_conf_hash-other": 2}
ASSUMPTIONS = ["messages are handled one at a time",
               "one certificate per transaction (the lightweight profile the CA enforces for confirmations)"]


def history(rec, steps, budget):
    from vlib.world import World
    World(rec, {"P06"}, weights={"status": 0, "enroll": 7, "confirm": 4, "conf_hostile": 9, "conf_replay": 2.5,
                                 "conf_reject": 2.5, "rr_hostile": 0.5, "request_hostile": 0.3, "cr_signed": 4,
                                 "kur": 3, "timeout": 0.4}).run(steps, budget)


def jobs(tier, seed):
    n, steps, budget = (8, 220, 20) if tier == "quick" else (40, 900, 110)
    return [Job(f"history-{i}", history, timeout=400, steps=steps, budget=budget) for i in range(n)]
