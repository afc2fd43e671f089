"""P05: the lifecycle of every certificate, over generated histories with a reference model."""

from vlib.core import Job

RULE = ("case = (action of a generated history, outcome, set of certificate states present); every action sends a real "
        "message to a CA whose complete certificate record is compared with a reference model before and after")
REQUIRED = {"histories": 6, "exchanges": 400, "unusable_signer_refused": 15, "confirmed": 15, "revoked": 15,
            "revived": 8, "hostile_kur_refused": 15, "state_table": 60,
            "transition NOT_CONFIRMED->CONFIRMED": 10, "transition CONFIRMED->REVOKED": 10,
            "transition REVOKED->REVIVED": 5, "transition UPDATED_BUT_NOT_CONFIRMED->UPDATED": 2}
ASSUMPTIONS = ["messages are handled one at a time", "enrolment keys are EC and Ed25519; protection is password-based "
               "MAC or signature"]


def history(rec, steps, budget):
    from vlib.world import World
    World(rec, {"P05"}, weights={"status": 0.2, "state_table": 0.35}).run(steps, budget)


def jobs(tier, seed):
    n, steps, budget = (8, 170, 20) if tier == "quick" else (40, 900, 110)
    return [Job(f"history-{i}", history, timeout=400, steps=steps, budget=budget) for i in range(n)]
