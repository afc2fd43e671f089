"""P07: CRL and OCSP against the reference model, at every point of generated histories."""

from vlib.core import Job

RULE = ("case = (CRL content | OCSP answer, state of the certificate asked for, states present, hash algorithm, nonce); "
        "the published bytes are read with the cryptography library and compared with a reference model of what was granted")
REQUIRED = {"histories": 6, "crl_checks": 150, "ocsp_checks": 500, "crl_entries_agreed": 300, "ocsp_signatures": 200,
            "ocsp CONFIRMED=GOOD": 40, "ocsp REVOKED=REVOKED": 20, "ocsp UPDATED=REVOKED": 10, "ocsp REVIVED=GOOD": 10,
            "revoked": 20, "revived": 10}
ASSUMPTIONS = ["messages are handled one at a time",
               "OCSP requests name one certificate and this CA as its issuer (SHA-1 or SHA-256 CertID)"]


def history(rec, steps, budget, ca_alg=None):
    from vlib.world import World
    w = World(rec, {"P07"}, weights={"enroll": 3, "confirm": 2, "conf_hostile": 0.5, "conf_replay": 0.3, "kur": 2.5,
                                     "rr_hostile": 2, "revoke": 3, "revive": 2.2, "request_hostile": 0.3,
                                     "status": 9}, ca_alg=ca_alg)
    w.run(steps, budget)


def jobs(tier, seed):
    n, steps, budget = (8, 150, 20) if tier == "quick" else (40, 700, 110)
    algs = [None, None, "ec", "rsa"]
    return [Job(f"history-{i}", history, timeout=400, steps=steps, budget=budget, ca_alg=algs[i % 4]) for i in range(n)]
