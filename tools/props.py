#!/usr/bin/env python3
"""Source of properties.jsonl (run it after editing: python3 tools/props.py)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": hook},
    })


prop("P01", "Message protection is complete and tamper-evident",
     "A PKIMessage protected with any supported mechanism (password-based MAC, traditional, post-quantum or hybrid signature, key-agreement or KEM based MAC) verifies under the matching credential. "
     "After any change to its header, body, algorithm identifier or parameters, or protection value, or under any other credential, verification fails.",
     ["inputs", "configurations"],
     "All protection algorithms and parameters the suite can produce, all message bodies, all single-field and single-bit modifications, all wrong credentials.",
     "Unit tests protect a handful of messages and flip a fixed part of the protection value; the claim quantifies over every field and every bit of every message.",
     ["resources/protectionutils.py", "resources/cryptoutils.py", "pq_logic/pq_verify_logic.py"],
     [("protect_pkimessage / verify_pkimessage_protection", "resources/protectionutils.py"),
      ("KEM and DH based MAC", "resources/protectionutils.py"),
      ("verify_hybrid_pkimessage_protection", "pq_logic/pq_verify_logic.py")],
     observe=["return or exception of the protection verifiers"])

prop("P02", "The CA issues only for authenticated requests with valid proof of possession",
     "At its issuing endpoint the mock CA issues a certificate only in reply to a request whose message protection verifies under a credential it accepts and whose proof of possession is valid for exactly the public key requested. "
     "Every other request is answered with an error or a rejection, and no certificate enters the CA's records.",
     ["inputs", "histories", "configurations"],
     "All enrolment request types (initial, certification, PKCS#10, key update, cross-certification), key types and protection mechanisms, with every single defect of protection, credential or proof of possession.",
     "Tests send a few fixed bad requests per type; nothing checks the state of the CA after each rejected request, nor defects in combination with each request type.",
     ["mock_ca/ca_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/prot_handler.py", "resources/ca_ra_utils.py"],
     [("ProtectionHandler.validate_protection", "mock_ca/prot_handler.py"),
      ("verify_popo_for_cert_request", "resources/ca_ra_utils.py"),
      ("CertReqHandler", "mock_ca/cert_req_handler.py")],
     state=[("issued certificates", "every certificate the CA has issued and its state", "mock_ca/mock_fun.py CertificateDB")],
     observe=["process_normal_request", "issued certificates before and after"])

prop("P03", "An issued certificate is exactly what was requested, under the CA's key",
     "Each certificate the CA returns carries exactly the public key, subject and permitted extensions of the matching request entry, names the CA as issuer, verifies under the CA's key, has the validity period asked for (or one of the CA's choice) and is not expired, and has a serial number no other issued certificate has. "
     "A granted request with several entries gets exactly one response entry per entry, in order, with the same request identifiers.",
     ["inputs", "histories"],
     "All key types, subjects, extension sets and numbers of entries per request.",
     "Tests look at single certificates of fixed requests; uniqueness and per-entry correspondence are statements over histories and batches.",
     ["resources/certbuildutils.py", "resources/ca_ra_utils.py", "mock_ca/cert_req_handler.py"],
     [("build_cert_from_cert_template", "resources/certbuildutils.py"),
      ("build_ip_cmp_message / build_cp_cmp_message / build_kup_from_kur / build_ccp_from_ccr", "resources/ca_ra_utils.py")],
     observe=["certificates in the CA's responses"])

prop("P04", "Every CA response is bound to the request it answers",
     "Every message the CA sends in reply to a parseable request echoes the request's transaction identifier, carries the request's sender nonce as recipient nonce and a fresh sender nonce of at least 128 bits never used before, and has a body type that answers the request's body type. "
     "Every non-error reply is protected with the same kind of mechanism as the request and verifies under the CA's certificate or the shared secret.",
     ["inputs", "histories"],
     "All request types, protection mechanisms and outcomes, over long histories of one CA.",
     "Tests check the header of a few accepted replies; error paths and freshness across a history are not sampled.",
     ["mock_ca/ca_handler.py", "mock_ca/prot_handler.py", "resources/ca_ra_utils.py", "resources/cmputils.py"],
     [("set_ca_header_fields", "resources/ca_ra_utils.py"), ("CAHandler.sign_response", "mock_ca/ca_handler.py"),
      ("ProtectionHandler.protect_pkimessage", "mock_ca/prot_handler.py")],
     observe=["every response of process_normal_request"])

prop("P05", "Certificates follow the lifecycle; only valid ones are usable",
     "Over any history of enrolment, confirmation, update, revocation and reinstatement the CA's record of each certificate follows the lifecycle: unconfirmed, confirmed, then updated or revoked, where only a revoked certificate can be reinstated and a superseded one never comes back. "
     "A certificate that is unconfirmed, superseded or revoked authenticates no request other than those the protocol allows for it, and a rejected operation changes no certificate's state.",
     ["histories"],
     "All sequences of enrolment, (implicit) confirmation, rejection, key update, revocation and reinstatement requests over several certificates.",
     "Tests walk a few fixed three-step flows; the state machine has to hold on every history.",
     ["mock_ca/mock_fun.py", "mock_ca/ca_handler.py", "mock_ca/rev_handler.py", "mock_ca/cert_conf_handler.py"],
     [("CertificateDB.change_cert_state", "mock_ca/mock_fun.py"), ("RevocationHandler.process_revocation_request", "mock_ca/rev_handler.py"),
      ("CAHandler certificate state checks", "mock_ca/ca_handler.py")],
     state=[("certificate state", "lifecycle state per certificate", "mock_ca/mock_fun.py CertificateDB")],
     observe=["responses", "recorded certificate states"])

prop("P06", "A certificate confirmation is bound to its transaction and counts once",
     "A certificate confirmation is accepted only if it continues a transaction the CA has open: same transaction identifier, the CA's last sender nonce as recipient nonce, a fresh sender nonce, protection by the same mechanism and credential as the request, and the correct certificate hash for each certificate issued in it. "
     "It takes effect exactly once, confirms exactly the certificates it accepts, and any other confirmation is refused without changing a certificate's state.",
     ["histories", "inputs"],
     "All interleavings of several open transactions, all single deviations of the confirmation, all repetitions.",
     "Tests confirm one transaction at a time with one or two deviations; interleaved and repeated confirmations are not sampled.",
     ["mock_ca/cert_conf_handler.py", "resources/ca_ra_utils.py", "mock_ca/db_config_vars.py"],
     [("CertConfHandler.process_cert_conf", "mock_ca/cert_conf_handler.py"), ("build_pki_conf_from_cert_conf", "resources/ca_ra_utils.py")],
     state=[("open transactions", "request and response a confirmation has to match", "mock_ca/cert_conf_handler.py")],
     observe=["responses", "recorded certificate states"])

prop("P07", "Published revocation status agrees with what was granted",
     "At every point of any history the CRL the CA publishes lists exactly the certificates that are revoked and not reinstated, or superseded by a key update, and its OCSP answer is revoked for exactly those, good for the other confirmed ones, and neither good nor revoked for unconfirmed certificates and certificates it did not issue. "
     "Each CRL and OCSP response is signed by the CA, and CRL numbers never repeat or go backwards.",
     ["histories"],
     "All histories of issuing, updating, revoking and reinstating, observed after every step.",
     "Tests query one status after one revocation; agreement is a statement about every point of every history.",
     ["mock_ca/ca_handler.py", "mock_ca/mock_fun.py", "resources/certutils.py", "resources/certbuildutils.py"],
     [("CAHandler.get_current_crl", "mock_ca/ca_handler.py"), ("CAHandler.get_ocsp_response", "mock_ca/ca_handler.py"),
      ("CertificateDB.check_ocsp", "mock_ca/mock_fun.py")],
     observe=["CRL and OCSP bytes"])

prop("P08", "Revocation is granted only to the authorised and only for what they named",
     "A revocation or reinstatement is granted only when the request is signed by the named certificate's own key while that is usable, or by a trusted registration authority, and identifies a certificate this CA issued in a state that admits the change. "
     "Exactly the named certificates change state; every other request is refused and changes nothing.",
     ["inputs", "histories"],
     "All requesters (owner, other holder, registration authority, outsider), targets, reasons and defects.",
     "Tests revoke own certificates; who else could revoke what is not sampled.",
     ["mock_ca/rev_handler.py", "resources/ca_ra_utils.py"],
     [("RevocationHandler.process_revocation_request", "mock_ca/rev_handler.py"), ("build_rp_from_rr / validate_rev_details", "resources/ca_ra_utils.py")],
     observe=["responses", "recorded certificate states"])

prop("P09", "No stateful hash-based signature index is ever accepted or produced twice",
     "A stateful hash-based signing key never signs twice with the same one-time index, refuses to sign when its indices are exhausted, and keeps its position across saving and loading. "
     "The CA never accepts two messages whose protection or proof of possession uses the same one-time index of the same key.",
     ["histories"],
     "All interleavings of signing, saving, loading, copying and sending with stateful keys.",
     "Tests sign a few times in a row; reuse is a statement about whole histories including reloads and replays.",
     ["pq_logic/keys/stateful_sig_keys.py", "mock_ca/operation_dbs.py", "mock_ca/stfl_validator.py"],
     [("HSSPrivateKey", "pq_logic/keys/stateful_sig_keys.py"), ("StatefulSigState", "mock_ca/operation_dbs.py"),
      ("STFLPKIMessageValidator", "mock_ca/stfl_validator.py")],
     observe=["indices in the signatures", "CA responses"])

prop("P10", "KEM shared secrets serve one transaction; challenges are answered once",
     "A shared secret established for KEM-based protection protects messages of the transaction it was established for and is not usable for any other transaction. "
     "A proof-of-possession challenge yields a certificate only for the transaction and key it was issued for, only for the correct decrypted value, and at most once.",
     ["histories", "inputs"],
     "All interleavings of several KEM and challenge transactions, wrong answers, replays and crossed answers.",
     "Tests run one transaction at a time.",
     ["mock_ca/mock_fun.py", "mock_ca/challenge_handler.py", "mock_ca/prot_handler.py", "resources/ca_ra_utils.py"],
     [("KEMSharedSecretList", "mock_ca/mock_fun.py"), ("ChallengeHandler", "mock_ca/challenge_handler.py")],
     observe=["responses"])

prop("P11", "Nested and batched messages are unwrapped faithfully",
     "For a nested message the CA grants nothing unless the added outer protection verifies under a trusted registration authority and identifiers and nonces agree as the profile demands. "
     "A batch is either refused as a whole without any effect (for example when one inner message is not authentic) or gets exactly one inner reply per inner request, in order, each bound to its own inner request, "
     "and each inner request is granted or refused as if it had been sent alone (inner messages without protection of their own are accepted on the registration authority's word, as configured).",
     ["inputs", "histories"],
     "All compositions of valid and defective inner requests, with valid and defective outer messages.",
     "Tests send one or two batches with all-valid content.",
     ["mock_ca/nested_handler.py", "resources/checkutils.py", "resources/cmputils.py"],
     [("NestedHandler", "mock_ca/nested_handler.py"), ("validate_nested_message_unique_nonces_and_ids", "resources/checkutils.py")],
     observe=["nested replies", "recorded certificate states"])

prop("P12", "The CA answers any bytes with a well-formed message and unharmed state",
     "Whatever bytes are posted to the CA's issuing and OCSP endpoints, the answer is a well-formed response of the endpoint's kind (a decodable PKIMessage or OCSP response), the service stays able to serve valid requests, and input that is not a valid authenticated request changes no recorded state.",
     ["inputs", "histories"],
     "Arbitrary bytes, truncated, bit-flipped, spliced and structurally mutated valid messages, to all endpoints.",
     "Unit tests do not drive the HTTP interface with malformed input at all.",
     ["mock_ca/ca_handler.py", "resources/cmputils.py", "resources/asn1utils.py"],
     [("HTTP routes", "mock_ca/ca_handler.py"), ("CAHandler.process_normal_request error mapping", "mock_ca/ca_handler.py")],
     observe=["HTTP status and body", "CA state"])

prop("P13", "Conformance validators accept the conformant and reject each deviation",
     "The checks a test author applies to a CMP message (header fields, nonces and identifiers, sender and key identifiers, extraCerts order, protection algorithm, status, bodies and confirmations) accept every conformant message. "
     "Each rejects every message with a deviation from the rule it is documented to enforce.",
     ["inputs"],
     "All conformant exchanges of all body types and protections, and every single deviation of a checked field.",
     "Tests call each validator with one good and one bad message.",
     ["resources/checkutils.py", "resources/cmputils.py"],
     [("validate_pkimessage_header and friends", "resources/checkutils.py"), ("verify_pkistatusinfo", "resources/cmputils.py")],
     observe=["return or exception of the validators"])

prop("P14", "Standardised post-quantum primitives are correct and reject tampering",
     "For every parameter set of ML-KEM, ML-DSA, SLH-DSA and FrodoKEM, key generation from a seed is deterministic, signatures and shared secrets made with a key are accepted by the matching key, and sizes are those of the standard. "
     "A signature fails to verify after any change to message, context, signature or key, and decapsulating a changed ciphertext or with another key yields an unrelated secret without an error that depends on the secret key.",
     ["inputs", "configurations"],
     "All parameter sets, seeds, messages, contexts, pre-hash modes, and all bit flips.",
     "Tests use a few vectors and messages per parameter set.",
     ["pq_logic/fips/fips203.py", "pq_logic/fips/fips204.py", "pq_logic/fips/fips205.py", "pq_logic/keys/kem_keys.py", "pq_logic/keys/sig_keys.py"],
     [("ML-KEM", "pq_logic/fips/fips203.py"), ("ML-DSA", "pq_logic/fips/fips204.py"), ("SLH-DSA", "pq_logic/fips/fips205.py"), ("FrodoKEM", "pq_logic/keys/kem_keys.py")],
     observe=["outputs of the key classes"])

prop("P15", "A composite signature needs both component signatures",
     "For every supported composite signature combination and context, a signature made with the private key verifies under the matching public key. "
     "It fails to verify if either component is missing, altered or made by another key or over another message, context or combination, so that neither component alone suffices.",
     ["inputs", "configurations"],
     "All combinations of component algorithms, pre-hash and context options, all component substitutions and bit flips.",
     "Tests sign and verify one message per combination and rarely attack a single component.",
     ["pq_logic/keys/composite_sig.py", "pq_logic/keys/composite_sig_prehash.py", "pq_logic/keys/abstract_wrapper_keys.py"],
     [("CompositeSigPrivateKey.sign / CompositeSigPublicKey.verify", "pq_logic/keys/composite_sig.py")],
     observe=["sign and verify outcomes"])

prop("P16", "Hybrid KEMs agree and bind both components",
     "For every hybrid KEM combination (composite, X-Wing, Chempat, DHKEM) decapsulation with the matching key recovers the encapsulated secret of the specified length. "
     "Changing either component of the ciphertext, or using a key that differs in either component, never yields the same secret.",
     ["inputs", "configurations"],
     "All combinations, keys and ciphertext manipulations.",
     "Tests run one encapsulation per combination.",
     ["pq_logic/keys/composite_kem.py", "pq_logic/keys/xwing.py", "pq_logic/keys/chempat_key.py", "pq_logic/keys/trad_kem_keys.py"],
     [("encaps / decaps", "pq_logic/keys/abstract_wrapper_keys.py")],
     observe=["shared secrets"])

prop("P17", "Keys survive every serialisation unchanged, and inconsistent ones are refused",
     "Every supported key of every algorithm, written in any supported form (seed, expanded, both; PKCS#8 or SubjectPublicKeyInfo; DER or PEM; encrypted or not), loads back as the same key. "
     "Encoded keys with trailing or missing bytes, mismatching parts, wrong algorithm identifiers or a wrong password are refused with a defined error.",
     ["inputs", "configurations"],
     "All algorithms and encodings, and all single defects of the encoding.",
     "Tests save and load a few algorithms in a few forms.",
     ["pq_logic/combined_factory.py", "resources/keyutils.py", "pq_logic/keys/key_pyasn1_utils.py"],
     [("CombinedKeyFactory", "pq_logic/combined_factory.py"), ("save_key / load_private_key_from_file / load_public_key_from_spki", "resources/keyutils.py")],
     observe=["loaded keys"])

prop("P18", "Enveloped data opens only for its recipient, unchanged",
     "Content put into an envelope for a recipient by key transport, key agreement, KEM or password comes out identical for that recipient. "
     "With any other key or password, or after any change to the encrypted content, the wrapped key or its parameters, the original content is never returned as if valid by the integrity-protected layers, and signed content with an invalid signature or untrusted signer is refused.",
     ["inputs", "configurations"],
     "All recipient types and algorithms, content sizes and single modifications.",
     "Tests open one envelope per recipient type.",
     ["resources/envdatautils.py", "resources/ca_kga_logic.py"],
     [("build_env_data_for_exchange and recipient infos", "resources/envdatautils.py"), ("validate_enveloped_data", "resources/ca_kga_logic.py")],
     observe=["decrypted content"])

prop("P19", "Centrally generated keys arrive intact and match their certificate",
     "When a client asks for a centrally generated key, the private key it recovers from the reply corresponds to the public key of the certificate in the same reply and to the requested algorithm. "
     "Only the intended recipient can recover it, and the client-side validation refuses a reply whose key, signature or key-generation authority certificate is not valid.",
     ["inputs", "configurations"],
     "All key types and recipient mechanisms, and all single defects of the reply.",
     "Tests use one or two key types per mechanism.",
     ["resources/ca_kga_logic.py", "resources/ca_ra_utils.py"],
     [("prepare_cert_and_private_key_for_kga", "resources/ca_ra_utils.py"), ("validate_enveloped_data", "resources/ca_kga_logic.py"),
      ("validate_asymmetric_key_package", "resources/ca_kga_logic.py")],
     observe=["recovered keys"])

prop("P20", "Chains are built and accepted exactly when they are valid",
     "From any pool of certificates in any order, chain building returns an ordered chain in which each certificate is issued and signed by the next. "
     "Chain validation accepts exactly those chains that are complete, correctly signed, in validity, permitted by constraints and end in a trusted anchor.",
     ["inputs"],
     "All topologies, orderings and single defects (signature, issuer, validity, CA flag, path length, key usage, anchor).",
     "Tests use the fixed certificates in the data directory.",
     ["resources/certutils.py", "resources/checkutils.py"],
     [("build_cert_chain_from_dir / build_cmp_chain_from_pkimessage / build_chain_from_list", "resources/certutils.py"),
      ("verify_cert_chain_openssl / certificates_are_trusted", "resources/certutils.py")],
     observe=["chains and verdicts"])

prop("P21", "Certificates, requests and extensions carry what the caller asked for",
     "Every certificate, CSR, certificate template, certificate request or CRL the builders produce carries exactly the names, keys, serial numbers, validity and extensions the caller gave, verifies under the signing key for every supported signature algorithm, and decodes to the same structure. "
     "Requested omissions are omitted and nothing else is, and requested corruptions make verification fail.",
     ["inputs", "configurations"],
     "All key types, signature algorithms, names, extension values and options.",
     "Tests build one object per option.",
     ["resources/certbuildutils.py", "resources/certextractutils.py", "resources/certutils.py"],
     [("build_certificate / build_csr / prepare_cert_template", "resources/certbuildutils.py"), ("verify_cert_signature / verify_csr_signature", "resources/certutils.py")],
     observe=["decoded structures"])

prop("P22", "Hybrid certificates bind both keys and reconstruct exactly",
     "For each hybrid certificate method (catalyst, chameleon, Sun hybrid, related certificates, certificate discovery) a certificate or request made by the suite verifies, and the second key, signature or certificate it stands for is recovered exactly. "
     "A change to either public key, either signature, or the covered content makes the hybrid verification fail.",
     ["inputs", "configurations"],
     "All methods, key combinations and single modifications.",
     "Tests build one certificate per method and check few modifications.",
     ["pq_logic/hybrid_sig/catalyst_logic.py", "pq_logic/hybrid_sig/chameleon_logic.py", "pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py", "pq_logic/hybrid_sig/cert_binding_for_multi_auth.py"],
     [("catalyst", "pq_logic/hybrid_sig/catalyst_logic.py"), ("delta certificate", "pq_logic/hybrid_sig/chameleon_logic.py"),
      ("Sun hybrid", "pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py"), ("related certificates", "pq_logic/hybrid_sig/cert_binding_for_multi_auth.py")],
     observe=["verification outcomes", "reconstructed certificates"])

prop("P23", "Message builders and patchers change exactly what was asked",
     "Every message builder sets each header and body field to the value the caller gave, leaves out exactly the fields the caller excluded, and generates fresh random identifiers and nonces otherwise. "
     "Every patching helper changes exactly the named field to exactly the given value and leaves every other byte of the message alone.",
     ["inputs"],
     "All builders, field subsets and values; all patchers on all messages.",
     "Tests set or exclude one field at a time.",
     ["resources/cmputils.py"],
     [("prepare_pki_message and builders", "resources/cmputils.py"), ("patch_* helpers", "resources/cmputils.py")],
     observe=["decoded messages"])

prop("P24", "Negative-test generators always yield invalid values, and only that is invalid",
     "Whenever a test author asks for a broken protection, signature, proof of possession, key identifier, nonce, hash or other deliberately wrong value, the result is really different from the valid one and is refused by the corresponding verification, for every input and random choice. "
     "Apart from the requested defect the message stays well-formed.",
     ["inputs"],
     "All generators of bad values, all key types and inputs, all random draws.",
     "Tests draw once; a generator that returns a valid value once in 256 draws makes negative tests flaky or vacuous.",
     ["resources/utils.py", "resources/cmputils.py", "resources/protectionutils.py"],
     [("manipulate_* helpers", "resources/utils.py"), ("bad_* options of the builders", "resources/cmputils.py")],
     observe=["verification of the corrupted result"])

prop("P25", "Names, structures and signatures compare as equal exactly when they are",
     "Distinguished names given as text become names that print back as the same text, and comparison of names, certificates, templates, keys and other structures is reflexive and symmetric, true for re-encoded copies and false after any change of a compared field. "
     "Public keys and certificates are found in collections exactly when they are there.",
     ["inputs"],
     "All names, attribute types and structures, all single changes.",
     "Tests compare a few fixed pairs.",
     ["resources/compareutils.py", "resources/prepareutils.py", "resources/certutils.py", "resources/convertutils.py"],
     [("compare_* functions", "resources/compareutils.py"), ("prepare_name / parse_common_name_from_str", "resources/prepareutils.py")],
     observe=["comparison verdicts"])

prop("P26", "General messages are answered per type, completely and truthfully",
     "A general message is answered with one response value for each supported request value, in order and of the type defined for it, whose content is the CA's current truth (certificates, algorithms, CRL, templates). "
     "An unsupported or malformed general message, or one whose protection does not verify, is refused with an error and changes nothing.",
     ["inputs", "histories"],
     "All information types, combinations and orders, protections and malformed values.",
     "Tests send each type once.",
     ["mock_ca/general_msg_handler.py", "resources/general_msg_utils.py"],
     [("GeneralMessageHandler", "mock_ca/general_msg_handler.py")],
     observe=["responses"])

prop("P27", "A key in use or compromised is never certified again",
     "Over any history the CA issues no second certificate for a subject and a public key, alone or as a component, it has already certified for that subject, whatever has become of the first certificate. "
     "A key whose certificate was revoked for key compromise, alone or as a component of a composite key, is certified for nobody, by no kind of request, until that certificate is reinstated.",
     ["histories"],
     "All histories of enrolment, update, revocation and reinstatement, all request kinds, plain and composite keys that share a component.",
     "Tests ask once for one key that is in use; the claim is about every earlier event of every history.",
     ["mock_ca/ca_handler.py", "mock_ca/cert_req_handler.py", "mock_ca/mock_fun.py"],
     [("CAHandler._check_for_compromised_key", "mock_ca/ca_handler.py"),
      ("CertReqHandler.check_same_key_cert_request", "mock_ca/cert_req_handler.py"),
      ("KeySecurityChecker", "mock_ca/mock_fun.py")],
     observe=["responses", "recorded certificates"])


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        if not p["anchors"]["state"]:
            del p["anchors"]["state"]
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
