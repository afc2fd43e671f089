From 344bdc6f1b2d8dfac69b2badaff688c8b1d3548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:40 +0000
Subject: [PATCH 001/101] fix: ML-DSA verification refuses signatures and
 public keys of wrong length

---
 pq_logic/fips/fips204.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pq_logic/fips/fips204.py b/pq_logic/fips/fips204.py
index e3776f0..44334d1 100644
--- a/pq_logic/fips/fips204.py
+++ b/pq_logic/fips/fips204.py
@@ -614,6 +614,11 @@ class ML_DSA:
         if param is not None:
             self.__init__(param)
 
+        pk_len = 32 + 32 * self.k * (int(self.q - 1).bit_length() - self.d)
+        sig_len = self.lam // 4 + 32 * self.ell * (1 + int(self.gam1 - 1).bit_length()) + self.omega + self.k
+        if len(pk) != pk_len or len(sig) != sig_len:
+            return False
+
         (rho, t1) = self.pk_decode(pk)
         (ct, z, h) = self.sig_decode(sig)
         # print('# rho:', rho.hex())
-- 
2.43.0


From 620e707c74dc6d6d4c6f3287eb191849000cbf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:40 +0000
Subject: [PATCH 002/101] fix: decode PBKDF2 parameters of a KEM-based MAC as
 PBKDF2-params

---
 resources/protectionutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 0bb0387..b011a27 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2091,7 +2091,7 @@ def compute_kdf_from_alg_id(kdf_alg_id: rfc9480.AlgorithmIdentifier, ss: bytes,
 
     if kdf_alg_id["algorithm"] == rfc9481.id_PBKDF2:
         if not isinstance(kdf_alg_id["parameters"], rfc8018.PBKDF2_params):
-            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc9480.AlgorithmIdentifier())[0]
+            pbkdf2_params = decoder.decode(kdf_alg_id["parameters"], asn1Spec=rfc8018.PBKDF2_params())[0]
         else:
             pbkdf2_params = kdf_alg_id["parameters"]
 
-- 
2.43.0


From 4a364df736c5c4b59018a029ca7cb8516f355a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:23 +0000
Subject: [PATCH 003/101] fix: sign with the hash and salt length an RSASSA-PSS
 algorithm identifier names

---
 resources/protectionutils.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index b011a27..80d2011 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -685,24 +685,26 @@ def sign_rsa_pss_data_with_alg_id(
     :param private_key: The RSA private key used for signing.
     :param data: The data to be signed.
     :param alg_id: The AlgorithmIdentifier specifying the RSASSA-PSS algorithm.
-    :param hash_alg: The hash algorithm to use for the signature. Defaults to "sha256".
+    :param hash_alg: The hash algorithm to use, if the `parameters` do not name one. Defaults to "sha256".
     :return: The signature as a byte string.
     """
-    if not alg_id["parameters"].isValue:
-        salt_length = None
+    params = None
+    if alg_id["algorithm"] != rfc9481.id_RSASSA_PSS or not alg_id["parameters"].isValue:
+        pass
     elif isinstance(alg_id["parameters"], rfc8017.RSASSA_PSS_params):
-        salt_length = int(alg_id["parameters"]["saltLength"])
+        params = alg_id["parameters"]
     elif isinstance(alg_id["parameters"], univ.Any):
         # TODO fix with unsafe param, for better negative testing in general.
         params, _ = try_decode_pyasn1(  # type: ignore
             alg_id["parameters"].asOctets(),
             rfc8017.RSASSA_PSS_params(),
         )
-        params: rfc8017.RSASSA_PSS_params
-        salt_length = int(params["saltLength"])
 
-    else:
-        salt_length = None
+    salt_length = None
+    if params is not None:
+        # The OID does not imply the hash algorithm, the parameters do.
+        salt_length = int(params["saltLength"])
+        hash_alg = get_hash_from_oid(params["hashAlgorithm"]["algorithm"])
 
     return cryptoutils.sign_data_rsa_pss(
         data=data, private_key=private_key, hash_alg=hash_alg or "sha256", salt_length=salt_length
@@ -2452,10 +2454,9 @@ def sign_data_with_alg_id(  # noqa: D417 Missing argument descriptions in the do
         use_pss = name.endswith("-pss")
         return key.sign(data=data, use_pss=use_pss)
 
-    # TODO fix this
     if oid in RSASSA_PSS_OID_2_NAME and isinstance(key, rsa.RSAPrivateKey):
         hash_alg = get_hash_from_oid(oid, only_hash=True)
-        return cryptoutils.sign_data(key=key, data=data, hash_alg=hash_alg, use_rsa_pss=True)
+        return sign_rsa_pss_data_with_alg_id(private_key=key, data=data, alg_id=alg_id, hash_alg=hash_alg)
 
     if oid in PQ_OID_2_NAME or oid in TRAD_SIG_OID_2_NAME:
         hash_alg = get_hash_from_oid(oid, only_hash=True)
-- 
2.43.0


From a3152e4b1e11c5776a9e1953dc4c5b15e243edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:08 +0000
Subject: [PATCH 004/101] fix: answer OCSP requests for updated certificates

An updated certificate counts as revoked, but was only looked up in the list of
revoked certificates, so that the OCSP request ended with an exception.
---
 mock_ca/mock_fun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 2881089..55b9a7c 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -307,6 +307,8 @@ class CertRevStateDB:
         if num in nums:
             status = "revoked"
             found_cert = self.rev_entry_list.get_cert_by_serial_number(num)
+            if found_cert is None:
+                found_cert = self.update_entry_list.get_cert_by_serial_number(num)
         else:
             for cert in issued_certs:
                 if num == int(cert["tbsCertificate"]["serialNumber"]):
-- 
2.43.0


From 5bc03bbc3691e05c0241d61de9e05a99fe40c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:24 +0000
Subject: [PATCH 005/101] fix: count CRL numbers up

Each CRL of the certificate database carried the same CRL number.
---
 mock_ca/mock_fun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 55b9a7c..e9c7d0f 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1282,11 +1282,13 @@ class CertificateDB:
             updated_certs=self.updated_certs,
             crl_number=self._crl_number,
         )
-        return rev_db.get_crl_response(
+        crl = rev_db.get_crl_response(
             sign_key=ca_key,
             ca_cert=ca_cert,
             hash_alg=hash_alg,
         )
+        self._crl_number += 1
+        return crl
 
     def get_ocsp_response(
         self,
-- 
2.43.0


From eae632abcbb508e344f447e110e63cca4c8702ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:24 +0000
Subject: [PATCH 006/101] fix: publish the CRL of the certificate database

The CRL endpoint read a database nothing is ever added to, so that the
published CRL was always empty.
---
 mock_ca/ca_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 925e6e2..d05054b 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -1392,9 +1392,9 @@ class CAHandler:
 
     def get_current_crl(self) -> bytes:
         """Process the CRL request and return the response."""
-        response = self.state.cert_state_db.get_crl_response(
+        response = self.state.certificate_db.get_current_crl(
             ca_cert=self.ca_cert,
-            sign_key=self.ca_key,
+            ca_key=self.ca_key,
             hash_alg="sha256",
         )
         return response.public_bytes(encoding=Encoding.DER)
-- 
2.43.0


From 20d4746a5554805a3237f0ef0ef8cd6979cfa1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:09 +0000
Subject: [PATCH 007/101] fix: let only the owner of a certificate or a trusted
 RA revoke it

Every requester with a valid signature and a self-made certificate chain could
revoke or revive any certificate.
---
 mock_ca/ca_handler.py  |  2 +-
 mock_ca/rev_handler.py | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index d05054b..574eeac 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -361,7 +361,7 @@ class CAHandler:
                     f"The hybrid kem private key is not a `HybridKEMPrivateKey`.Got: {type(self.xwing_key)}"
                 )
 
-        self.rev_handler = RevocationHandler(self.state.certificate_db)
+        self.rev_handler = RevocationHandler(self.state.certificate_db, trusted_ras_dir=trusted_ras_dir)
         self.cert_conf_handler = CertConfHandler(self.state)
 
         extensions = self.extensions
diff --git a/mock_ca/rev_handler.py b/mock_ca/rev_handler.py
index 675be05..e943a52 100644
--- a/mock_ca/rev_handler.py
+++ b/mock_ca/rev_handler.py
@@ -41,6 +41,7 @@ from resources.exceptions import (
     CertRevoked,
     CMPTestSuiteError,
     NotAuthorized,
+    SignerNotTrusted,
     WrongIntegrity,
 )
 from resources.protectionutils import (
@@ -89,8 +90,10 @@ class RevocationHandler:
         x25519_key: Optional[X25519PrivateKey] = None,
         x448_key: Optional[X448PrivateKey] = None,
         ec_key: Optional[EllipticCurvePrivateKey] = None,
+        trusted_ras_dir: Optional[str] = "./data/trusted_ras",
     ):
         """Initialize the revocation handler and state."""
+        self.trusted_ras_dir = trusted_ras_dir
         self.rev_db = rev_db or CertificateDB()
         self.x25519_key = x25519_key
         self.x448_key = x448_key
@@ -318,6 +321,37 @@ class RevocationHandler:
             allow_timeout=False,
         )
 
+    def _is_trusted_ra(self, cert: rfc9480.CMPCertificate) -> bool:
+        """Check if the certificate belongs to a trusted RA, which may revoke the certificates of others."""
+        if self.trusted_ras_dir is None:
+            return False
+        try:
+            certutils.certificates_are_trustanchors(
+                cert, trustanchors=self.trusted_ras_dir, allow_os_store=False, verbose=False
+            )
+        except (SignerNotTrusted, ValueError):
+            return False
+        return True
+
+    def _get_certs_for_requester(
+        self,
+        cert: rfc9480.CMPCertificate,
+        issued_certs: List[rfc9480.CMPCertificate],
+    ) -> List[rfc9480.CMPCertificate]:
+        """Get the certificates the requester is allowed to revoke or to revive.
+
+        :param cert: The certificate of the requester.
+        :param issued_certs: The certificates issued by the CA.
+        :return: All issued certificates for a trusted RA, otherwise only the own certificate.
+        :raises NotAuthorized: If the requester is neither a trusted RA nor the owner of an issued certificate.
+        """
+        if self._is_trusted_ra(cert):
+            return issued_certs
+
+        if not certutils.cert_in_list(cert, issued_certs):
+            raise NotAuthorized("The requester is not authorized to revoke a certificate.")
+        return [cert]
+
     def process_revocation_request(
         self,
         pki_message: PKIMessageTMP,
@@ -336,6 +370,7 @@ class RevocationHandler:
 
             cert = pki_message["extraCerts"][0]
             serial_number = int(cert["tbsCertificate"]["serialNumber"])
+            issued_certs = self._get_certs_for_requester(cert, issued_certs)
 
             crl_entry_details = pki_message["body"]["rr"][0]["crlEntryDetails"]
 
-- 
2.43.0


From 550d19a7beccdb9395343f4d6fabc37d6c49cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:36 +0000
Subject: [PATCH 008/101] fix: establish KEM shared secrets only for trusted
 certificates

A shared secret for KEM-based protection was established for every KEM certificate,
so that an outsider with a self-made one was issued certificates.
---
 mock_ca/ca_handler.py   | 13 ++++++++++++-
 mock_ca/prot_handler.py |  9 +++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 574eeac..5f5b8a6 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -67,7 +67,7 @@ from resources.certbuildutils import (
     prepare_issuing_distribution_point_extension,
     prepare_ocsp_extension,
 )
-from resources.certutils import load_public_key_from_cert, parse_certificate
+from resources.certutils import check_is_cert_signer, load_public_key_from_cert, parse_certificate
 from resources.checkutils import (
     check_is_protection_present,
 )
@@ -810,6 +810,16 @@ class CAHandler:
             issued_certs=self.state.issued_certs,
         )
 
+    def _check_kem_cert_is_trusted(self, pki_message: PKIMessageTMP) -> None:
+        """Check if the KEM certificate was issued by the CA or has a trusted chain.
+
+        :param pki_message: The PKIMessage with the KEM certificate.
+        :raises SignerNotTrusted: If the KEM certificate is not trusted.
+        """
+        if check_is_cert_signer(pki_message["extraCerts"][0], self.ca_cert):
+            return
+        self.protection_handler.check_chain_ends_in_trustanchor(pki_message)
+
     def process_genm(self, pki_message: PKIMessageTMP) -> Tuple[PKIMessageTMP, bool]:
         """Process the GenM message.
 
@@ -835,6 +845,7 @@ class CAHandler:
 
             self._check_is_not_confirmed(pki_message)
             self._is_allowed_to_make_a_request(pki_message)
+            self._check_kem_cert_is_trusted(pki_message)
 
             logging.warning("The certificate was not revoked or for revocation request.")
 
diff --git a/mock_ca/prot_handler.py b/mock_ca/prot_handler.py
index 66057de..1c2eac8 100644
--- a/mock_ca/prot_handler.py
+++ b/mock_ca/prot_handler.py
@@ -804,6 +804,15 @@ class ProtectionHandler:
         if not check_is_cert_signer(cert_chain[-1], cert_chain[-1]):
             raise SignerNotTrusted("The last certificate in the chain was not a signer.")
 
+    def check_chain_ends_in_trustanchor(self, pki_message: PKIMessageTMP) -> None:
+        """Check if the chain of the first certificate in `extraCerts` ends in a trust anchor.
+
+        :param pki_message: The PKI message to check.
+        :raises SignerNotTrusted: If the chain does not end in a trust anchor.
+        """
+        cert_chain = build_cmp_chain_from_pkimessage(pki_message, for_issued_cert=False)
+        certificates_are_trustanchors(cert_chain[-1], trustanchors=self._prot_config.mock_ca_trusted_dir)
+
     def check_signer_is_trusted(
         self,
         pki_message: PKIMessageTMP,
-- 
2.43.0


From 075797a8736c279aa2e548255c2b5b8e2401c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:47 +0000
Subject: [PATCH 009/101] fix: use a KEM shared secret only with the
 certificate it was established for

A shared secret established with the own KEM certificate could protect a revocation
or key update request in the name of another certificate, and could be used for any
number of revocation requests.
---
 mock_ca/ca_handler.py |  5 +++++
 mock_ca/mock_fun.py   | 10 +++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 5f5b8a6..5f3ab90 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -753,6 +753,7 @@ class CAHandler:
                     response = self.process_rr(pki_message)
                 except (BadMessageCheck, BadKeyUsage, BodyRelevantError) as e:
                     response = self.rev_handler.build_rp_error_response(request=pki_message, exception=e)
+                    return self.sign_response(response=response, request_msg=pki_message)
 
             elif pki_message["body"].getName() == "certConf":
                 response = self.process_cert_conf(pki_message)
@@ -872,6 +873,10 @@ class CAHandler:
         :param pki_message: The RR message.
         :return: The PKI message containing the response.
         """
+        if pki_message["header"]["protectionAlg"].isValue:
+            if ProtectedType.get_protection_type(pki_message) == ProtectedType.KEM:
+                self.state.kem_mac_based.verify_pkimessage_protection(request=pki_message)
+
         response, _ = self.rev_handler.process_revocation_request(
             pki_message=pki_message,
             issued_certs=self.state.issued_certs,
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index e9c7d0f..e3f6bb9 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -554,6 +554,7 @@ class KEMSharedSecretList:
             shared_secret=ss,
             transaction_id=request["header"]["transactionID"].asOctets(),
             sender=request["header"]["sender"],
+            kem_cert=request["extraCerts"][0] if request["extraCerts"].isValue else None,
         )
         self.shared_secrets.append(states)
 
@@ -597,15 +598,18 @@ class KEMSharedSecretList:
         if not result:
             raise BadMessageCheck("Shared secret MUST be provided for KEM-based protection.")
 
+        kem_object = self.get_shared_secret_object(request)  # type: ignore
+        kem_object: KEMSharedSharedState
+        if kem_object.kem_cert is not None and request["extraCerts"].isValue:
+            if encoder.encode(kem_object.kem_cert) != encoder.encode(request["extraCerts"][0]):
+                raise BadMessageCheck("The shared secret was established for another certificate.")
+
         body_name = get_cmp_message_type(request)
         if body_name == "certConf":
             shared_secret = self.get_shared_secret(request)
             verify_kem_based_mac_protection(pki_message=request, shared_secret=shared_secret)
             logging.debug("KEM-based MAC protection verified.")
         else:
-            kem_object = self.get_shared_secret_object(request)  # type: ignore
-            kem_object: KEMSharedSharedState
-
             if kem_object.was_used_for_issuing:
                 raise BadMessageCheck("Shared secret was already used for issuing a certificateor another request.")
             verify_kem_based_mac_protection(pki_message=request, shared_secret=kem_object.shared_secret)
-- 
2.43.0


From 1110d3485f2491fbe01eb057b3a241afc599f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:23 +0000
Subject: [PATCH 010/101] fix: do not confirm a certificate the client rejected

A certificate confirmation with the status rejection confirmed the certificate, and
with a key update even replaced the old one.
---
 mock_ca/cert_conf_handler.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/mock_ca/cert_conf_handler.py b/mock_ca/cert_conf_handler.py
index c75bc13..cf84db5 100644
--- a/mock_ca/cert_conf_handler.py
+++ b/mock_ca/cert_conf_handler.py
@@ -265,8 +265,10 @@ class CertConfHandler:
         self.conf_state.add_request(pki_message)
 
     def is_not_confirmed(self, cert: rfc9480.CMPCertificate) -> bool:
-        """Check if the certificate is to be confirmed."""
-        return self.conf_state.is_not_confirmed(cert)
+        """Check if the certificate is to be confirmed or was rejected."""
+        if self.conf_state.is_not_confirmed(cert):
+            return True
+        return self.state_db.certificate_db.get_cert_state(cert) == CertStateEnum.NOT_CONFIRMED
 
     def add_response(self, pki_message: PKIMessageTMP, certs: List[rfc9480.CMPCertificate]):
         """Add the CA response to the state."""
@@ -327,6 +329,15 @@ class CertConfHandler:
                         f"expected: {get_protection_alg_name(request)}."
                     )
 
+    @staticmethod
+    def _is_rejected(entry: rfc9480.CertStatus) -> bool:
+        """Check if the client rejected the certificate.
+
+        :param entry: The entry of the certificate confirmation message.
+        :return: `True` if the status is `rejection`, otherwise `False`.
+        """
+        return entry["statusInfo"].isValue and str(entry["statusInfo"]["status"]) == "rejection"
+
     def process_cert_conf(self, pki_message: PKIMessageTMP) -> Tuple[PKIMessageTMP, Optional[rfc9480.CMPCertificate]]:
         """Process the certificate confirmation message.
 
@@ -367,16 +378,22 @@ class CertConfHandler:
 
         ccp_cert = None
 
-        if response_type == "kup":
+        confirmed_certs = [
+            cert
+            for entry, cert in zip(pki_message["body"]["certConf"], issued_certs)
+            if not self._is_rejected(entry)
+        ]
+
+        if response_type == "kup" and confirmed_certs:
             cert = requests["extraCerts"][0]
             self.state_db.certificate_db.change_cert_state(
                 cert,
                 new_state=CertStateEnum.UPDATED,
             )
-        if response_type == "ccp":
-            ccp_cert = issued_certs[0]
+        if response_type == "ccp" and confirmed_certs:
+            ccp_cert = confirmed_certs[0]
 
-        for cert in issued_certs:
+        for cert in confirmed_certs:
             self.state_db.certificate_db.change_cert_state(
                 cert,
                 new_state=CertStateEnum.CONFIRMED,
-- 
2.43.0


From 48719357e1c208c4320ec914b6385863f0adf6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:10 +0000
Subject: [PATCH 011/101] fix: refuse to certify a key whose certificate was
 revoked for key compromise

The check for compromised keys consulted a database nothing is ever added to, was
skipped for cross-certification requests, and ended at the first request entry
without a public key.
---
 mock_ca/ca_handler.py |  4 ++--
 mock_ca/mock_fun.py   | 30 ++++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 5f3ab90..4b7aadb 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -717,7 +717,7 @@ class CAHandler:
             if pki_message["body"].getName() not in ["rr", "genm"]:
                 self.verify_protection(pki_message)
 
-            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "crr", "kur", "rr"]:
+            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "ccr", "kur", "rr"]:
                 self._check_for_compromised_key(pki_message)
 
             if pki_message["body"].getName() not in ["certConf", "error"]:
@@ -902,7 +902,7 @@ class CAHandler:
         :raises BadCertTemplate: If the certificate template is invalid.
         """
         try:
-            result = self.state.cert_state_db.check_request_for_compromised_key(pki_message)
+            result = self.state.check_request_for_compromised_key(pki_message)
             if result:
                 raise BadCertTemplate("The certificate template contained a compromised key.")
         except (InvalidKeyData, BadAsn1Data, BadAlg) as e:
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index e3f6bb9..257345b 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -424,11 +424,11 @@ class CertRevStateDB:
 
         body_name = request["body"].getName()
 
-        if body_name in ["ir", "cr", "crr", "kur"]:
+        if body_name in ["ir", "cr", "ccr", "kur"]:
             for entry in request["body"][body_name]:
                 public_key = ca_ra_utils.get_public_key_from_cert_req_msg(entry, must_be_present=False)
                 if public_key is None:
-                    return False
+                    continue
 
                 if self.rev_entry_list.contains_key(public_key):
                     return True
@@ -1044,6 +1044,20 @@ class CertificateDB:
         """Return the revoked certificates."""
         return self._get_certs_by_state(cert_state=CertStateEnum.REVOKED)
 
+    def get_revoked_entries(self, reason: str) -> List[RevokedEntry]:
+        """Get the entries of the certificates revoked for a reason.
+
+        :param reason: The reason, e.g. "keyCompromise".
+        :return: The revoked entries.
+        """
+        return [
+            entry.revoked_entry
+            for entry in self._certs
+            if entry.cert_state == CertStateEnum.REVOKED
+            and entry.revoked_entry is not None
+            and entry.revoked_entry.reason == reason
+        ]
+
     @property
     def updated_certs(self) -> List[rfc9480.CMPCertificate]:
         """Return the updated certificates."""
@@ -1471,8 +1485,16 @@ class MockCAState:
             )
 
     def check_request_for_compromised_key(self, request_msg: PKIMessageTMP) -> bool:
-        """Check the request for a compromised key."""
-        return self.cert_state_db.check_request_for_compromised_key(request_msg)
+        """Check the request for a compromised key.
+
+        A key is compromised, if it was added as compromised or its certificate is revoked for that reason.
+        """
+        if self.cert_state_db.check_request_for_compromised_key(request_msg):
+            return True
+        revoked_db = CertRevStateDB(
+            rev_entry_list=RevokedEntryList(entries=self.certificate_db.get_revoked_entries("keyCompromise"))
+        )
+        return revoked_db.check_request_for_compromised_key(request_msg)
 
     def add_may_update_cert(
         self, old_cert: rfc9480.CMPCertificate, update_cert: rfc9480.CMPCertificate, was_confirmed: bool
-- 
2.43.0


From ed57b5332f44e24a100ed4dce242fdcf0035d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:10 +0000
Subject: [PATCH 012/101] fix: leave out the senderKID of MAC protected
 messages when asked to

---
 resources/cmputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index d245fe8..99b8536 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -272,7 +272,7 @@ def prepare_pki_message(
             if "sender" not in to_exclude:
                 pki_message = patch_sender(pki_message, sender_name=sender)
 
-            if "sender_kid" not in to_exclude:
+            if "senderKID" not in to_exclude:
                 pki_message = patch_senderkid(pki_message, for_mac=True)
         except Exception as e:
             raise ValueError("Could not prepare the sender and senderKID for MAC protected message.") from e
-- 
2.43.0


From dd5511d4311d6f0b43802dd81cc6bb07c742ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:55 +0000
Subject: [PATCH 013/101] fix: derive the key of a password-based MAC with the
 hash the owf names

---
 resources/protectionutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 80d2011..4edac01 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -564,9 +564,10 @@ def compute_mac_from_alg_id(key: bytes, alg_id: rfc9480.AlgorithmIdentifier, dat
 
         salt = prot_params["salt"].asOctets()
         iterations = int(prot_params["iterationCount"])
-        hash_alg = HMAC_OID_2_NAME[prot_params["mac"]["algorithm"]].split("-")[1]
+        mac_hash_alg = HMAC_OID_2_NAME[prot_params["mac"]["algorithm"]].split("-")[1]
+        hash_alg = get_hash_from_oid(prot_params["owf"]["algorithm"])
         return cryptoutils.compute_password_based_mac(
-            data=data, key=key, iterations=iterations, salt=salt, hash_alg=hash_alg
+            data=data, key=key, iterations=iterations, salt=salt, hash_alg=hash_alg, mac_hash_alg=mac_hash_alg
         )
 
     if protection_type_oid in AES_GMAC_OID_2_NAME:
-- 
2.43.0


From 7fdd0ccb5dcd27c86a32613592bdd94e662cbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:16 +0000
Subject: [PATCH 014/101] fix: refuse a key of a certificate whose update is
 not confirmed yet

---
 mock_ca/mock_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 257345b..f6ea295 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1380,7 +1380,7 @@ class MockCAState:
         key_sec_check = KeySecurityChecker(
             issued_certs=self.certificate_db.issued_certs,
             # revoked_certs=self.certificate_db.revoked_certs,
-            updated_certs=self.certificate_db.not_confirmed_certs,
+            updated_certs=self.certificate_db.not_confirmed_certs + self.certificate_db.updated_certs,
         )
 
         return key_sec_check.contains_pub_key(
-- 
2.43.0


From f5898c0f1ab369d50cb2a027565e382f6959d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:09 +0000
Subject: [PATCH 015/101] fix: answer OCSP requests with SHA-1 CertIDs

---
 mock_ca/mock_fun.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index f6ea295..190516c 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -349,7 +349,6 @@ class CertRevStateDB:
         return certutils.build_ocsp_response(
             cert=found_cert,
             ca_cert=ca_cert,
-            hash_alg=request.hash_algorithm.name,
             status=status,
             revocation_time=revocation_time,
             responder_hash_alg=request.hash_algorithm.name,
-- 
2.43.0


From 546b1c130b230402e7d4bc7a596ae7eaa7d532fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:25 +0000
Subject: [PATCH 016/101] fix: read the cA flag of a BasicConstraints extension

---
 resources/certutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index 32d54f2..f93c378 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -2360,7 +2360,7 @@ def is_ca_cert(cert: rfc9480.CMPCertificate) -> Optional[bool]:
     if rest:
         raise BadAsn1Data("BasicConstraints")
 
-    return basic_constraints["cA"].isValue
+    return bool(basic_constraints["cA"])
 
 
 def _validate_key_identifiers(
-- 
2.43.0


From 5289b257e2cf60e22e59e6e3ee0a65485b46faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:25 +0000
Subject: [PATCH 017/101] fix: check validity, CA flag and KeyUsage of
 post-quantum signer chains

---
 mock_ca/prot_handler.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/mock_ca/prot_handler.py b/mock_ca/prot_handler.py
index 1c2eac8..8598633 100644
--- a/mock_ca/prot_handler.py
+++ b/mock_ca/prot_handler.py
@@ -5,6 +5,7 @@
 """Protection handler for PKIMessages."""
 
 import logging
+from datetime import datetime, timezone
 from typing import List, Optional, Tuple, Union
 
 from cryptography.exceptions import InvalidSignature
@@ -28,6 +29,7 @@ from resources.certutils import (
     certificates_are_trustanchors,
     certificates_must_be_trusted,
     check_is_cert_signer,
+    is_ca_cert,
     load_public_key_from_cert,
     validate_key_usage,
 )
@@ -37,6 +39,7 @@ from resources.checkutils import (
     validate_wrong_integrity,
 )
 from resources.cmputils import get_cmp_message_type, patch_sender, patch_senderkid
+from resources.convertutils import pyasn1_time_obj_to_py_datetime
 from resources.cryptoutils import perform_ecdh
 from resources.data_objects import KARICertsAndKeys
 from resources.exceptions import (
@@ -868,6 +871,28 @@ class ProtectionHandler:
         else:
             # Check if the certificate is trusted.
             certificates_are_trustanchors(may_trusted_cert, trustanchors=self._prot_config.mock_ca_trusted_dir)
+            self._check_chain_without_openssl(cert_chain)
+
+    @staticmethod
+    def _check_chain_without_openssl(cert_chain: List[rfc9480.CMPCertificate]) -> None:
+        """Check the validity, the CA certificates and the `KeyUsage` of a chain OpenSSL can not process.
+
+        :param cert_chain: The chain, starting with the signer certificate and ending with the trust anchor.
+        :raises SignerNotTrusted: If a certificate is outside its validity or an issuer is not a CA.
+        :raises BadKeyUsage: If the signer certificate must not be used for signing.
+        """
+        now = datetime.now(timezone.utc)
+        for cert in cert_chain:
+            validity = cert["tbsCertificate"]["validity"]
+            not_before = pyasn1_time_obj_to_py_datetime(validity["notBefore"])
+            not_after = pyasn1_time_obj_to_py_datetime(validity["notAfter"])
+            if not not_before <= now <= not_after:
+                raise SignerNotTrusted("A certificate of the signer chain is outside its validity period.")
+
+        if not all(is_ca_cert(cert) for cert in cert_chain[1:-1]):
+            raise SignerNotTrusted("A certificate of the signer chain is issued by a certificate, which is not a CA.")
+
+        validate_key_usage(cert_chain[0], key_usages="digitalSignature", strictness="LAX")
 
     def verify_added_protection(
         self,
-- 
2.43.0


From 8827c3a532f8bdc8db137c2694096a1b9be956ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:23 +0000
Subject: [PATCH 018/101] fix: verify the POP of every entry of a certificate
 request

---
 resources/ca_ra_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index d821e86..7b90387 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1309,7 +1309,7 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
         )
 
     elif name == "signature":
-        verify_sig_pop_for_pki_request(pki_message)
+        verify_sig_pop_for_pki_request(pki_message, cert_index=cert_req_index)
     elif name == "keyEncipherment":
         public_key = get_public_key_from_cert_req_msg(cert_req_msg=cert_req_msg)
 
@@ -2382,7 +2382,7 @@ def _process_one_cert_request(
                 ) from e
 
     elif not cert_req_msg["popo"].isValue:
-        if not check_if_request_is_for_kga(request):
+        if not check_if_request_is_for_kga(request, index=cert_index):
             raise BadCertTemplate(
                 "The `popo` structure is missing in the PKIMessage."
                 "But the request is not for KGA (key generation authority)."
-- 
2.43.0


From 49ce9f602632fc3121d2c4a31fcbb4f5688b9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:22 +0000
Subject: [PATCH 019/101] fix: refuse serial numbers in certificate templates

---
 resources/ca_ra_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 7b90387..e1159c7 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1485,6 +1485,9 @@ def validate_cert_template_public_key(
         if get_extension(cert_template["extensions"], rfc5280.id_ce_subjectAltName) is None:
             raise BadCertTemplate("The `subject` field is not set inside the certificate template.")
 
+    if cert_template["serialNumber"].isValue:
+        raise BadCertTemplate("The `serialNumber` is assigned by the CA and must not be inside the certificate template.")
+
     try:
         public_key = keyutils.load_public_key_from_cert_template(cert_template=cert_template, must_be_present=False)
     except (BadCertTemplate, InvalidKeyData, ValueError) as err:
-- 
2.43.0


From fb10c14cd82993b2ff4fe9f9eb8dfc1e721fc736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:22 +0000
Subject: [PATCH 020/101] fix: do not issue certificates with two
 SubjectKeyIdentifier extensions

---
 resources/certbuildutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index e4dd41b..4d19dd5 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -1744,7 +1744,8 @@ def build_cert_from_cert_template(  # noqa D417 undocumented-param
     )
 
     if extns.isValue:
-        tbs_certs["extensions"].extend(extns)
+        # The `SubjectKeyIdentifier` is already set, an extension must not be present twice.
+        tbs_certs["extensions"].extend(_get_not_included_extensions(list(tbs_certs["extensions"]), extns))
 
     cert = rfc9480.CMPCertificate()
     cert["tbsCertificate"] = tbs_certs
-- 
2.43.0


From 223b423a8c91bed27c13036dcebce0a4b661dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:22 +0000
Subject: [PATCH 021/101] fix: refuse a requested validity period that is over
 or empty

---
 resources/certbuildutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index 4d19dd5..84a3836 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -1654,6 +1654,8 @@ def default_validity(
         if optional_validity["notAfter"].isValue:
             time_type = optional_validity["notAfter"].getName()
             not_after = optional_validity["notAfter"][time_type].asDateTime
+            if not_after <= max(not_before, datetime.now(timezone.utc)):
+                raise BadCertTemplate("The `notAfter` date is in the past or before the `notBefore` date.")
         else:
             not_after = not_before + timedelta(days=days)
         return prepare_validity(not_before, not_after)
-- 
2.43.0


From 8e7a39e6dce561552d1eda82f65965e3a27a1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:39 +0000
Subject: [PATCH 022/101] fix: encode validity dates from 2050 on as
 GeneralizedTime

---
 resources/certbuildutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index 84a3836..a74442e 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -105,11 +105,12 @@ def prepare_validity(  # noqa D417 undocumented-param
     not_after_obj = rfc5280.Time()
 
     if not_before is not None:
-        before_type = "utcTime" if before_use_utc else "generalTime"
+        # `UTCTime` cannot represent years from 2050 on.
+        before_type = "utcTime" if before_use_utc and not_before.year < 2050 else "generalTime"
         validity["notBefore"][before_type] = not_before_obj[before_type].fromDateTime(not_before)
 
     if not_after is not None:
-        after_type = "utcTime" if after_use_utc else "generalTime"
+        after_type = "utcTime" if after_use_utc and not_after.year < 2050 else "generalTime"
         validity["notAfter"][after_type] = not_after_obj[after_type].fromDateTime(not_after)
 
     return validity
-- 
2.43.0


From 610ae0685e814a32feb21563f114525de4502f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:14 +0000
Subject: [PATCH 023/101] fix: use a fresh senderNonce in every response of the
 CA

---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index e1159c7..8cd8ed4 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2234,7 +2234,7 @@ def set_ca_header_fields(request: PKIMessageTMP, kwargs: dict) -> dict:
         os.urandom(16) if not request["header"]["recipNonce"].isValue else request["header"]["recipNonce"].asOctets()
     )
 
-    if not kwargs.get("use_fresh_nonce", True):
+    if kwargs.get("use_fresh_nonce", True):
         alt_nonce = os.urandom(16)
 
     kwargs["sender_nonce"] = kwargs.get("sender_nonce") or alt_nonce
-- 
2.43.0


From 6cb79423625a3a4f2b6ea2b1d4d2643a81bf1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:25 +0000
Subject: [PATCH 024/101] fix: verify every inner message of a nested request
 before any is processed

---
 mock_ca/ca_handler.py     |  19 ++++
 mock_ca/nested_handler.py | 211 ++++++++++++++++++++++++--------------
 2 files changed, 152 insertions(+), 78 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 4b7aadb..7387963 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -431,6 +431,8 @@ class CAHandler:
             cert_req_handler=self.cert_req_handler,
             cert_conf_handler=self.cert_conf_handler,
             allow_inner_unprotected=True,
+            check_request=self._check_inner_request,
+            build_error=self.build_error_from_exception,
         )
         self.challenge_handler = ChallengeHandler(
             ca_key=self.ca_key,
@@ -895,6 +897,23 @@ class CAHandler:
             self.cert_req_handler.get_cross_signed_certs().append(ccp_cert)
         return response
 
+    def _check_inner_request(self, pki_message: PKIMessageTMP) -> None:
+        """Apply the checks of a single request, besides its protection, to an inner request of a nested message.
+
+        :param pki_message: The inner PKIMessage.
+        """
+        if pki_message["extraCerts"].isValue:
+            self.rev_handler.is_not_allowed_to_request(
+                pki_message,
+                issued_certs=self.state.issued_certs,
+            )
+
+        if pki_message["body"].getName() in ["ir", "cr", "p10cr", "ccr", "kur"]:
+            self._check_for_compromised_key(pki_message)
+
+        if pki_message["body"].getName() not in ["certConf", "error"]:
+            self._check_is_not_confirmed(pki_message)
+
     def _check_for_compromised_key(self, pki_message: PKIMessageTMP) -> None:
         """Check the request for a compromised key.
 
diff --git a/mock_ca/nested_handler.py b/mock_ca/nested_handler.py
index 4a97cf9..fca859b 100644
--- a/mock_ca/nested_handler.py
+++ b/mock_ca/nested_handler.py
@@ -6,7 +6,7 @@
 
 import copy
 import logging
-from typing import Optional
+from typing import Callable, Optional
 
 from pyasn1.codec.der import encoder
 
@@ -21,7 +21,7 @@ from resources.checkutils import (
     validate_nested_message_unique_nonces_and_ids,
 )
 from resources.cmputils import build_nested_pkimessage, get_cmp_message_type, parse_pkimessage
-from resources.exceptions import BadRecipientNonce, BadRequest
+from resources.exceptions import BadRecipientNonce, BadRequest, CMPTestSuiteError
 
 
 class NestedHandler:
@@ -32,13 +32,20 @@ class NestedHandler:
         cert_req_handler: CertReqHandler,
         cert_conf_handler: CertConfHandler,
         allow_inner_unprotected: bool = True,
+        check_request: Optional[Callable[[PKIMessageTMP], None]] = None,
+        build_error: Optional[Callable[[CMPTestSuiteError, PKIMessageTMP], PKIMessageTMP]] = None,
     ):
         """Initialize the handler with the parent.
 
         :param cert_req_handler: The certificate request handler, to process the requests.
         :param cert_conf_handler: The certificate confirmation handler, to process confirmation messages.
         :param allow_inner_unprotected: If inner unprotected messages are allowed. Defaults to `True`.
+        :param check_request: The checks, besides the protection, which are applied to a request, before it
+        is processed. Raises an exception, if the request must be refused. Defaults to `None`.
+        :param build_error: Builds the protected error response for an inner request. Defaults to `None`.
         """
+        self.check_request = check_request
+        self.build_error = build_error
         self.cert_req_handler = cert_req_handler
         self.cert_conf_handler = cert_conf_handler
         self.check_sender = False
@@ -69,21 +76,24 @@ class NestedHandler:
 
         return get_cmp_message_type(request["body"]["nested"][index])
 
-    def _process_added_protection_request(
+    def _check_inner_request(self, request: PKIMessageTMP) -> None:
+        """Apply the checks of a single request to an inner request, if set."""
+        if self.check_request is not None:
+            self.check_request(request)
+
+    def _verify_added_protection_request(
         self,
         request: PKIMessageTMP,
         prot_handler: ProtectionHandler,
         pq_stateful_state: Optional[StatefulSigState] = None,
-    ) -> PKIMessageTMP:
-        """Process the added protection request.
+    ) -> None:
+        """Verify the added protection request, without processing it.
 
-        :param request: The request to process.
+        :param request: The request to verify.
         :param prot_handler: The protection handler to use, to validate the protection, of the request.
-        Defaults to `None`.
         :param pq_stateful_state: The state for stateful signatures, if needed.
         """
         validate_add_protection_tx_id_and_nonces(request)
-        body_name = NestedHandler.get_nested_body_name(request, 0)
         inner_msg = request["body"]["nested"][0]
 
         check_is_protection_present(inner_msg, must_be_protected=not self.allow_inner_unprotected)
@@ -93,6 +103,20 @@ class NestedHandler:
             must_be_protected=not self.allow_inner_unprotected,
             pq_stateful_state=pq_stateful_state,
         )
+        self._check_inner_request(inner_msg)
+
+    def _process_added_protection_request(
+        self,
+        request: PKIMessageTMP,
+        prot_handler: ProtectionHandler,
+    ) -> PKIMessageTMP:
+        """Process the added protection request, which was already verified.
+
+        :param request: The request to process.
+        :param prot_handler: The protection handler to use, to protect the response.
+        """
+        body_name = NestedHandler.get_nested_body_name(request, 0)
+        inner_msg = request["body"]["nested"][0]
 
         if body_name in ["ir", "cr", "p10cr", "kur", "ccr"]:
             response = self.cert_req_handler.process_cert_request(
@@ -146,11 +170,12 @@ class NestedHandler:
             self._check_sender(request)
 
         if len_request == 1:
-            return self._process_added_protection_request(
+            self._verify_added_protection_request(
                 request, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state
             )
+            return self._process_added_protection_request(request, prot_handler=prot_handler)
 
-        return self.process_batched_request(request, prot_handler=prot_handler)
+        return self.process_batched_request(request, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state)
 
     @staticmethod
     def check_recip_nonce_is_absent(request: PKIMessageTMP) -> None:
@@ -232,6 +257,86 @@ class NestedHandler:
                 "Which contains requests of type `ir`, `cr`, `kur`, `p10cr`, `rr`."
             )
 
+    def _verify_batch_entry(
+        self,
+        entry: PKIMessageTMP,
+        index: int,
+        prot_handler: ProtectionHandler,
+        pq_stateful_state: Optional[StatefulSigState] = None,
+    ) -> None:
+        """Verify one inner message of a batch, without processing it.
+
+        :param entry: The inner message.
+        :param index: The index of the inner message.
+        :param prot_handler: The protection handler to use, to validate the protection, of the message.
+        :param pq_stateful_state: The state for stateful signatures, if needed.
+        """
+        if not entry["body"].isValue:
+            raise BadRequest("The body is not set")
+
+        body_name = entry["body"].getName()
+        if body_name == "nested":
+            if len(entry["body"]["nested"]) != 1:
+                raise BadRequest(
+                    "The Mock CA only supports one level of nested requests"
+                    ", but allows a added protection request. "
+                    f"Got length: {len(entry['body']['nested'])}."
+                )
+            prot_handler.verify_nested_protection(
+                pki_message=entry,
+                cc_certs=self.cert_req_handler.get_cross_signed_certs(),
+                pq_stateful_state=pq_stateful_state,
+            )
+            self._verify_added_protection_request(
+                entry, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state
+            )
+            return
+
+        if body_name not in ["cr", "ir", "p10cr", "kur", "ccr", "certConf"]:
+            raise NotImplementedError(
+                f"Not implemented to handle the body: {body_name} for batched requests,only support `ir`."
+            )
+
+        check_is_protection_present(entry, must_be_protected=not self.allow_inner_unprotected)
+        prot_handler.verify_inner_batch_pkimessage(
+            pki_message=entry,
+            cc_certs=self.cert_req_handler.get_cross_signed_certs(),
+            must_be_protected=not self.allow_inner_unprotected,
+            index=index,
+            pq_stateful_state=pq_stateful_state,
+        )
+        self._check_inner_request(entry)
+
+    def _process_batch_entry(self, entry: PKIMessageTMP, prot_handler: ProtectionHandler) -> PKIMessageTMP:
+        """Process one inner message of a batch, which was already verified.
+
+        :param entry: The inner message.
+        :param prot_handler: The protection handler to use, to protect the response.
+        :return: The protected response.
+        """
+        if entry["body"].getName() == "nested":
+            return self._process_added_protection_request(entry, prot_handler=prot_handler)
+
+        if entry["body"].getName() == "certConf":
+            response, ccp_cert = self.cert_conf_handler.process_cert_conf(
+                pki_message=entry,
+            )
+            if ccp_cert is not None:
+                self.cert_req_handler.get_cross_signed_certs().append(ccp_cert)
+        else:
+            # `verify_ra_verified` could be set to `False` for `cr`, `ir` and `p10cr`,
+            # if somebody decides that the batched sender is trusted.
+            response = self.cert_req_handler.process_cert_request(
+                entry,
+                must_be_protected=not self.allow_inner_unprotected,
+                verify_ra_verified=True,
+            )
+
+        return prot_handler.protect_pkimessage(
+            response=response,
+            request=entry,
+        )
+
     def process_batched_request(
         self,
         request: PKIMessageTMP,
@@ -242,76 +347,26 @@ class NestedHandler:
         out = []
         self._check_nonces(request)
 
+        # The batch is refused as a whole, if one of the inner messages is not authentic. So nothing
+        # must be granted before all of them are verified.
         for i, entry in enumerate(request["body"]["nested"]):
-            if not entry["body"].isValue:
-                raise BadRequest("The body is not set")
-
-            if entry["body"].getName() == "nested":
-                if len(entry["body"]["nested"]) != 1:
-                    raise BadRequest(
-                        "The Mock CA only supports one level of nested requests"
-                        ", but allows a added protection request. "
-                        f"Got length: {len(entry['body']['nested'])}."
-                    )
-                response = self._process_added_protection_request(
-                    entry, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state
+            self._verify_batch_entry(entry, i, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state)
+
+        for entry in request["body"]["nested"]:
+            try:
+                out.append(self._process_batch_entry(entry, prot_handler=prot_handler))
+            except CMPTestSuiteError as e:
+                if self.build_error is None:
+                    raise
+                out.append(self.build_error(e, entry))
+            except Exception as e:  # pylint: disable=broad-except
+                if self.build_error is None:
+                    raise
+                logging.exception("An error occurred")
+                err = CMPTestSuiteError(
+                    f"An error occurred while processing the request: {type(e)} {str(e)}", failinfo="systemFailure"
                 )
-                out.append(response)
-
-            elif entry["body"].getName() == "certConf":
-                response, ccp_cert = self.cert_conf_handler.process_cert_conf(
-                    pki_message=entry,
-                )
-                if ccp_cert is not None:
-                    self.cert_req_handler.get_cross_signed_certs().append(ccp_cert)
-
-                response = prot_handler.protect_pkimessage(
-                    response=response,
-                    request=entry,
-                )
-                out.append(response)
-
-            else:
-                check_is_protection_present(entry, must_be_protected=not self.allow_inner_unprotected)
-                prot_handler.verify_inner_batch_pkimessage(
-                    pki_message=entry,
-                    cc_certs=self.cert_req_handler.get_cross_signed_certs(),
-                    must_be_protected=not self.allow_inner_unprotected,
-                    index=i,
-                    pq_stateful_state=pq_stateful_state,
-                )
-                if entry["body"].getName() in ["cr", "ir", "p10cr"]:
-                    # Different if cases, if somebody decides that
-                    # `verify_ra_verified` can be set to `False`, because
-                    # the batched sender is trusted.
-                    # But for `kur` and `ccr` MUST be set to `False`.
-                    response = self.cert_req_handler.process_cert_request(
-                        entry,
-                        must_be_protected=not self.allow_inner_unprotected,
-                        verify_ra_verified=True,
-                    )
-                    response = prot_handler.protect_pkimessage(
-                        response=response,
-                        request=entry,
-                    )
-                    out.append(response)
-                elif entry["body"].getName() in ["kur", "ccr"]:
-                    response = self.cert_req_handler.process_cert_request(
-                        pki_message=entry,
-                        must_be_protected=not self.allow_inner_unprotected,
-                        verify_ra_verified=True,
-                    )
-                    response = prot_handler.protect_pkimessage(
-                        response=response,
-                        request=entry,
-                    )
-                    out.append(response)
-
-                else:
-                    raise NotImplementedError(
-                        f"Not implemented to handle the body: {entry['body'].getName()} for batched requests,"
-                        f"only support `ir`."
-                    )
+                out.append(self.build_error(err, entry))
 
         pki_message = build_nested_pkimessage(
             other_messages=out,
-- 
2.43.0


From 2f42b3aa63e65b5e869932f58470efa6bbf141e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:57:19 +0000
Subject: [PATCH 025/101] fix: answer every request with a message of the
 endpoint's kind, and limit the cost of MACs

---
 mock_ca/ca_handler.py   | 29 ++++++++++++++++++++---------
 mock_ca/prot_handler.py | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 7387963..89f61b1 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -551,7 +551,13 @@ class CAHandler:
         except UnknownOID:
             request_msg["header"]["protectionAlg"]["algorithm"] = self.default_algorithms
 
-        return self.protection_handler.protect_pkimessage(response=response, request=request_msg)
+        try:
+            return self.protection_handler.protect_pkimessage(response=response, request=request_msg)
+        except Exception:  # pylint: disable=broad-except
+            # The mechanism of the request cannot be used, e.g., because its parameters are missing.
+            logging.exception("Failed to protect the error message like the request.")
+            response = _build_error_from_exception(e, request_msg)
+            return self.protection_handler.protect_pkimessage(response=response, request=PKIMessageTMP())
 
     def verify_protection(self, request_msg: PKIMessageTMP, must_be_protected: bool = True) -> None:
         """Verify the protection of the request."""
@@ -1414,14 +1420,16 @@ class CAHandler:
         """Process the OCSP request and return the response."""
         try:
             ocsp_request = ocsp.load_der_ocsp_request(data)
+            response = self.state.certificate_db.get_ocsp_response(
+                request=ocsp_request, ca_cert=self.ca_cert, sign_key=self.ca_key, add_certs=self.own_certs
+            )
         except ValueError:
+            # Parts of the request are only parsed, if they are used.
             logging.error("Failed to load OCSP request")
-            ocsp_response = ocsp.OCSPResponseBuilder.build_unsuccessful(ocsp.OCSPResponseStatus.MALFORMED_REQUEST)
-            return ocsp_response.public_bytes(encoding=Encoding.DER)
-
-        response = self.state.certificate_db.get_ocsp_response(
-            request=ocsp_request, ca_cert=self.ca_cert, sign_key=self.ca_key, add_certs=self.own_certs
-        )
+            response = ocsp.OCSPResponseBuilder.build_unsuccessful(ocsp.OCSPResponseStatus.MALFORMED_REQUEST)
+        except Exception:  # pylint: disable=broad-except
+            logging.exception("Failed to answer the OCSP request")
+            response = ocsp.OCSPResponseBuilder.build_unsuccessful(ocsp.OCSPResponseStatus.INTERNAL_ERROR)
 
         return response.public_bytes(encoding=Encoding.DER)
 
@@ -1571,7 +1579,8 @@ def handle_issuing() -> Response:
     try:
         data = request.get_data()
         pki_message = parse_pkimessage(data)
-    except ValueError:
+    except Exception:  # pylint: disable=broad-except
+        # Depending on the bytes, the decoder does not only raise a `ValueError`.
         e = BadAsn1Data("Error: Could not decode the request", overwrite=True)
         pki_message = handler.build_error_from_exception(e)
         return _build_response(pki_message, status=400)
@@ -1582,7 +1591,9 @@ def handle_issuing() -> Response:
         return _build_response(response, for_msg=True)
     except Exception as e:  # pylint: disable=broad-except
         # Handle any errors gracefully
-        return Response(f"Error: {str(e)}", status=500, content_type="text/plain")
+        logging.exception("An error occurred")
+        err = CMPTestSuiteError(f"Error: {type(e)} {str(e)}", failinfo="systemFailure")
+        return _build_response(handler.build_error_from_exception(err, request_msg=pki_message), status=500)
 
 
 @app.route("/chameleon", methods=["POST"])
diff --git a/mock_ca/prot_handler.py b/mock_ca/prot_handler.py
index 8598633..2e7da56 100644
--- a/mock_ca/prot_handler.py
+++ b/mock_ca/prot_handler.py
@@ -12,7 +12,9 @@ from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey, EllipticCurvePublicKey
 from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey, X448PublicKey
 from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey
-from pyasn1_alt_modules import rfc9480, rfc9481
+from pyasn1.codec.der import decoder, encoder
+from pyasn1.error import PyAsn1Error
+from pyasn1_alt_modules import rfc8018, rfc9480, rfc9481
 
 from mock_ca.db_config_vars import ProtectionHandlerConfig, TrustConfig
 from mock_ca.mock_fun import KEMSharedSecretList, PQStatefulSigKeyConfig
@@ -70,6 +72,38 @@ from resources.typingutils import SignKey
 from resources.utils import get_password_in_size
 from unit_tests.utils_for_test import load_env_data_certs
 
+# The cost of a password-based MAC is chosen by the sender, who is not authenticated yet.
+MAX_MAC_ITERATIONS = 1000000
+MAX_MAC_KEY_LENGTH = 256
+
+
+def _check_mac_cost(alg_id: rfc9480.AlgorithmIdentifier) -> None:
+    """Check that the cost of a password-based MAC algorithm identifier is bearable.
+
+    :param alg_id: The MAC algorithm identifier.
+    :raises BadRequest: If the iteration count or the key length is too large.
+    """
+    iterations, key_length = 0, 0
+    try:
+        if alg_id["algorithm"] == rfc9481.id_PasswordBasedMac:
+            params, _ = decoder.decode(encoder.encode(alg_id["parameters"]), rfc9480.PBMParameter())
+            iterations = int(params["iterationCount"])
+        elif alg_id["algorithm"] == rfc9481.id_PBMAC1:
+            params, _ = decoder.decode(encoder.encode(alg_id["parameters"]), rfc8018.PBMAC1_params())
+            kdf_params = encoder.encode(params["keyDerivationFunc"]["parameters"])
+            params, _ = decoder.decode(kdf_params, rfc8018.PBKDF2_params())
+            iterations = int(params["iterationCount"])
+            if params["keyLength"].isValue:
+                key_length = int(params["keyLength"])
+    except PyAsn1Error:
+        # Is reported by the verification.
+        return
+
+    if iterations > MAX_MAC_ITERATIONS:
+        raise BadRequest(f"The iteration count of the MAC protection exceeds {MAX_MAC_ITERATIONS}.")
+    if key_length > MAX_MAC_KEY_LENGTH:
+        raise BadRequest(f"The key length of the MAC protection exceeds {MAX_MAC_KEY_LENGTH}.")
+
 
 class ProtectionHandler:
     """Handles the protection of PKIMessages."""
@@ -524,6 +558,7 @@ class ProtectionHandler:
                 "Must either be protected by the certificate to be revoked or "
                 "a trusted certificate."
             )
+        _check_mac_cost(pki_message["header"]["protectionAlg"])
         pwd = self._may_expand_password(pki_message["header"]["protectionAlg"])
 
         try:
-- 
2.43.0


From c69e5537b493baf35e50d8e7f149a6ddbe7f4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:14 +0000
Subject: [PATCH 026/101] fix: sign the message with HashSLH-DSA, not the key

---
 pq_logic/fips/fips205.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pq_logic/fips/fips205.py b/pq_logic/fips/fips205.py
index c1d6ac5..40151ce 100644
--- a/pq_logic/fips/fips205.py
+++ b/pq_logic/fips/fips205.py
@@ -786,7 +786,7 @@ class SLH_DSA:
             return None
 
         mp = integer_to_bytes(1, 1) + integer_to_bytes(len(ctx), 1) + ctx + oid + phm
-        sig = self.slh_sign_internal(sk, mp, rnd)
+        sig = self.slh_sign_internal(mp, sk, rnd)
         return sig
 
     #   XXX Note 2024-11-09: Not covered by test vectors.
-- 
2.43.0


From b681616542249dc1a27ae60e90f31b4679fb1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:01 +0000
Subject: [PATCH 027/101] fix: refuse composite signatures under the algorithm
 identifier of another combination

---
 resources/protectionutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 4edac01..214465d 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2652,6 +2652,7 @@ def verify_signature_with_alg_id(  # noqa: D417 Missing argument descriptions in
     if oid in COMPOSITE_SIG_OID_TO_NAME:
         if not isinstance(public_key, CompositeSigPublicKey):
             raise TypeError(f"The public key must be a CompositeSigPublicKey. Got: {keyutils.get_key_name(public_key)}")
+        keyutils.check_consistency_sig_alg_id_and_key(alg_id, public_key)
         name = COMPOSITE_SIG_OID_TO_NAME[oid]
         use_pss = name.endswith("-pss")
         logging.debug("Verifying composite signature with name: %s", name)
-- 
2.43.0


From e5eb9fecf121422874e494450056a7a8dff29e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:47:05 +0000
Subject: [PATCH 028/101] fix: refuse X-Wing ciphertexts of wrong length

---
 pq_logic/keys/xwing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pq_logic/keys/xwing.py b/pq_logic/keys/xwing.py
index 0c79170..8231b9d 100644
--- a/pq_logic/keys/xwing.py
+++ b/pq_logic/keys/xwing.py
@@ -243,6 +243,9 @@ class XWingPrivateKey(AbstractHybridRawPrivateKey):
         :param ct: The ciphertext to decapsulate the shared secret from.
         :return: The shared secret.
         """
+        if len(ct) != 1120:
+            raise ValueError(f"The X-Wing ciphertext must be 1120 bytes, but got: {len(ct)}.")
+
         ct_M = ct[:1088]
         ct_X = ct[1088:1120]
         ss_M = self.pq_key.decaps(ct_M)
-- 
2.43.0


From 3a7e1bd69b5b39cd23a21bf1c99c5d02df571bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:08 +0000
Subject: [PATCH 029/101] fix: refuse encoded keys with trailing data

---
 pq_logic/combined_factory.py        | 8 ++++++--
 pq_logic/keys/hybrid_key_factory.py | 6 ++++--
 pq_logic/keys/pq_key_factory.py     | 4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pq_logic/combined_factory.py b/pq_logic/combined_factory.py
index 8ea6fc7..8d5ecbf 100644
--- a/pq_logic/combined_factory.py
+++ b/pq_logic/combined_factory.py
@@ -358,7 +358,9 @@ class CombinedKeyFactory:
         :return: The loaded public key.
         """
         if isinstance(spki, bytes):
-            spki = try_decode_pyasn1(spki, rfc5280.SubjectPublicKeyInfo())[0]  # type: ignore
+            spki, rest = try_decode_pyasn1(spki, rfc5280.SubjectPublicKeyInfo())  # type: ignore
+            if rest:
+                raise BadAsn1Data("SubjectPublicKeyInfo", remainder=rest)
 
         spki: rfc5280.SubjectPublicKeyInfo
 
@@ -560,7 +562,9 @@ class CombinedKeyFactory:
         :raises MismatchingKey: If the private key does not match the public key.
         """
         if isinstance(data, bytes):
-            one_asym_key, _ = decoder.decode(data, asn1Spec=rfc5958.OneAsymmetricKey())
+            one_asym_key, rest = decoder.decode(data, asn1Spec=rfc5958.OneAsymmetricKey())
+            if rest:
+                raise BadAsn1Data("OneAsymmetricKey", remainder=rest)
         else:
             one_asym_key = data
 
diff --git a/pq_logic/keys/hybrid_key_factory.py b/pq_logic/keys/hybrid_key_factory.py
index 7ccd16d..52f54c3 100644
--- a/pq_logic/keys/hybrid_key_factory.py
+++ b/pq_logic/keys/hybrid_key_factory.py
@@ -27,7 +27,7 @@ from pq_logic.keys.trad_kem_keys import DHKEMPrivateKey, RSADecapKey
 from pq_logic.keys.trad_key_factory import generate_trad_key
 from pq_logic.keys.xwing import XWingPrivateKey
 from pq_logic.tmp_oids import CHEMPAT_OID_2_NAME
-from resources.exceptions import BadAlg, InvalidKeyCombination, InvalidKeyData, MismatchingKey
+from resources.exceptions import BadAlg, BadAsn1Data, InvalidKeyCombination, InvalidKeyData, MismatchingKey
 from resources.oid_mapping import KEY_CLASS_MAPPING, may_return_oid_to_name
 from resources.oidutils import (
     ALL_COMPOSITE_SIG_COMBINATIONS,
@@ -437,7 +437,9 @@ class HybridKeyFactory:
         :raises InvalidKeyData: If the key data is invalid.
         """
         if isinstance(one_asym_key, bytes):
-            one_asym_key = decoder.decode(one_asym_key, asn1Spec=rfc5958.OneAsymmetricKey())[0]
+            one_asym_key, rest = decoder.decode(one_asym_key, asn1Spec=rfc5958.OneAsymmetricKey())
+            if rest:
+                raise BadAsn1Data("OneAsymmetricKey", remainder=rest)
 
         one_asym_key: rfc5958.OneAsymmetricKey
         oid = one_asym_key["privateKeyAlgorithm"]["algorithm"]
diff --git a/pq_logic/keys/pq_key_factory.py b/pq_logic/keys/pq_key_factory.py
index d17b3fe..d122d8d 100644
--- a/pq_logic/keys/pq_key_factory.py
+++ b/pq_logic/keys/pq_key_factory.py
@@ -557,7 +557,9 @@ class PQKeyFactory(AbstractKeyFactory):
         match the raw bytes.
         """
         if isinstance(one_asym_key, bytes):
-            one_asym_key = decoder.decode(one_asym_key, asn1Spec=rfc5958.OneAsymmetricKey())[0]  # type: ignore
+            one_asym_key, rest = decoder.decode(one_asym_key, asn1Spec=rfc5958.OneAsymmetricKey())  # type: ignore
+            if rest:
+                raise BadAsn1Data("OneAsymmetricKey", remainder=rest)
 
         one_asym_key: rfc5958.OneAsymmetricKey
 
-- 
2.43.0


From da587c9ce6432a9c8997c63c636f1ab9317aea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:23 +0000
Subject: [PATCH 030/101] fix: refuse ML-KEM and ML-DSA keys whose seed and
 expanded key differ

---
 pq_logic/keys/kem_keys.py       | 2 +-
 pq_logic/keys/pq_key_factory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pq_logic/keys/kem_keys.py b/pq_logic/keys/kem_keys.py
index 7edd610..675fda2 100644
--- a/pq_logic/keys/kem_keys.py
+++ b/pq_logic/keys/kem_keys.py
@@ -216,7 +216,7 @@ class MLKEMPrivateKey(PQKEMPrivateKey):
             # The first 64 bytes are the seed, the rest is the private key
             seed = data[:64]
             private_key = data[64:]
-            key = cls(alg_name=name, private_bytes=private_key, seed=seed)
+            key = cls.from_seed(alg_name=name, seed=seed)
             if key.private_bytes_raw() != private_key:
                 raise InvalidKeyData("Invalid private key data the key does not match the provided seed.")
 
diff --git a/pq_logic/keys/pq_key_factory.py b/pq_logic/keys/pq_key_factory.py
index d122d8d..601d5e9 100644
--- a/pq_logic/keys/pq_key_factory.py
+++ b/pq_logic/keys/pq_key_factory.py
@@ -252,7 +252,7 @@ class PQKeyFactory(AbstractKeyFactory):
             key = class_name.from_private_bytes(name=name, data=seed)
             key2 = class_name.from_private_bytes(name=name, data=raw_bytes)
 
-            if key != key2:
+            if key.private_bytes_raw() != key2.private_bytes_raw():
                 raise MismatchingKey(f"{name} private key does not match the seed and raw bytes.")
 
         elif seed is not None:
-- 
2.43.0


From 525eeaaa67cdc9c7293c0b4d21460d96f4ed3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:47 +0000
Subject: [PATCH 031/101] fix: check the public key hash inside expanded ML-KEM
 keys

---
 pq_logic/keys/kem_keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pq_logic/keys/kem_keys.py b/pq_logic/keys/kem_keys.py
index 675fda2..fea36fd 100644
--- a/pq_logic/keys/kem_keys.py
+++ b/pq_logic/keys/kem_keys.py
@@ -21,6 +21,7 @@ and format.
 - `_check_name(name: str)`: Validate the provided algorithm name.
 """
 
+import hashlib
 import importlib.util
 import logging
 import os
@@ -221,7 +222,9 @@ class MLKEMPrivateKey(PQKEMPrivateKey):
                 raise InvalidKeyData("Invalid private key data the key does not match the provided seed.")
 
         elif len(data) == key_size:
-            # The data is the private key
+            # The data is the private key, which contains the hash of its public key (FIPS 203, section 7.3).
+            if hashlib.sha3_256(data[(key_size - 96) // 2 : -64]).digest() != data[-64:-32]:
+                raise InvalidKeyData("The hash of the public key inside the private key is wrong.")
             key = cls(alg_name=name, private_bytes=data)
         else:
             raise InvalidKeyData(f"Invalid key size expected {key_size}, but got: {len(data)}")
-- 
2.43.0


From 647836597a5c5f2aec5927569c50faae0150cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:25:47 +0000
Subject: [PATCH 032/101] fix: check the length and the seed of FrodoKEM keys

---
 pq_logic/keys/kem_keys.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pq_logic/keys/kem_keys.py b/pq_logic/keys/kem_keys.py
index fea36fd..3d178dc 100644
--- a/pq_logic/keys/kem_keys.py
+++ b/pq_logic/keys/kem_keys.py
@@ -478,8 +478,10 @@ class FrodoKEMPublicKey(PQKEMPublicKey):
         """Load an ML-KEM public key from raw bytes."""
         if oqs is not None:
             return super().from_public_bytes(data, name)  # type: ignore
-        else:
-            return cls(alg_name=name, public_key=data)
+        key = cls(alg_name=name, public_key=data)
+        if len(data) != key.key_size:
+            raise InvalidKeyData(f"Invalid public key size for {name}. Expected {key.key_size}, got {len(data)}.")
+        return key
 
     @property
     def key_size(self) -> int:
@@ -646,6 +648,17 @@ class FrodoKEMPrivateKey(PQKEMPrivateKey):
         if cls._seed_size(name) == len(data):
             # If the data is a seed, create a key from it
             return cls.from_seed(alg_name=name, seed=data)
+
+        key_size = FrodoKEM(cls._check_name(name)[1]).len_sk_bytes
+        if len(data) == cls._seed_size(name) + key_size:
+            # The data is the seed followed by the private key.
+            key = cls.from_seed(alg_name=name, seed=data[:-key_size])
+            if key.private_bytes_raw() != data[-key_size:]:
+                raise InvalidKeyData(f"The {name} private key does not match the seed.")
+            return key
+
+        if len(data) != key_size:
+            raise InvalidKeyData(f"Invalid private key size for {name}. Expected {key_size}, got {len(data)}.")
         if oqs is not None:
             return super().from_private_bytes(data, name)  # type: ignore
         return cls(alg_name=name, private_bytes=data)  # type: ignore
-- 
2.43.0


From d9701683cf63e9a85cb1d2a77a4b31145962f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:26:16 +0000
Subject: [PATCH 033/101] fix: refuse Chempat keys with a cut private or
 another public component

---
 pq_logic/keys/hybrid_key_factory.py | 5 +++--
 pq_logic/keys/trad_kem_keys.py      | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pq_logic/keys/hybrid_key_factory.py b/pq_logic/keys/hybrid_key_factory.py
index 52f54c3..265c251 100644
--- a/pq_logic/keys/hybrid_key_factory.py
+++ b/pq_logic/keys/hybrid_key_factory.py
@@ -468,10 +468,11 @@ class HybridKeyFactory:
 
             if public_bytes is not None:
                 public_key = ChempatPublicKey.from_public_bytes(data=public_bytes, name=name)
-                # Currently does OQS not support the derivation of the public key from the private key.
+                # Currently does OQS not support the derivation of the McEliece public key from the private key.
                 # Therefore, we need to set the public key bytes manually.
                 # If the seed derivation is implemented, this part can be removed.
-                private_key.pq_key._public_key_bytes = public_key.pq_key._public_key_bytes  # pylint: disable=protected-access
+                if private_key.pq_key.name.startswith("mceliece"):
+                    private_key.pq_key._public_key_bytes = public_key.pq_key._public_key_bytes  # pylint: disable=protected-access
                 if public_key.public_bytes_raw() != private_key.public_key().public_bytes_raw():
                     raise MismatchingKey("Public key does not match the private key.")
             return private_key
diff --git a/pq_logic/keys/trad_kem_keys.py b/pq_logic/keys/trad_kem_keys.py
index 864abe6..b8f3a00 100644
--- a/pq_logic/keys/trad_kem_keys.py
+++ b/pq_logic/keys/trad_kem_keys.py
@@ -533,6 +533,9 @@ class DHKEMPrivateKey(TradKEMPrivateKey):
             if curve is None:
                 raise ValueError("Curve name must be provided for ECDH keys.")
             curve_inst = get_curve_instance(curve)
+            # `encode` writes as many bytes as the curve has bits.
+            if len(data) not in [curve_inst.key_size, (curve_inst.key_size + 7) // 8]:
+                raise ValueError(f"Invalid private key length for {curve}, got: {len(data)} bytes.")
             trad_key = cls._ec_key_from_der(data, curve_inst)
 
         return cls(trad_key)
-- 
2.43.0


From 1607fff60f91746b3da383d9e9bdcd675ef5f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:26:17 +0000
Subject: [PATCH 034/101] fix: check parameters, empty public keys and the
 length of PQ private keys

---
 pq_logic/keys/pq_key_factory.py    | 3 ++-
 pq_logic/keys/stateful_sig_keys.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pq_logic/keys/pq_key_factory.py b/pq_logic/keys/pq_key_factory.py
index 601d5e9..0112181 100644
--- a/pq_logic/keys/pq_key_factory.py
+++ b/pq_logic/keys/pq_key_factory.py
@@ -83,7 +83,7 @@ def _load_and_validate(
     """
     key = private_cls.from_private_bytes(data=private_bytes, name=name)  # type: ignore
 
-    if public_bytes:
+    if public_bytes is not None:
         pub = key.public_key().from_public_bytes(data=public_bytes, name=name)
 
         if key.public_key() != pub:
@@ -581,6 +581,7 @@ class PQKeyFactory(AbstractKeyFactory):
             _name = may_return_oid_to_name(oid)
             raise KeyError(f"Unrecognized PQ algorithm identifier: {_name}:{oid}")
 
+        PQKeyFactory.validate_alg_id(one_asym_key["privateKeyAlgorithm"])
         name = PQ_OID_2_NAME[oid]
 
         try:
diff --git a/pq_logic/keys/stateful_sig_keys.py b/pq_logic/keys/stateful_sig_keys.py
index 816efed..c4e22b8 100644
--- a/pq_logic/keys/stateful_sig_keys.py
+++ b/pq_logic/keys/stateful_sig_keys.py
@@ -1183,6 +1183,8 @@ class HSSPrivateKey(PQHashStatefulSigPrivateKey):
     def from_private_bytes(cls, data: bytes) -> "HSSPrivateKey":
         """Load an HSS private key from its serialized byte representation."""
         hss = pyhsslms.HssPrivateKey.deserialize(data)
+        if hss.serialize() != data:
+            raise InvalidKeyData("The HSS private key has missing or trailing bytes.")
         name = build_hss_name_from_codes(hss.prv[0].lms_type, hss.prv[0].lmots_type)
         return cls(name, private_bytes=data, levels=hss.levels)
 
-- 
2.43.0


From d59f0d731b4fcfb8192f86ee076c8fe2119636d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:04 +0000
Subject: [PATCH 035/101] fix: check the RSA key size of composite signature
 public keys

---
 pq_logic/combined_factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pq_logic/combined_factory.py b/pq_logic/combined_factory.py
index 8d5ecbf..b1090a0 100644
--- a/pq_logic/combined_factory.py
+++ b/pq_logic/combined_factory.py
@@ -1024,6 +1024,11 @@ class CombinedKeyFactory:
         except ValueError as e:
             raise InvalidKeyData(f"Failed to load public key for {algorithm}: {e}") from e
 
+        if trad_name.startswith("rsa"):
+            num = int(trad_name.replace("rsa", "").replace("-pss", ""))
+            if not isinstance(trad_key, rsa.RSAPublicKey) or trad_key.key_size != num:
+                raise InvalidKeyData(f"Expected an RSA public key of {num} bits for {algorithm}.")
+
         if not isinstance(pq_key, MLDSAPublicKey):
             raise InvalidKeyData(f"Expected ML-DSA public key for {algorithm}, got: {type(pq_key)}")
 
-- 
2.43.0


From 639110f4f3232266a90ff3732a5be5afee2d42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:43 +0000
Subject: [PATCH 036/101] fix: RSA-KEM envelopes use a shared secret of the key
 wrap length

---
 pq_logic/pq_utils.py      | 3 ++-
 resources/envdatautils.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pq_logic/pq_utils.py b/pq_logic/pq_utils.py
index b8b5466..fc55af2 100644
--- a/pq_logic/pq_utils.py
+++ b/pq_logic/pq_utils.py
@@ -13,6 +13,7 @@ from robot.api.deco import not_keyword
 
 from pq_logic.keys.abstract_pq import PQKEMPrivateKey, PQKEMPublicKey
 from pq_logic.keys.abstract_wrapper_keys import HybridKEMPrivateKey, HybridKEMPublicKey, KEMPrivateKey, KEMPublicKey
+from pq_logic.keys.trad_kem_keys import RSADecapKey, RSAEncapKey
 from resources.oidutils import KEM_NAME_2_OID
 
 
@@ -25,7 +26,7 @@ def get_kem_oid_from_key(
     :param key: The key to get the Object Identifier from.
     :return: The Object Identifier.
     """
-    if isinstance(key, (rsa.RSAPublicKey, rsa.RSAPrivateKey)):
+    if isinstance(key, (rsa.RSAPublicKey, rsa.RSAPrivateKey, RSAEncapKey, RSADecapKey)):
         return rfc5990.id_kem_rsa
 
     if isinstance(key, (PQKEMPublicKey, PQKEMPrivateKey)):
diff --git a/resources/envdatautils.py b/resources/envdatautils.py
index b560ef4..ad79e24 100644
--- a/resources/envdatautils.py
+++ b/resources/envdatautils.py
@@ -37,6 +37,7 @@ from pq_logic.keys.abstract_stateful_hash_sig import PQHashStatefulSigPrivateKey
 from pq_logic.keys.abstract_wrapper_keys import HybridKEMPublicKey, KEMPublicKey
 from pq_logic.keys.composite_kem import CompositeKEMPublicKey
 from pq_logic.keys.composite_sig import CompositeSigPrivateKey, CompositeSigPublicKey
+from pq_logic.keys.trad_kem_keys import RSAEncapKey
 from pq_logic.pq_utils import get_kem_oid_from_key, is_kem_public_key
 from pq_logic.tmp_oids import COMPOSITE_SIG_PREHASH_OID_2_HASH
 from resources import (
@@ -1455,6 +1456,7 @@ def _handle_kem_encapsulation(
     hybrid_key_recip: Optional[ECDHPrivateKey],
     kem_recip_info: rfc9629.KEMRecipientInfo,
     kem_oid: Optional[univ.ObjectIdentifier] = None,
+    kek_length: int = 32,
 ):
     """Perform the KEM encapsulation."""
     if public_key_recip:
@@ -1471,6 +1473,9 @@ def _handle_kem_encapsulation(
 
     if isinstance(kem_pub_key, CompositeKEMPublicKey):
         shared_secret, kemct = kem_pub_key.encaps(private_key=hybrid_key_recip, use_in_cms=True)
+    elif isinstance(kem_pub_key, RSAEncapKey):
+        # As of RFC 9690 is the shared secret as long as the key encryption key.
+        shared_secret, kemct = kem_pub_key.encaps(use_oaep=False, ss_length=kek_length)
     elif hybrid_key_recip is None:
         shared_secret, kemct = kem_pub_key.encaps()
     elif isinstance(kem_pub_key, HybridKEMPublicKey):
@@ -1587,6 +1592,7 @@ def prepare_kem_recip_info(  # noqa D417 undocumented-param
             hybrid_key_recip=hybrid_key_recip,
             kem_recip_info=kem_recip_info,
             kem_oid=kem_oid,
+            kek_length=kek_length,
         )
 
     if kemct is None and recip_cert is None and public_key_recip is None:
-- 
2.43.0


From e3f8c4d1b8445670f98a35dabc2ab2bbbe3ac48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:43 +0000
Subject: [PATCH 037/101] fix: One-pass MQV shared secrets have a fixed length

---
 resources/cryptoutils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index f21652a..c892923 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -14,7 +14,6 @@ and password-based key derivation (PBKDF2).
 """
 
 import logging
-import math
 import os
 from typing import Optional, Tuple, Union
 
@@ -975,7 +974,7 @@ def perform_static_dh(
 def avf(point: Point) -> int:
     """Compute the affine value of a point P on the elliptic curve."""
     n = point.curve.field.n
-    length = math.ceil((math.floor(math.log2(n)) + 1) / 2)
+    length = (n.bit_length() + 1) // 2
     return (point.x % (2**length)) + (2**length)
 
 
@@ -1008,8 +1007,9 @@ def compute_sender_ecdh_mqv_one_pass_exchange(
     if isinstance(point, Inf):
         raise ValueError("Computed point is at infinity.")
 
-    z = point.x
-    return z.to_bytes((z.bit_length() + 7) // 8, byteorder="big")
+    # As of SEC 1 is the x-coordinate a field element of fixed length.
+    field_length = (point.curve.field.p.bit_length() + 7) // 8
+    return point.x.to_bytes(field_length, byteorder="big")
 
 
 @not_keyword
@@ -1123,5 +1123,6 @@ def compute_recipient_ecdh_mqv_one_pass_exchange(
     if isinstance(point, Inf):
         raise ValueError("Computed point is at infinity.")
 
-    z = point.x
-    return z.to_bytes((z.bit_length() + 7) // 8, byteorder="big")
+    # As of SEC 1 is the x-coordinate a field element of fixed length.
+    field_length = (point.curve.field.p.bit_length() + 7) // 8
+    return point.x.to_bytes(field_length, byteorder="big")
-- 
2.43.0


From 998b8cb7a3e3be6474f03a4281d2b8dd8d2f99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:56 +0000
Subject: [PATCH 038/101] fix: RSA-OAEP parameters carry the MGF1 hash as an
 AlgorithmIdentifier

---
 resources/envdatautils.py    |  2 +-
 resources/protectionutils.py | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/resources/envdatautils.py b/resources/envdatautils.py
index ad79e24..aee061a 100644
--- a/resources/envdatautils.py
+++ b/resources/envdatautils.py
@@ -742,7 +742,7 @@ def _get_rsa_kari_alg_id(use_rsa_oaep: bool) -> rfc5652.KeyEncryptionAlgorithmId
     oaep_params = rfc4055.RSAES_OAEP_params()
     oaep_params["hashFunc"]["algorithm"] = rfc4055.id_sha384
     oaep_params["maskGenFunc"]["algorithm"] = rfc4055.id_mgf1
-    oaep_params["maskGenFunc"]["parameters"] = encoder.encode(rfc4055.id_sha256)
+    oaep_params["maskGenFunc"]["parameters"] = encoder.encode(rfc4055.sha256Identifier)
 
     key_enc_alg_oaep["algorithm"] = rfc4055.id_RSAES_OAEP
     key_enc_alg_oaep["parameters"] = oaep_params
diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 214465d..01efad6 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -2410,11 +2410,21 @@ def get_rsa_oaep_padding(param: rfc4055.RSAES_OAEP_params) -> padding.OAEP:
     hash_name = get_hash_from_oid(param["hashFunc"]["algorithm"])
     hash_fun = hash_name_to_instance(hash_name)  # type: ignore
 
-    data = param["maskGenFunc"]["parameters"]
-    oid, rest = decoder.decode(data, univ.ObjectIdentifier())
+    if param["maskGenFunc"]["algorithm"] != rfc4055.id_mgf1:
+        raise BadAlg("The mask generation function must be MGF1.")
+
+    # As of RFC 4055 Section 2.1 are the MGF1 parameters an `AlgorithmIdentifier`,
+    # a bare OID is still accepted.
+    data, rest = decoder.decode(param["maskGenFunc"]["parameters"])
     if rest != b"":
         raise BadAsn1Data("MGF1 parameters")
 
+    if isinstance(data, univ.ObjectIdentifier):
+        oid = data
+    else:
+        alg_id, _ = decoder.decode(param["maskGenFunc"]["parameters"], rfc9480.AlgorithmIdentifier())
+        oid = alg_id["algorithm"]
+
     mgf_hash_alg = hash_name_to_instance(get_hash_from_oid(oid))  # type: ignore
 
     if param["pSourceFunc"].isValue:
-- 
2.43.0


From 77d482540a7d012ca187f8ce34b28a77e3659429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:56 +0000
Subject: [PATCH 039/101] fix: Password recipients name the key wrap algorithm
 of their key

---
 resources/envdatautils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/resources/envdatautils.py b/resources/envdatautils.py
index aee061a..37b48ea 100644
--- a/resources/envdatautils.py
+++ b/resources/envdatautils.py
@@ -2107,10 +2107,9 @@ def prepare_password_recipient_info(  # noqa D417 undocumented-param
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0), cloneValueFlag=True
         )
 
-    if params.get("aes_wrap"):
-        pwri["keyEncryptionAlgorithm"] = _prepare_aes_warp_alg_id(params.get("wrap_name"), len(cek))
-
-    pwri["keyEncryptionAlgorithm"]["algorithm"] = rfc9481.id_aes256_wrap
+    # The length of the derived key determines the key wrap algorithm.
+    kek_length = int(params.get("key_length", 32))
+    pwri["keyEncryptionAlgorithm"] = _prepare_aes_warp_alg_id(params.get("wrap_name"), kek_length)
 
     if bad_encrypted_key:
         encrypted_key = utils.manipulate_first_byte(encrypted_key)
-- 
2.43.0


From c1f7c23c46c9a68cd07919c156719978535fee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:56 +0000
Subject: [PATCH 040/101] fix: validate_enveloped_data uses the recipient index
 it was given

---
 resources/ca_kga_logic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 1f496ed..65ba020 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1028,7 +1028,8 @@ def validate_enveloped_data(
         password,
         ee_key,
         cmp_protection_cert,
-        expected_size=expected_size,
+        recip_index=int(recip_info_index),
+        expected_size=int(expected_size),
         for_pop=for_pop,
         allow_rsa_null=allow_rsa_null,
         kari_cert=kari_cert,
-- 
2.43.0


From ed1f068a510e07aa5972a38055d489bf723226ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:56 +0000
Subject: [PATCH 041/101] fix: Key agreement refuses the algorithm of another
 curve

---
 resources/ca_kga_logic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 65ba020..15d0c31 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -180,6 +180,10 @@ def process_kari(
     if alg_id["algorithm"] in {rfc9481.id_X25519, rfc9481.id_X448, rfc9481.id_alg_ESDH}:
         name = KM_KA_ALG[alg_id["algorithm"]]
 
+        expected_types = {rfc9481.id_X25519: X25519PrivateKey, rfc9481.id_X448: X448PrivateKey}
+        if not isinstance(private_key, expected_types.get(alg_id["algorithm"], object)):
+            raise BadAlg(f"The key agreement algorithm `{name}` does not match the private key.")
+
         # TODO: Fix hash algorithm, it is server-specific.
         k = cryptoutils.perform_static_dh(
             private_key=private_key,
-- 
2.43.0


From 735cecfe3efe97226f7f3cadd24343f1937e764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:56 +0000
Subject: [PATCH 042/101] fix: The KGA certificate may be anywhere in the DER
 ordered CertificateSet

---
 resources/ca_kga_logic.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 15d0c31..9366d2a 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1127,13 +1127,12 @@ def get_certificates_from_signed_data(certificates: rfc5652.CertificateSet) -> L
     if len(certs) <= 1:
         return certs
 
-    # Attempt to build the correct certificate chain
-    cert_chain1 = certutils.build_chain_from_list(certs[0], certs[1:])
-    cert_chain2 = certutils.build_chain_from_list(certs[-1], certs[:-1])
-    if len(cert_chain1) > len(cert_chain2):
-        out_chain = cert_chain1
-    else:
-        out_chain = cert_chain2
+    # Attempt to build the correct certificate chain, a `CertificateSet` is in DER order,
+    # so that the KGA certificate may be at any position.
+    chains = [
+        certutils.build_chain_from_list(cert, certs[:index] + certs[index + 1 :]) for index, cert in enumerate(certs)
+    ]
+    out_chain = max(chains, key=len)
 
     if len(out_chain) != len(certs):
         logging.info("The certificate chain names:\n %s", utils.get_cert_chain_names(out_chain))
-- 
2.43.0


From 0cba0b3588320932c918509345e564d479fd0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:56 +0000
Subject: [PATCH 043/101] fix: MessageDigest attributes must not have trailing
 data

---
 resources/ca_kga_logic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 9366d2a..841edec 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1471,7 +1471,9 @@ def validate_signed_attributes(sign_attr: rfc5652.SignedAttributes, expected_dig
                 raise ValueError("The `id-messageDigest` `attrValues` must contain exactly one value!")
 
             val = attr["attrValues"][index]
-            message_digest_value, _ = decoder.decode(val, rfc5652.MessageDigest())
+            message_digest_value, rest = decoder.decode(val, rfc5652.MessageDigest())
+            if rest:
+                raise BadAsn1Data("MessageDigest", remainder=rest)
 
     if message_digest_value is None:
         raise ValueError("The `id-messageDigest` attribute was not found in the `SignedAttributes` structure!")
-- 
2.43.0


From 43c1b08d8c5c738b60b4e59f2e99e5a2ac2030f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:10 +0000
Subject: [PATCH 044/101] fix: check one-time indices of revocation requests

---
 mock_ca/ca_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 89f61b1..97a9c2b 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -758,6 +758,7 @@ class CAHandler:
             elif pki_message["body"].getName() == "rr":
                 try:
                     self.cert_req_handler.validate_header(pki_message, must_be_protected=True)
+                    self.stfl_validator.validate_pq_stateful_pki_message(pki_message)
                     response = self.process_rr(pki_message)
                 except (BadMessageCheck, BadKeyUsage, BodyRelevantError) as e:
                     response = self.rev_handler.build_rp_error_response(request=pki_message, exception=e)
-- 
2.43.0


From e268984d5ff544890115513757d2ec9775d0a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:51:10 +0000
Subject: [PATCH 045/101] fix: one-time indices belong to the stateful key,
 also in the proof-of-possession

---
 mock_ca/cert_req_handler.py |  3 +++
 mock_ca/operation_dbs.py    | 18 +++++++++++--
 mock_ca/stfl_validator.py   | 50 ++++++++++++++++++++++++++++++++++---
 3 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 53da0d2..8b92038 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -688,6 +688,9 @@ class CertReqHandler:
 
             validate_cert_req_id_nums(pki_message)
 
+            if self.stfl_validator is not None:
+                self.stfl_validator.validate_popo_indices(pki_message)
+
             if msg_type == "ir":
                 response = self.process_ir(pki_message, verify_ra_verified=verify_ra_verified)
             elif msg_type == "cr":
diff --git a/mock_ca/operation_dbs.py b/mock_ca/operation_dbs.py
index ef30ad3..2efed43 100644
--- a/mock_ca/operation_dbs.py
+++ b/mock_ca/operation_dbs.py
@@ -10,7 +10,7 @@ from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey
 from cryptography.hazmat.primitives.asymmetric.rsa import RSAPrivateKey
 from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey
 from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
-from pyasn1_alt_modules import rfc9480
+from pyasn1_alt_modules import rfc5280, rfc9480
 
 from pq_logic.keys.abstract_pq import PQSignaturePrivateKey
 from pq_logic.keys.abstract_wrapper_keys import HybridKEMPrivateKey
@@ -458,6 +458,16 @@ class StatefulSigState:
 
     used_indices: Dict[bytes, StatefulSigKeyState] = field(default_factory=dict)
     hash_alg: str = "sha256"
+    key_states: Dict[bytes, StatefulSigKeyState] = field(default_factory=dict)
+
+    def get_key_state(self, spki: rfc5280.SubjectPublicKeyInfo) -> StatefulSigKeyState:
+        """Get the state of a public key, which all certificates for this key share.
+
+        :param spki: The `SubjectPublicKeyInfo` structure of the key.
+        :return: The state of the key.
+        """
+        hashed_key = compute_hash(self.hash_alg, spki["subjectPublicKey"].asOctets())
+        return self.key_states.setdefault(hashed_key, StatefulSigKeyState())
 
     def add_state(self, cert: rfc9480.CMPCertificate, state: Optional[StatefulSigKeyState] = None) -> None:
         """Add a state for a given certificate."""
@@ -465,7 +475,11 @@ class StatefulSigState:
         hashed_cert = compute_hash(self.hash_alg, der_data)
         if hashed_cert in self.used_indices:
             raise BadRequest("State for this certificate already exists.")
-        self.used_indices[hashed_cert] = state or StatefulSigKeyState(used_indices=[0])
+        key_state = self.get_key_state(cert["tbsCertificate"]["subjectPublicKeyInfo"])
+        for index in (state or StatefulSigKeyState(used_indices=[0])).used_indices:
+            if not key_state.contains_used_index(index):
+                key_state.add_used_index(index)
+        self.used_indices[hashed_cert] = key_state
 
     def get_state(self, cert: rfc9480.CMPCertificate) -> Optional[StatefulSigKeyState]:
         """Get the state for a given certificate."""
diff --git a/mock_ca/stfl_validator.py b/mock_ca/stfl_validator.py
index 270a44f..4b23c4f 100644
--- a/mock_ca/stfl_validator.py
+++ b/mock_ca/stfl_validator.py
@@ -5,9 +5,10 @@
 """Mock CA Stateful Signature PKIMessage Validator."""
 
 import logging
-from typing import List, Optional
+from typing import List, Optional, Tuple
 
-from pyasn1_alt_modules import rfc6402, rfc9480
+from cryptography.exceptions import InvalidSignature
+from pyasn1_alt_modules import rfc5280, rfc6402, rfc9480
 
 from mock_ca.mock_fun import PQStatefulSigKeyConfig
 from mock_ca.operation_dbs import StatefulSigKeyState, StatefulSigState
@@ -17,7 +18,7 @@ from resources.asn1_structures import PKIMessageTMP
 from resources.ca_ra_utils import get_cert_template_from_pkimessage, get_popo_from_pkimessage
 from resources.certutils import load_public_key_from_cert
 from resources.cmputils import get_cmp_message_type
-from resources.exceptions import BadMessageCheck, BadRequest, InvalidKeyData
+from resources.exceptions import BadMessageCheck, BadPOP, BadRequest, InvalidKeyData
 from resources.keyutils import get_pq_stateful_sig_index_from_sig, load_public_key_from_spki
 from resources.oidutils import PQ_STATEFUL_HASH_SIG_OID_2_NAME
 from resources.suiteenums import ProtectedType
@@ -108,6 +109,49 @@ class STFLPKIMessageValidator:
         if self.pq_stateful_cfg.saved_bad_message_check_stfl_key:
             state.add_used_index(index)
 
+    @staticmethod
+    def _get_popo_signatures(request: PKIMessageTMP) -> List[Tuple[rfc5280.SubjectPublicKeyInfo, bytes]]:
+        """Get the public keys and the proof-of-possession signatures of a request."""
+        if request["body"].getName() == "p10cr":
+            csr = request["body"]["p10cr"]
+            return [(csr["certificationRequestInfo"]["subjectPublicKeyInfo"], csr["signature"].asOctets())]
+
+        out = []
+        for entry in request["body"][request["body"].getName()]:
+            if entry["popo"].isValue and entry["popo"].getName() == "signature":
+                spki = entry["certReq"]["certTemplate"]["publicKey"]
+                out.append((spki, entry["popo"]["signature"]["signature"].asOctets()))
+        return out
+
+    def validate_popo_indices(self, request: PKIMessageTMP) -> None:
+        """Check that no proof-of-possession uses an index, which was already used.
+
+        :param request: The certificate request.
+        :raises BadPOP: If an index was already used.
+        """
+        used = []
+        for spki, signature in self._get_popo_signatures(request):
+            if not spki.isValue or spki["algorithm"]["algorithm"] not in PQ_STATEFUL_HASH_SIG_OID_2_NAME:
+                continue
+
+            public_key = load_public_key_from_spki(spki)
+            try:
+                index = get_pq_stateful_sig_index_from_sig(signature, public_key)  # type: ignore[arg-type]
+            except (ValueError, InvalidSignature) as e:
+                raise BadPOP("The Stateful signature of the Proof-of-Possession is malformed.") from e
+
+            state = self._stfl_state.get_key_state(spki)
+            if state.contains_used_index(index) or any(x is state and y == index for x, y in used):
+                raise BadPOP(
+                    "The signature in the Proof-of-Possession has already been used. "
+                    "Stateful signatures must not be reused."
+                )
+            used.append((state, index))
+
+        if self.pq_stateful_cfg.saved_bad_message_check_stfl_key:
+            for state, index in used:
+                state.add_used_index(index)
+
     def _get_popo_sig(self, request: PKIMessageTMP, index: int) -> Optional[StatefulSigKeyState]:
         """Get the POPO signature state for a given request index."""
         body_name = request["body"].getName()
-- 
2.43.0


From a4b72a2c3f5de8bfd3fa8dd50cb8dd62f891a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:38 +0000
Subject: [PATCH 046/101] fix: no second challenge while one is pending

---
 mock_ca/challenge_handler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mock_ca/challenge_handler.py b/mock_ca/challenge_handler.py
index f6c5dcf..377077a 100644
--- a/mock_ca/challenge_handler.py
+++ b/mock_ca/challenge_handler.py
@@ -110,7 +110,6 @@ class ChallengeHandler:
         ca_key = self._get_ca_key(request)
         response, num = build_popdecc_from_request(
             request=request,
-            challenge=self.challenge,
             rand_int=num,
             ca_key=ca_key,
             expected_size=1,
-- 
2.43.0


From de4c4139977acc7e3f0555237ceec3ef5f7da611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:38 +0000
Subject: [PATCH 047/101] fix: record certificates issued after a challenge

---
 mock_ca/challenge_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mock_ca/challenge_handler.py b/mock_ca/challenge_handler.py
index 377077a..2c4b834 100644
--- a/mock_ca/challenge_handler.py
+++ b/mock_ca/challenge_handler.py
@@ -154,10 +154,11 @@ class ChallengeHandler:
                 f"The challenge response for '{body_name}' is not implemented yet. Got: {body_name}"
             )
 
-        return build_ip_cmp_message(
+        response, _ = build_ip_cmp_message(
             request=request,
             responses=responses,
         )
+        return response, certs
 
     def handle_challenge(
         self, request: PKIMessageTMP
-- 
2.43.0


From 44f5e711bbf081e1b20c24ad45846ff286a90d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:38 +0000
Subject: [PATCH 048/101] fix: add_null for keys that are not composite

---
 resources/keyutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resources/keyutils.py b/resources/keyutils.py
index 04e5f4d..20812b9 100644
--- a/resources/keyutils.py
+++ b/resources/keyutils.py
@@ -1170,6 +1170,9 @@ def prepare_subject_public_key_info(  # noqa D417 undocumented-param
         tmp = spki["subjectPublicKey"].asOctets() + b"\x00\x00"
         spki["subjectPublicKey"] = univ.BitString.fromOctetString(tmp)
 
+    if add_null:
+        spki["algorithm"]["parameters"] = univ.Null("")
+
     if add_params_rand_bytes:
         spki["algorithm"]["parameters"] = univ.BitString.fromOctetString(os.urandom(16))
 
-- 
2.43.0


From 3ed46d4aa4bc9c8245d780d9aefec44538d804c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:38 +0000
Subject: [PATCH 049/101] fix: cert profile appended once

---
 resources/cmputils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 99b8536..c6e7698 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -4150,7 +4150,6 @@ def _prepare_generalinfo(
     if cert_profile is not None:
         cert_profile_obj = rfc9480.InfoTypeAndValue()
         value = CertProfileValueAsn1()
-        value.append(char.UTF8String(cert_profile))
 
         if negative_value:
             # MUST be present in the same size as either `GenMsgContent` or `CertReqMsg`.
-- 
2.43.0


From a5211b42dda8033922d3a63d2ae20860ca4379ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:38 +0000
Subject: [PATCH 050/101] fix: issuer of the old certificate id unchanged

---
 resources/cmputils.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index c6e7698..60591ec 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -563,12 +563,6 @@ def prepare_old_cert_id_control(
     if inc_serial_number:
         ser_num += 1
 
-    if cert is not None:
-        cert_issuer = utils.get_openssl_name_notation(cert["tbsCertificate"]["issuer"])  # type: ignore
-        cert_issuer: Optional[str]
-    else:
-        cert_issuer = None
-
     if bad_issuer and cert is None:
         raise ValueError("A valid certificate must be provided when `bad_issuer` is True.")
 
@@ -578,15 +572,20 @@ def prepare_old_cert_id_control(
             issuer=True,
         )
 
-    if issuer is None and cert_issuer is None:
+    if issuer is None and cert is None:
         raise ValueError("Either a valid certificate or an issuer must be provided.")
 
-    _issuer_name = issuer or cert_issuer  # type: ignore
-    _issuer_name: str
-    issuer_name = prepareutils.prepare_general_name(
-        name_type="directoryName",
-        name_str=_issuer_name,
-    )
+    if issuer is not None:
+        issuer_name = prepareutils.prepare_general_name(
+            name_type="directoryName",
+            name_str=issuer,
+        )
+    else:
+        # The name of the issuer must not be changed, as the order of the attributes matters.
+        issuer_name = prepareutils.prepare_general_name_from_name(
+            name_obj=cert,  # type: ignore
+            extract_subject=False,
+        )
 
     old_cert_id = rfc4211.OldCertId()
     old_cert_id["issuer"] = issuer_name
-- 
2.43.0


From 8e1f9741acc36ac7e71bae7cefe1d8b58718976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:39 +0000
Subject: [PATCH 051/101] fix: compare a raw ML key without seed

---
 pq_logic/keys/pq_key_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pq_logic/keys/pq_key_factory.py b/pq_logic/keys/pq_key_factory.py
index 0112181..7475d6e 100644
--- a/pq_logic/keys/pq_key_factory.py
+++ b/pq_logic/keys/pq_key_factory.py
@@ -866,7 +866,7 @@ class PQKeyFactory(AbstractKeyFactory):
         if got_type != key_type:
             raise InvalidKeyData(f"Invalid key save type. Expected: {key_type}, Got: {got_type}.")
 
-        if seed != private_key.private_numbers() and seed is not None:
+        if seed is not None and seed != private_key.private_numbers():
             raise InvalidKeyData("The private key bytes do not match the private key data, for type `seed`.")
 
         if raw_bytes != private_key.private_bytes_raw() and raw_bytes is not None:
-- 
2.43.0


From 31865d6a0392533847c86b78fcca98dc65f94910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:39 +0000
Subject: [PATCH 052/101] fix: invalid private keys can be made

---
 pq_logic/keys/pq_key_factory.py   | 14 ++++++++++----
 pq_logic/keys/trad_key_factory.py |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pq_logic/keys/pq_key_factory.py b/pq_logic/keys/pq_key_factory.py
index 7475d6e..f024ef5 100644
--- a/pq_logic/keys/pq_key_factory.py
+++ b/pq_logic/keys/pq_key_factory.py
@@ -699,10 +699,16 @@ class PQKeyFactory(AbstractKeyFactory):
         """
         structure = PQKeyFactory._pq_name_2_ser_structures[private_key.name]()
 
-        to_add = os.urandom(4) if invalid_key else b""
+        if invalid_key and save_type == KeySaveType.SEED:
+            # The structure does not allow a value of the wrong size.
+            seed = univ.OctetString(private_key.private_numbers() + os.urandom(4))
+            return encoder.encode(seed.subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0)))
+
+        if invalid_key and save_type == KeySaveType.RAW:
+            return encoder.encode(univ.OctetString(private_key.private_bytes_raw() + os.urandom(4)))
 
         if save_type == KeySaveType.SEED:
-            structure["seed"] = private_key.private_numbers() + to_add
+            structure["seed"] = private_key.private_numbers()
         elif save_type == KeySaveType.SEED_AND_RAW:
             structure["both"]["seed"] = private_key.private_numbers()
             if not invalid_key:
@@ -710,7 +716,7 @@ class PQKeyFactory(AbstractKeyFactory):
             else:
                 structure["both"]["expandedKey"] = os.urandom(private_key.key_size)
         elif save_type == KeySaveType.RAW:
-            structure["expandedKey"] = private_key.private_bytes_raw() + to_add
+            structure["expandedKey"] = private_key.private_bytes_raw()
         else:
             raise ValueError(f"Invalid key save type: {save_type}")
 
@@ -869,7 +875,7 @@ class PQKeyFactory(AbstractKeyFactory):
         if seed is not None and seed != private_key.private_numbers():
             raise InvalidKeyData("The private key bytes do not match the private key data, for type `seed`.")
 
-        if raw_bytes != private_key.private_bytes_raw() and raw_bytes is not None:
+        if raw_bytes is not None and raw_bytes != private_key.private_bytes_raw():
             raise InvalidKeyData("The private key bytes do not match the private key data, for type `raw`.")
 
     @staticmethod
diff --git a/pq_logic/keys/trad_key_factory.py b/pq_logic/keys/trad_key_factory.py
index 9254a24..9ad7be0 100644
--- a/pq_logic/keys/trad_key_factory.py
+++ b/pq_logic/keys/trad_key_factory.py
@@ -227,7 +227,7 @@ def _prepare_private_key_bytes(
     if invalid_private_key and not isinstance(private_key, (rsa.RSAPrivateKey, ec.EllipticCurvePrivateKey)):
         raise ValueError("Invalid private key is only supported for RSA and ECC keys.")
     if invalid_private_key:
-        return prepare_invalid_trad_private_key(private_key), alg_id
+        return prepare_invalid_trad_private_key(private_key, invalid_key=True), alg_id
     return one_asym_key["privateKey"].asOctets(), alg_id
 
 
-- 
2.43.0


From 244cb41e71fb7befbb3a59bc95deddb530fc9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:39 +0000
Subject: [PATCH 053/101] fix: HSS signature index is big-endian

---
 resources/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/utils.py b/resources/utils.py
index 94a6e99..c8afa50 100644
--- a/resources/utils.py
+++ b/resources/utils.py
@@ -903,7 +903,7 @@ def manipulate_pq_stateful_signature_bytes(  # noqa D417 Missing argument descri
     max_value = (1 << (index_length * 8)) - 1
     if index > max_value:
         raise ValueError(f"The provided index {index} does not fit in {index_length} bytes.")
-    index_bytes = index.to_bytes(index_length, "little")
+    index_bytes = index.to_bytes(index_length, "big" if isinstance(key, HSSPrivateKey) else "little")
 
     return data[:index_start] + index_bytes + data[index_end:]
 
-- 
2.43.0


From fa8a9398cf86bdae9175f882946d6783c45ad0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:39 +0000
Subject: [PATCH 054/101] fix: bad POP of a catalyst request manipulated once

---
 pq_logic/hybrid_issuing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pq_logic/hybrid_issuing.py b/pq_logic/hybrid_issuing.py
index 497d933..1066242 100644
--- a/pq_logic/hybrid_issuing.py
+++ b/pq_logic/hybrid_issuing.py
@@ -715,9 +715,6 @@ def prepare_catalyst_cert_req_msg_approach(  # noqa: D417 Missing argument descr
         )
         sig = protectionutils.sign_data_with_alg_id(key=signing_key, alg_id=sig_alg, data=data)
 
-        if bad_pop:
-            sig = utils.manipulate_first_byte(sig)
-
         popo = cmputils.prepare_sig_popo_structure(
             alg_id=sig_alg,
             signature=sig,
-- 
2.43.0


From a28951cccc6b736c66ce6065351219f74d0fb040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:39 +0000
Subject: [PATCH 055/101] fix: CRL update time in UTC

---
 resources/general_msg_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/general_msg_utils.py b/resources/general_msg_utils.py
index a51a6a3..21e8409 100644
--- a/resources/general_msg_utils.py
+++ b/resources/general_msg_utils.py
@@ -555,7 +555,7 @@ def _prepare_time_for_crl_update_retrieval(negative: bool, crl_filepath: Union[s
     :return: A `rfc9480.Time` object populated with the calculated `thisUpdate` time.
     """
     if crl_filepath is None:
-        dt_object = datetime.datetime.now()
+        dt_object = datetime.datetime.now(datetime.timezone.utc)
     else:
         crl_object = utils.load_crl_from_file(crl_filepath)
         last_update = crl_object["tbsCertList"]["thisUpdate"]
-- 
2.43.0


From 57e4395d52ea0cd35da5a7a014a6bf9aaf96a08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:39 +0000
Subject: [PATCH 056/101] fix: composite keys are saved in the form that can be
 loaded

---
 pq_logic/keys/hybrid_key_factory.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pq_logic/keys/hybrid_key_factory.py b/pq_logic/keys/hybrid_key_factory.py
index 265c251..1fa38f0 100644
--- a/pq_logic/keys/hybrid_key_factory.py
+++ b/pq_logic/keys/hybrid_key_factory.py
@@ -559,10 +559,9 @@ class HybridKeyFactory:
         )
 
         if isinstance(private_key, (CompositeKEMPrivateKey, CompositeSigPrivateKey)):
-            if key_type == KeySaveType.SEED and hasattr(private_key.pq_key, "private_numbers"):
+            # The seed is the only form which is defined for composite keys (and can be loaded again).
+            if hasattr(private_key.pq_key, "private_numbers"):
                 pq_key_bytes = private_key.pq_key.private_numbers()
-            elif key_type == KeySaveType.SEED_AND_RAW and hasattr(private_key.pq_key, "private_numbers"):
-                pq_key_bytes = private_key.pq_key.private_numbers() + private_key.private_bytes_raw()
             else:
                 pq_key_bytes = private_key.pq_key.private_bytes_raw()
             trad_key_bytes = private_key._export_trad_private_key()
-- 
2.43.0


From 7f958684ecc616ac588a5c1839fd1e622166d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:23:39 +0000
Subject: [PATCH 057/101] fix: central key generation for cr

---
 mock_ca/cert_req_handler.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 8b92038..94441c7 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -406,13 +406,10 @@ class CertReqHandler:
 
         response, certs = build_cp_cmp_message(
             request=pki_message,
-            ca_cert=self.ca_cert,
-            ca_key=self.ca_key,
             implicit_confirm=False,
-            extensions=self.extensions,
-            sender=self.sender,
             for_mac=for_mac,
             verify_ra_verified=verify_ra_verified,
+            **self.issuing_params,
         )
 
         return self.process_after_request(
-- 
2.43.0


From 02d89df1f8cb7bc2d11016ae26cf4516b8d6ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:46 +0000
Subject: [PATCH 058/101] fix: certificate chains end at a self-signed
 certificate

---
 resources/certutils.py | 50 +++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index f93c378..d92eb19 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -258,35 +258,35 @@ def build_chain_from_list(
     :return: A list representing the complete certificate chain from the end-entity to the root certificate.
     :raises ValueError: If a self-signed root certificate is required but not found.
     """
-    chain = [ee_cert]
-    current_cert = ee_cert
-
-    if check_is_cert_signer(current_cert, current_cert):
+    if check_is_cert_signer(ee_cert, ee_cert):
         logging.info("The end-entity certificate is self-signed.")
-        return chain
+        return [ee_cert]
 
-    for _ in range(len(certs) + 1):
-        for issuer_cert in certs:
-            if check_is_cert_signer(cert=current_cert, poss_issuer=issuer_cert):
-                chain.append(issuer_cert)
-                current_cert = issuer_cert
-                break
+    chain = [ee_cert]
+    first_chain = None
+    visited = [ee_cert]
+
+    # Follows the issuers to a self-signed certificate; a certificate, which leads nowhere, is left again.
+    while chain:
+        issuer_cert = next(
+            (cert for cert in certs if not cert_in_list(cert, visited) and check_is_cert_signer(chain[-1], cert)),
+            None,
+        )
+        if issuer_cert is None:
+            first_chain = first_chain or list(chain)
+            chain.pop()
+            continue
 
-        current_cert_issuer = encoder.encode(current_cert["tbsCertificate"]["issuer"])
-        current_cert_subject = encoder.encode(current_cert["tbsCertificate"]["subject"])
-        if current_cert_issuer == current_cert_subject:
-            break
-
-    # Check if the last cert is a root (self-signed)
-    last_cert_issuer = encoder.encode(chain[-1]["tbsCertificate"]["issuer"])
-    last_cert_subject = encoder.encode(chain[-1]["tbsCertificate"]["subject"])
-    if last_cert_issuer != last_cert_subject:
-        if not must_be_self_signed:
-            logging.info("Could not complete the certificate chain. No self-signed certificate found.")
-        else:
-            raise ValueError("Could not complete the certificate chain. No root certificate found.")
+        chain.append(issuer_cert)
+        visited.append(issuer_cert)
+        if check_is_cert_signer(issuer_cert, issuer_cert):
+            return chain
+
+    if must_be_self_signed:
+        raise ValueError("Could not complete the certificate chain. No root certificate found.")
 
-    return chain
+    logging.info("Could not complete the certificate chain. No self-signed certificate found.")
+    return first_chain or [ee_cert]
 
 
 @not_keyword
-- 
2.43.0


From daf2830ef5496fd0515104d19229d72d40880075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:46 +0000
Subject: [PATCH 059/101] fix: verify_openssl_crl notices failed verifications

---
 resources/certutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index d92eb19..62f7578 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -1294,7 +1294,8 @@ def verify_openssl_crl(crl_chain: List, timeout: int = 60):
     command.extend(["-CAfile", anchor, "-verify"])
     try:
         result = subprocess.run(command, capture_output=True, check=True, text=True, timeout=timeout)
-        if result.returncode != 0:
+        # The exit code of `openssl crl -verify` does not tell, if the verification failed.
+        if result.returncode != 0 or "verify OK" not in result.stderr:
             raise ValueError(f"Validation of the CRL failed! stdout:{result.stdout}\nerror: {result.stderr}")
         return
     except subprocess.TimeoutExpired:
-- 
2.43.0


From d940955993ce4cf2d35c86501c3feb9665f74935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:47 +0000
Subject: [PATCH 060/101] fix: spaces between extended key usages

---
 resources/certutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index 62f7578..1505cf0 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -559,7 +559,7 @@ def validate_cmp_extended_key_usage(  # noqa D417 undocumented-param
         logging.info("KeyUsage extension was not present")
         return
 
-    oids_allowed = set(ext_key_usages.strip(" ").split(","))
+    oids_allowed = {name.strip() for name in ext_key_usages.split(",")}
     vals = ["cmcCA", "cmcRA", "cmKGA"]
     not_inside = oids_allowed - set(vals)
     expected_eku = {oid: eku_name for oid, eku_name in CMP_EKU_OID_2_NAME.items() if eku_name in oids_allowed}
-- 
2.43.0


From e0d700f46b25dc7573836a4e621cd3b7954ec730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:47 +0000
Subject: [PATCH 061/101] fix: must_not_contain_key_usage refuses any of the
 usages

---
 resources/certutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index 1505cf0..41d9873 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -699,7 +699,10 @@ def must_not_contain_key_usage(  # noqa D417 undocumented-param
         logging.info("KeyUsage extension was not present")
         return
 
-    if _validate_key_usage(expected_usage=key_usages, given_usage=usage, same_vals=False):
+    if any(
+        _validate_key_usage(expected_usage=key_usage, given_usage=usage, same_vals=False)
+        for key_usage in key_usages.split(",")
+    ):
         names = asn1utils.get_set_bitstring_names(usage)
         raise BadKeyUsage(f"KeyUsage Extension was expected to not contain: {key_usages}, but is {names}")
 
-- 
2.43.0


From a2da418c94adda2e65d222d909c20db2677b23d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:47 +0000
Subject: [PATCH 062/101] fix: authority key identifier of cross-certificates

---
 resources/certutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index 41d9873..739e154 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -2390,7 +2390,7 @@ def _validate_key_identifiers(
     if ski_cert == ski_issuer_cert:
         raise ValueError("The cross-signed certificate has the same SKI as the issuer certificate.")
 
-    if ski_issuer_cert == aki_cert:
+    if aki_cert is None or ski_issuer_cert != aki_cert["keyIdentifier"].asOctets():
         raise ValueError("The SKI of the issuer certificate does not match the AKI of the cross-signed certificate.")
 
 
-- 
2.43.0


From 5b3a45bf27758cbb99e1d77cb8333c565928641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:47 +0000
Subject: [PATCH 063/101] fix: build_crl_chain_from_list keeps the caller's
 list

---
 resources/certutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index 739e154..fa5eb7f 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -1394,7 +1394,7 @@ def build_crl_chain_from_list(  # noqa D417 undocumented-param
     if not certs and not cert_dir:
         raise ValueError("Either `certs` or `cert_dir` must be provided.")
 
-    certs = certs or []
+    certs = list(certs or [])
     certs.extend(load_truststore(allow_os_store=allow_os_store, path=cert_dir))
 
     signer = find_crl_signer_cert(crl, certs=certs)
-- 
2.43.0


From 7afb24c2c512db56f99aa02756a1759678357763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:46:47 +0000
Subject: [PATCH 064/101] fix: CRLs signed with RSASSA-PSS

---
 resources/certutils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index fa5eb7f..a70afe8 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -53,6 +53,7 @@ from resources import (
 from resources.asn1_structures import PKIMessageTMP
 from resources.convertutils import ensure_is_kem_pub_key, ensure_is_verify_key
 from resources.exceptions import (
+    BadAlg,
     BadAsn1Data,
     BadKeyUsage,
     BadPOP,
@@ -61,7 +62,7 @@ from resources.exceptions import (
     SignerNotTrusted,
     UnknownOID,
 )
-from resources.oid_mapping import get_hash_from_oid, may_return_oid_to_name
+from resources.oid_mapping import may_return_oid_to_name
 from resources.oidutils import (
     CMP_EKU_OID_2_NAME,
     HYBRID_NAME_2_OID,
@@ -1345,17 +1346,20 @@ def find_crl_signer_cert(  # noqa D417 undocumented-param
     crl_issuer = crl["tbsCertList"]["issuer"]
     crl_signature = crl["signature"].asOctets()
     crl_tbs = encoder.encode(crl["tbsCertList"])
-    hash_oid = crl["signatureAlgorithm"]["algorithm"]
-    hash_alg = get_hash_from_oid(hash_oid, only_hash=True)
 
     for cert in certs:
         cert_subject = cert["tbsCertificate"]["subject"]
         if compareutils.compare_pyasn1_names(crl_issuer, cert_subject, "without_tag"):
             try:
-                verify_signature_with_cert(signature=crl_signature, hash_alg=hash_alg, data=crl_tbs, asn1cert=cert)
+                protectionutils.verify_signature_with_alg_id(
+                    public_key=ensure_is_verify_key(load_public_key_from_cert(cert)),
+                    alg_id=crl["signatureAlgorithm"],
+                    signature=crl_signature,
+                    data=crl_tbs,
+                )
 
                 return cert
-            except (ValueError, InvalidSignature):
+            except (ValueError, InvalidSignature, BadAlg, BadSigAlgID):
                 pass
 
     raise ValueError("No matching certificate found to verify the CRL.")
-- 
2.43.0


From b8ba81d98a40d984896df64e929a732fdea678c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:07:06 +0000
Subject: [PATCH 065/101] fix: names print in the order they are given in

---
 resources/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/utils.py b/resources/utils.py
index c8afa50..f104939 100644
--- a/resources/utils.py
+++ b/resources/utils.py
@@ -423,7 +423,8 @@ def get_openssl_name_notation(
     if oids is None:
         oids = PYASN1_CM_OID_2_NAME.keys()
 
-    for rdn in name["rdnSequence"]:
+    # `prepare_name` takes the last RDN first, too.
+    for rdn in reversed(list(name["rdnSequence"])):
         attribute: rfc2986.AttributeTypeAndValue
         for attribute in rdn:
             if attribute["type"] in oids:
-- 
2.43.0


From c63d672fad148c619b78cb4eab512eb6aa5b06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:08:06 +0000
Subject: [PATCH 066/101] fix: spaces between header field names

---
 resources/cmputils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 60591ec..25a87f0 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -212,7 +212,7 @@ def prepare_pki_message(
     # it in the first place
 
     # exclude_fields
-    to_exclude = set() if exclude_fields is None else set(exclude_fields.strip(" ").split(","))
+    to_exclude = set() if exclude_fields is None else {field.strip() for field in exclude_fields.split(",")}
 
     implicit_confirm = _ensure_is_bool(implicit_confirm)
     for_mac = _ensure_is_bool(kwargs.get("for_mac", False))
@@ -3232,6 +3232,7 @@ def patch_pkimessage_header_with_other_message(  # noqa D417 undocumented-param
     if include_fields:
         fields = include_fields.split(",")
         for field in fields:
+            field = field.strip()
             target["header"][field] = other_message["header"][field]  # type: ignore
 
     if for_exchange:
@@ -3245,7 +3246,7 @@ def patch_pkimessage_header_with_other_message(  # noqa D417 undocumented-param
         return target
 
     if for_added_protection:
-        to_exclude = exclude_fields.split(",") if exclude_fields else []
+        to_exclude = [field.strip() for field in exclude_fields.split(",")] if exclude_fields else []
         if target["body"].getName() != "nested":
             raise ValueError("Target `PKIMessage` is not a nested message")
 
@@ -3264,7 +3265,7 @@ def patch_pkimessage_header_with_other_message(  # noqa D417 undocumented-param
         return target
 
     if for_nested:
-        exclude = exclude_fields.split(",") if exclude_fields else []
+        exclude = [field.strip() for field in exclude_fields.split(",")] if exclude_fields else []
         return _patch_nested_pkimessage(target, exclude)
 
     return target
-- 
2.43.0


From 314922eeb1f9d3995aacb4fce5b2ff45ca6f825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:08:34 +0000
Subject: [PATCH 067/101] fix: message builders pass all header fields on

---
 resources/cmputils.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 25a87f0..b6df78f 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -340,6 +340,9 @@ def build_cmp_error_message(  # noqa D417 undocumented-param
         implicit_confirm=params.get("implicit_confirm", False),
         sender_kid=params.get("sender_kid"),
         pvno=int(params.get("pvno", 2)),
+        for_mac=params.get("for_mac", False),
+        message_time=params.get("message_time"),
+        pki_free_text=params.get("pki_free_text"),
     )
 
     pki_message["body"] = pki_body
@@ -526,6 +529,7 @@ def build_p10cr_from_csr(  # noqa D417 undocumented-param
         pvno=int(params.get("pvno", 2)),
         for_mac=params.get("for_mac", False),
         message_time=params.get("message_time"),
+        pki_free_text=params.get("pki_free_text"),
     )
 
     # Prepare PKIBody of type p10cr
@@ -2402,6 +2406,7 @@ def _prepare_build_cert_req_msgs_pkimessage(
         pvno=pvno,
         for_mac=params.get("for_mac", False),
         message_time=params.get("message_time"),
+        pki_free_text=params.get("pki_free_text"),
     )
     pki_message["body"] = pki_body
     return pki_message
@@ -3574,6 +3579,8 @@ def build_cert_conf_from_resp(  # noqa D417 undocumented-param
         sender_kid=params.get("sender_kid"),
         pvno=params.get("pvno"),
         for_mac=params.get("for_mac", False),
+        message_time=params.get("message_time"),
+        pki_free_text=params.get("pki_free_text"),
     )
     pki_message["body"] = pki_body
     return pki_message
@@ -3672,6 +3679,8 @@ def build_cert_conf(  # noqa D417 undocumented-param
         sender_kid=params.get("sender_kid"),
         pvno=int(params.get("pvno", 2)),
         for_mac=params.get("for_mac", False),
+        message_time=params.get("message_time"),
+        pki_free_text=params.get("pki_free_text"),
     )
     pki_message["body"] = pki_body
 
@@ -5383,6 +5392,8 @@ def build_nested_pkimessage(  # noqa D417 undocumented-param
         sender_kid=params.get("sender_kid"),
         pvno=params.get("pvno"),
         message_time=params.get("message_time"),
+        for_mac=params.get("for_mac", False),
+        pki_free_text=params.get("pki_free_text"),
     )
 
     pki_body["nested"] = nested_content
@@ -5458,6 +5469,9 @@ def build_polling_request(  # noqa D417 undocumented-param
         implicit_confirm=params.get("implicit_confirm", False),
         sender_kid=params.get("sender_kid"),
         pvno=params.get("pvno"),
+        for_mac=params.get("for_mac", False),
+        message_time=params.get("message_time"),
+        pki_free_text=params.get("pki_free_text"),
     )
     pki_body = rfc9480.PKIBody()
     pki_body.setComponentByName("pollReq", body_content)
@@ -5567,6 +5581,9 @@ def build_polling_response(  # noqa D417 undocumented-param
         implicit_confirm=params.get("implicit_confirm", False),
         sender_kid=params.get("sender_kid"),
         pvno=int(params.get("pvno", 2)),
+        for_mac=params.get("for_mac", False),
+        message_time=params.get("message_time"),
+        pki_free_text=params.get("pki_free_text"),
     )
     pki_body = rfc9480.PKIBody()
     pki_body.setComponentByName("pollRep", body_content)
-- 
2.43.0


From af88bde4aa24da5120a9fa19bc1f8bca80f58228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:40 +0000
Subject: [PATCH 068/101] fix: certConf of several responses keeps each
 certReqId

---
 resources/cmputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index b6df78f..7caf80a 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -3539,7 +3539,7 @@ def build_cert_conf_from_resp(  # noqa D417 undocumented-param
         cert_chain = certutils.build_cmp_chain_from_pkimessage(ca_message, for_issued_cert=True)
         for i, entry in enumerate(cert_resp_msg):
             # remove the tagging.
-            cert_req_id = _get_cert_req_id(
+            entry_cert_req_id = _get_cert_req_id(
                 cert_resp=entry,
                 length=len(cert_resp_msg),
                 cert_req_id=cert_req_id,
@@ -3550,7 +3550,7 @@ def build_cert_conf_from_resp(  # noqa D417 undocumented-param
             cert_status = _process_single_cert_conf_cert(
                 tmp_cert=tmp_cert,
                 hash_alg=hash_alg,
-                cert_req_id=cert_req_id,
+                cert_req_id=entry_cert_req_id,
                 status_info=params.get("status_info"),
                 cert_hash=params.get("cert_hash"),
                 ca_cert=cert_chain[1],
-- 
2.43.0


From c1c2614ec3a68ae93ac4192fd3d39b3a0b5eec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:40 +0000
Subject: [PATCH 069/101] fix: several status texts in a pollRep

---
 resources/cmputils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 7caf80a..263bbd4 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -5508,9 +5508,7 @@ def prepare_poll_content_structure(
     poll_content_structure["checkAfter"] = univ.Integer(check_after)
 
     if status_text is not None:
-        status = rfc9480.PKIFreeText()
-        status.append(char.UTF8String(status_text))
-        poll_content_structure["reason"] = status
+        poll_content_structure["reason"] = _prepare_pki_free_text(texts=status_text)
 
     return poll_content_structure
 
-- 
2.43.0


From f06055da403e20f42c31f7d508d53e1fc0f254a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:40 +0000
Subject: [PATCH 070/101] fix: message builders leave the caller's lists alone

---
 resources/cmputils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 263bbd4..e186fe5 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -2802,7 +2802,7 @@ def build_ir_from_csr(  # noqa D417 undocumented-param
         popo_structure=params.get("popo"),
         bad_pop=params.get("bad_pop", False),
     )
-    messages = utils.ensure_list(cert_req_msg)
+    messages = list(utils.ensure_list(cert_req_msg))
     messages.append(message)
 
     return _prepare_build_cert_req_msgs_pkimessage(
@@ -2883,7 +2883,7 @@ def build_cr_from_csr(  # noqa D417 undocumented-param
         popo_structure=params.get("popo"),
     )
 
-    messages = utils.ensure_list(cert_req_msg)
+    messages = list(utils.ensure_list(cert_req_msg))
     messages.append(message)
 
     return _prepare_build_cert_req_msgs_pkimessage(
@@ -2963,7 +2963,7 @@ def build_ccr_from_csr(  # noqa D417 undocumented-param
         popo_structure=params.get("popo"),
         bad_pop=params.get("bad_pop", False),
     )
-    messages = utils.ensure_list(cert_req_msg)
+    messages = list(utils.ensure_list(cert_req_msg))
     messages.append(message)
     return _prepare_build_cert_req_msgs_pkimessage(
         body_name="ccr",
@@ -4288,6 +4288,7 @@ def patch_extra_certs(  # noqa D417 undocumented-param
 
     """
     if swap_certs:
+        certs = list(certs)
         certs[0], certs[1] = certs[1], certs[0]  # type: ignore
 
     pki_message["extraCerts"] = prepare_extra_certs(certs)
@@ -4744,6 +4745,7 @@ def add_general_info_values(  # noqa D417 undocumented-param
     if isinstance(info_vals, rfc9480.InfoTypeAndValue):
         info_vals = [info_vals]
 
+    info_vals = list(info_vals)
     if orig_pki_message is not None:
         info_vals.append(prepare_orig_pki_message(orig_pki_message))
 
-- 
2.43.0


From 367ec7b4d2d1ca055fa76515da9b82c5a6431b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:40 +0000
Subject: [PATCH 071/101] fix: index 0 of modify_random_str

---
 resources/cmputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index e186fe5..ca2da52 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -5716,7 +5716,7 @@ def modify_random_str(data: str, index: Optional[int] = None) -> str:  # type: i
     """
     chars = list(data)
     options = list(string.ascii_letters) + list(string.digits)
-    random_index: int = index or random.randint(0, len(data) - 1)
+    random_index: int = random.randint(0, len(data) - 1) if index is None else index
     for _ in range(100):
         option = random.choice(options)
         if option != chars[random_index]:
-- 
2.43.0


From 73148cd147335519b6f64b68b721e76e52d0b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:40 +0000
Subject: [PATCH 072/101] fix: CRL reasons in the order given

---
 resources/cmputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index ca2da52..6cf6822 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -4924,7 +4924,7 @@ def prepare_crl_reason_extensions(  # noqa D417 undocumented-param
     if reasons is None and not invalid_reason and not invalid_der:
         raise ValueError("Either `reasons` or `invalid_reason` or `invalid_der` must be provided.")
     if reasons is not None:
-        reasons = set(reasons.strip(" ").split(","))  # type: ignore
+        reasons = [reason.strip() for reason in reasons.split(",")]  # type: ignore
 
     crl_entry_details = rfc5280.Extensions()
     if reasons is not None:
-- 
2.43.0


From 99fbc11bad3394d5069dd69b54cb089bc7804d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:41 +0000
Subject: [PATCH 073/101] fix: common name of names with spaces

---
 resources/cmputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 6cf6822..648af09 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -4226,7 +4226,7 @@ def get_common_name_from_str(name: str) -> Union[None, str]:
 
     common_name = ""
     for entry in name.split(","):
-        attribute, value = entry.split("=")
+        attribute, _, value = entry.strip().partition("=")
         if attribute == "CN":
             common_name += f"CN={value}"
 
-- 
2.43.0


From bf517834cfe48fc12b78dc2cb221addfcc410bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:16 +0000
Subject: [PATCH 074/101] fix: RDNs of distribution points are found in names

---
 resources/compareutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/compareutils.py b/resources/compareutils.py
index a213246..fe1df95 100644
--- a/resources/compareutils.py
+++ b/resources/compareutils.py
@@ -544,7 +544,10 @@ def find_rel_dis_name_in_name(  # noqa D417 # undocumented-param
     | ${result}= | Find RelativeDistinguishedName in Name | ${rdn} | ${name} |
 
     """
-    der_name = encoder.encode(rdn)
+    # To remove the tagging, e.g., of a `DistributionPointName`. # codespell: ignore
+    untagged = rfc5280.RelativeDistinguishedName()
+    untagged.extend(rdn)
+    der_name = encoder.encode(untagged)
 
     for rdn_seq in name["rdnSequence"]:
         if der_name == encoder.encode(rdn_seq):
-- 
2.43.0


From 3dcd5a235d155c404102672661fd8621b03cfca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:16 +0000
Subject: [PATCH 075/101] fix: general responses of an unexpected size are
 refused

---
 resources/general_msg_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resources/general_msg_utils.py b/resources/general_msg_utils.py
index 21e8409..d81ff0e 100644
--- a/resources/general_msg_utils.py
+++ b/resources/general_msg_utils.py
@@ -861,6 +861,7 @@ def validate_general_response(  # noqa D417 undocumented-param
     genp_content: rfc9480.GenRepContent = pki_message["body"][body_name]
     if len(genp_content) != int(expected_size):
         logging.info("General Response: \n%s", genp_content.prettyPrint())
+        raise ValueError(f"Expected {expected_size} general response values, but got: {len(genp_content)}")
 
 
 # TODO maybe change to MUST prepare crl_update_retrieval by the user before hand.
-- 
2.43.0


From a559626fc608351d0463ee2075be0f8f7db6fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:16 +0000
Subject: [PATCH 076/101] fix: each curve is listed once

---
 resources/prepare_alg_ids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/prepare_alg_ids.py b/resources/prepare_alg_ids.py
index 8f7d476..bded170 100644
--- a/resources/prepare_alg_ids.py
+++ b/resources/prepare_alg_ids.py
@@ -115,7 +115,8 @@ def get_all_supported_ecc_alg_ids() -> List[rfc9480.AlgorithmIdentifier]:
         ec_params = rfc5480.ECParameters()
         ec_params["namedCurve"] = oid
         alg_id = prepare_alg_id(str(rfc6664.id_ecPublicKey), value=ec_params)
-        alg_ids.append(alg_id)
+        if alg_id not in alg_ids:
+            alg_ids.append(alg_id)
     return alg_ids
 
 
-- 
2.43.0


From fbbab140442c86d0b00e5e4b43b472b5278cac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:16 +0000
Subject: [PATCH 077/101] fix: implicitConfirm general messages are answered

---
 mock_ca/general_msg_handler.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mock_ca/general_msg_handler.py b/mock_ca/general_msg_handler.py
index 57955bc..d5219ae 100644
--- a/mock_ca/general_msg_handler.py
+++ b/mock_ca/general_msg_handler.py
@@ -299,8 +299,6 @@ class GeneralMessageHandler:
         if entry["infoType"] != rfc9480.id_it_implicitConfirm:
             raise BadRequest("The info type for the implicit confirm is not set.")
 
-        _ = _try_decode_mock_ca(entry["infoValue"].asOctets(), rfc9480.ImplicitConfirmValue())
-
         if not self.supports_implicit_confirm:
             raise BadRequest("The implicit confirm is not supported.")
 
-- 
2.43.0


From 32f490ffe712016f6609bfa7a2d79a29acde732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:16 +0000
Subject: [PATCH 078/101] fix: keyPairParamReq has a value

---
 mock_ca/general_msg_handler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mock_ca/general_msg_handler.py b/mock_ca/general_msg_handler.py
index d5219ae..adca032 100644
--- a/mock_ca/general_msg_handler.py
+++ b/mock_ca/general_msg_handler.py
@@ -60,7 +60,6 @@ ABSENT_INFO_TYPES = {
     rfc9480.id_it_caProtEncCert,
     rfc9480.id_it_encKeyPairTypes,
     rfc9480.id_it_signKeyPairTypes,
-    rfc9480.id_it_keyPairParamReq,
     rfc9480.id_it_preferredSymmAlg,
     rfc9480.id_it_caCerts,
     rfc9480.id_it_currentCRL,
-- 
2.43.0


From f6576e627af549595724bd7893af0ed541894d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:29:16 +0000
Subject: [PATCH 079/101] fix: CRL status of another issuer is answered

---
 mock_ca/general_msg_handler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mock_ca/general_msg_handler.py b/mock_ca/general_msg_handler.py
index adca032..1d43851 100644
--- a/mock_ca/general_msg_handler.py
+++ b/mock_ca/general_msg_handler.py
@@ -53,7 +53,6 @@ from resources.oidutils import (
 from resources.prepare_alg_ids import get_all_supported_ecc_alg_ids, prepare_alg_id
 from resources.protectionutils import get_protection_type_from_pkimessage
 from resources.typingutils import EnvDataPrivateKey, SignKey
-from resources.utils import get_openssl_name_notation
 from unit_tests.utils_for_test import compare_pyasn1_objects, try_decode_pyasn1
 
 ABSENT_INFO_TYPES = {
@@ -572,7 +571,7 @@ class GeneralMessageHandler:
             issuer: rfc9480.GeneralNames = source["issuer"]
             result = find_name_inside_general_names(issuer, root_ca_name)
             if not result:
-                issuer_name = get_openssl_name_notation(source["issuer"])
+                issuer_name = self._pretty_print_general_names(issuer)
                 text = f"The issuer is not the root CA. Got: {issuer_name}, at index: {index}."
 
         elif source.getName() == "dpn":
@@ -581,7 +580,7 @@ class GeneralMessageHandler:
                 issuer: rfc9480.GeneralNames = dnp["fullName"]
                 result = find_name_inside_general_names(issuer, root_ca_name, self.crl_url)
                 if not result:
-                    issuer_name = self._pretty_print_general_names(source["issuer"])
+                    issuer_name = self._pretty_print_general_names(issuer)
                     text = (
                         f"The issuer inside the `DPN` is not the root CA or the CRL URL."
                         f" Got: {issuer_name}, at index: {index}."
-- 
2.43.0


From e376d776abd2451003719f81affde7531bfe65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 080/101] fix: private keys of one type were all equal, and PQ
 public keys of different parameter sets

---
 pq_logic/keys/abstract_wrapper_keys.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pq_logic/keys/abstract_wrapper_keys.py b/pq_logic/keys/abstract_wrapper_keys.py
index 71c5436..73d9d38 100644
--- a/pq_logic/keys/abstract_wrapper_keys.py
+++ b/pq_logic/keys/abstract_wrapper_keys.py
@@ -193,6 +193,12 @@ class WrapperPublicKey(BaseKey):
 class WrapperPrivateKey(BaseKey):
     """Abstract class for private keys."""
 
+    def __eq__(self, other) -> bool:
+        """Compare two private keys, by their public keys."""
+        if not super().__eq__(other):
+            return False
+        return self.public_key() == other.public_key()
+
     @abstractmethod
     def public_key(self) -> WrapperPublicKey:
         """Get the public key."""
@@ -317,7 +323,7 @@ class PQPublicKey(WrapperPublicKey, ABC):
         """
         if type(other) is not type(self):
             return False
-        return self._public_key_bytes == other._public_key_bytes
+        return self.name == other.name and self._public_key_bytes == other._public_key_bytes
 
     @abstractmethod
     def _initialize_key(self):
-- 
2.43.0


From ab2ff158b4be2e25a02bff3c9db19660a69ff3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 081/101] fix: escape and split names in text form, and field
 lists with spaces, correctly

---
 resources/prepareutils.py |  5 +++--
 resources/utils.py        | 40 +++++++++++++++++++++------------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/resources/prepareutils.py b/resources/prepareutils.py
index 1505c89..1b626a6 100644
--- a/resources/prepareutils.py
+++ b/resources/prepareutils.py
@@ -8,6 +8,7 @@ These prepare functions are used in various other structures and do not require
  additional logic.
 """
 
+import re
 from datetime import datetime, timezone
 
 # TODO refactor to shared prepare utils used by the CA and Client logic used.
@@ -85,7 +86,7 @@ def parse_common_name_from_str(common_name: str) -> x509.Name:
 
     try:
         # Returns an empty `ValueError` if this function fails.
-        return x509.Name.from_rfc4514_string(data=common_name.replace(", ", ","))
+        return x509.Name.from_rfc4514_string(data=re.sub(r"(?<!\\)((?:\\\\)*), ", r"\1,", common_name))
     except ValueError as e:
         # The type is included in the error message to help debugging.
         # Because the parsing might be wrong with the RF and automatically
@@ -440,7 +441,7 @@ def prepare_relative_distinguished_name(  # noqa D417 undocumented-param
     rdn = rfc5280.RelativeDistinguishedName()
 
     for option in options:
-        name, value = option.split("=")
+        name, value = option.split("=", 1)
         if name not in OID_CM_NAME_MAP:
             raise ValueError(f"Unknown CM type: {name}")
 
diff --git a/resources/utils.py b/resources/utils.py
index f104939..00195b0 100644
--- a/resources/utils.py
+++ b/resources/utils.py
@@ -251,9 +251,9 @@ def filter_options(options: List[str], include: Optional[str] = None, exclude: O
     if exclude is None and include is None:
         return []
     if include is None:
-        return exclude.strip(" ").split(",")  # type: ignore
+        return [option.strip(" ") for option in exclude.split(",")]  # type: ignore
 
-    include_fields = include.strip(" ").split(",")
+    include_fields = [option.strip(" ") for option in include.split(",")]
     exclude_fields = []
     for option in options:
         if option not in include_fields:
@@ -402,6 +402,16 @@ def load_certificate_chain(filepath: str) -> List[rfc9480.CMPCertificate]:
     return certificates
 
 
+def _escape_dn_value(value: str) -> str:
+    """Escape the characters of an attribute value, which have a meaning in the text of a name (RFC 4514, 2.4)."""
+    value = re.sub(r'([\\"+,;<>])', r"\\\1", value).replace("\0", "\\00")
+    if value.endswith(" "):
+        value = value[:-1] + "\\ "
+    if value.startswith((" ", "#")):
+        value = "\\" + value
+    return value
+
+
 # moved here because of cyclic-import
 @not_keyword
 def get_openssl_name_notation(
@@ -417,7 +427,7 @@ def get_openssl_name_notation(
     :return: A name in OpenSSL notation, e.g., "C=DE,ST=Bavaria,L= Munich,CN=Joe Mustermann" or a dict or
     None if the oids where not inside.
     """
-    out_name = None
+    rdn_names: List[str] = []
     dict_data = {}
 
     if oids is None:
@@ -425,31 +435,25 @@ def get_openssl_name_notation(
 
     # `prepare_name` takes the last RDN first, too.
     for rdn in reversed(list(name["rdnSequence"])):
+        parts = []
         attribute: rfc2986.AttributeTypeAndValue
         for attribute in rdn:
             if attribute["type"] in oids:
+                attr_name = PYASN1_CM_OID_2_NAME.get(attribute["type"])
                 # need to remove asn1 type value.
-                dict_data[PYASN1_CM_OID_2_NAME.get(attribute["type"])] = (
-                    decoder.decode(attribute["value"])[0]
-                ).prettyPrint()
-                if out_name is None:
-                    out_name = (
-                        f"{PYASN1_CM_OID_2_NAME.get(attribute['type'])}="
-                        + (decoder.decode(attribute["value"])[0]).prettyPrint()
-                    )
-                else:
-                    out_name += (
-                        f",{PYASN1_CM_OID_2_NAME.get(attribute['type'])}="
-                        + (decoder.decode(attribute["value"])[0]).prettyPrint()
-                    )
+                value = decoder.decode(attribute["value"])[0].prettyPrint()
+                dict_data[attr_name] = value
+                parts.append(f"{attr_name}={_escape_dn_value(value)}")
+        if parts:
+            rdn_names.append("+".join(parts))
 
     if return_dict:
         return dict_data  # type: ignore
 
-    if out_name is None:
+    if not rdn_names:
         return "NULL-DN"
 
-    return out_name
+    return ",".join(rdn_names)
 
 
 @keyword(name="Get Common Name")
-- 
2.43.0


From a113ec67c9cf0e792662bc675d8bf0c2ef955a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:34 +0000
Subject: [PATCH 082/101] fix: compare extension values, public keys as they
 are encoded, and names which were not decoded

---
 resources/compareutils.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/resources/compareutils.py b/resources/compareutils.py
index fe1df95..f826392 100644
--- a/resources/compareutils.py
+++ b/resources/compareutils.py
@@ -10,13 +10,12 @@ Which can be used to verify if the server returned the correct status, `grantedW
 import logging
 from typing import Optional, Union
 
-from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
 from pyasn1.codec.der import encoder
 from pyasn1.type import univ
 from pyasn1_alt_modules import rfc4211, rfc5280, rfc6402, rfc9480
 from robot.api.deco import keyword, not_keyword
 
-from resources import certextractutils, certutils, cmputils, convertutils, copyasn1utils, keyutils, suiteenums, utils
+from resources import certextractutils, convertutils, copyasn1utils, keyutils, suiteenums, utils
 from resources.oid_mapping import may_return_oid_by_name, may_return_oid_to_name
 from resources.typingutils import PrivateKey, PublicKey
 
@@ -69,11 +68,11 @@ def compare_pyasn1_names(  # noqa D417 undocumented-param
         name2_attributes = set()
         for rdn in name2["rdnSequence"]:
             for attr in rdn:
-                name2_attributes.add((attr["type"], attr["value"]))
+                name2_attributes.add(encoder.encode(attr))
 
         for rdn in name1["rdnSequence"]:
             for attr in rdn:
-                if (attr["type"], attr["value"]) not in name2_attributes:
+                if encoder.encode(attr) not in name2_attributes:
                     return False
         return True
 
@@ -81,11 +80,11 @@ def compare_pyasn1_names(  # noqa D417 undocumented-param
     name2_attributes = set()
     for rdn_index, rdn in enumerate(name2["rdnSequence"]):
         for attr in rdn:
-            name2_attributes.add((rdn_index, attr["type"], attr["value"]))
+            name2_attributes.add((rdn_index, encoder.encode(attr)))
 
     for rdn_index, rdn in enumerate(name1["rdnSequence"]):
         for attr in rdn:
-            if (rdn_index, attr["type"], attr["value"]) not in name2_attributes:
+            if (rdn_index, encoder.encode(attr)) not in name2_attributes:
                 return False
 
     return True
@@ -142,18 +141,13 @@ def _compare_public_key_template_and_cert(
     spki_template = copyasn1utils.copy_subject_public_key_info(spki_template, cert_template["publicKey"])
 
     if cert_template["publicKey"]["subjectPublicKey"] != univ.BitString(""):
-        spki_template_der = encoder.encode(spki_template)
-        public_key_cert = certutils.load_public_key_from_cert(issued_cert)
-        public_key_cert_der: bytes = public_key_cert.public_bytes(
-            encoding=Encoding.DER, format=PublicFormat.SubjectPublicKeyInfo
-        )
-        if public_key_cert_der != spki_template_der:
+        if encoder.encode(issued_cert["tbsCertificate"]["subjectPublicKeyInfo"]) != encoder.encode(spki_template):
             logging.info("Public key mismatch between the template and the issued certificate.")
             return False
 
     else:
         cert_spki = issued_cert["tbsCertificate"]["subjectPublicKeyInfo"]
-        if not cert_template["publicKey"]["algorithm"] == cert_spki["algorithm"]:
+        if not compare_alg_id_without_tag(cert_template["publicKey"]["algorithm"], cert_spki["algorithm"]):
             template_oid_may_name = may_return_oid_to_name(cert_template["publicKey"]["algorithm"])
             cert_oid_may_name = may_return_oid_to_name(cert_spki["algorithm"])
             logging.info("We asked for a key with the oid: %s but got: %s", template_oid_may_name, cert_oid_may_name)
@@ -177,10 +171,15 @@ def _compare_extensions_subject_template_and_cert(
         return True
 
     for extension in cert_template["extensions"]:
-        if not cmputils.contains_extension(issued_cert, extension["extnID"]):
+        issued_extn = certextractutils.get_extension(issued_cert["tbsCertificate"]["extensions"], extension["extnID"])
+        if issued_extn is None:
             logging.info("The issued certificate did not contain the extension: %s", extension.prettyPrint())
             return False
 
+        if issued_extn["extnValue"].asOctets() != extension["extnValue"].asOctets():
+            logging.info("The issued certificate contained another value of: %s", extension.prettyPrint())
+            return False
+
     return True
 
 
-- 
2.43.0


From ea51da66d5bf99a379a688c78cabbc9912eb1f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 083/101] fix: no fractions of seconds in the validity of a
 certificate

---
 resources/certbuildutils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index a74442e..8bd87b8 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -104,6 +104,12 @@ def prepare_validity(  # noqa D417 undocumented-param
     not_before_obj = rfc5280.Time()
     not_after_obj = rfc5280.Time()
 
+    # `GeneralizedTime` must not contain fractional seconds, RFC 5280, Section 4.1.2.5.2.
+    if not_before is not None:
+        not_before = not_before.replace(microsecond=0)
+    if not_after is not None:
+        not_after = not_after.replace(microsecond=0)
+
     if not_before is not None:
         # `UTCTime` cannot represent years from 2050 on.
         before_type = "utcTime" if before_use_utc and not_before.year < 2050 else "generalTime"
-- 
2.43.0


From e29d53d2fc546c65cd91a8c08dd3b47f6fe14fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 084/101] fix: AuthorityKeyIdentifier extension for a CA
 certificate

---
 resources/certbuildutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index 8bd87b8..e3fcab3 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -483,7 +483,7 @@ def prepare_authority_key_identifier_extension(  # noqa D417 undocumented-param
 
     """
     if isinstance(ca_key, rfc9480.CMPCertificate):
-        ca_key = ca_key["certificationRequestInfo"]["subjectPublicKeyInfo"]
+        ca_key = ca_key["tbsCertificate"]["subjectPublicKeyInfo"]
         ca_key = keyutils.load_public_key_from_spki(ca_key)  # type: ignore
 
     aki = rfc5280.AuthorityKeyIdentifier()
-- 
2.43.0


From 71eee217f36c70990c0806b3f7660b3d7a62ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 085/101] fix: spaces between extended key usages, as
 documented

---
 resources/certbuildutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index e3fcab3..08d759b 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -851,7 +851,7 @@ def prepare_extensions(  # noqa D417 undocumented-param
         extensions.append(key_usage_ext)
 
     if eku is not None:
-        names = set(eku.strip(" ").split(","))
+        names = {name.strip() for name in eku.split(",")}
         vals = ["cmcCA", "cmcRA", "cmKGA"]
         not_inside = names - set(vals)
         expected_eku = {oid: name for oid, name in CMP_EKU_OID_2_NAME.items() if name.strip(" ") in names}
-- 
2.43.0


From 42eee40a08be46f3016bc2cdd30e9a78fd17e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 086/101] fix: extensions of the caller grew with each request
 or template

---
 resources/certbuildutils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index 08d759b..979520d 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -283,9 +283,9 @@ def build_csr(  # noqa D417 undocumented-param
         csr["certificationRequestInfo"]["subjectPublicKeyInfo"] = spki
 
     if subjectAltName is not None:
-        if extensions is None:
-            extensions = rfc9480.Extensions()
-
+        given_extensions = extensions if extensions is not None else []
+        extensions = rfc9480.Extensions()
+        extensions.extend(given_extensions)
         extensions.append(prepare_subject_alt_name_extension(subjectAltName))
 
     if extensions is not None:
@@ -1296,15 +1296,13 @@ def _prepare_extensions_for_cert_template(
     if exclude:
         return cert_template
 
-    if extensions is None:
-        extensions = rfc9480.Extensions()
+    given_extensions = extensions if extensions is not None else []
+    extensions = rfc9480.Extensions()
+    extensions.extend(given_extensions)
 
     if cert is not None and include_cert_extensions:
         extensions.extend(cert["tbsCertificate"]["extensions"])
 
-    if extensions is None:
-        return cert_template
-
     if len(extensions) == 0:
         return cert_template
 
-- 
2.43.0


From 58fec7cf480d27d106f4a37f45487d20dec4ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 087/101] fix: onlySomeReasons contains the reasons asked for

---
 resources/certbuildutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index 979520d..736b63b 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -34,7 +34,7 @@ from resources import (
     typingutils,
     utils,
 )
-from resources.asn1utils import get_all_asn1_named_value_names, get_set_bitstring_names, try_decode_pyasn1
+from resources.asn1utils import get_set_bitstring_names, try_decode_pyasn1
 from resources.certextractutils import get_extension
 from resources.convertutils import pyasn1_time_obj_to_py_datetime, str_to_bytes
 from resources.copyasn1utils import copy_name
@@ -3138,8 +3138,7 @@ def prepare_issuing_distribution_point(  # noqa: D417 undocumented-param
 
     if only_some_reasons is not None:
         reason_flags = _prepare_reason_flags(only_some_reasons)
-        names = get_all_asn1_named_value_names(reason_flags)  # type: ignore
-        issuing_distribution_point["onlySomeReasons"] = rfc5280.ReasonFlags(names).subtype(
+        issuing_distribution_point["onlySomeReasons"] = reason_flags.subtype(  # type: ignore
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3)
         )
 
-- 
2.43.0


From e3bb9085d553c9a26cd07b063bde1e8e3dd2e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 088/101] fix: certificate templates with only one of the two
 times

---
 resources/convertutils.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/resources/convertutils.py b/resources/convertutils.py
index 1748fbb..5b48ecf 100644
--- a/resources/convertutils.py
+++ b/resources/convertutils.py
@@ -172,19 +172,19 @@ def validity_to_optional_validity(validity_obj: rfc5280.Validity) -> rfc4211.Opt
         implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4)
     )
 
-    before_type = validity_obj["notBefore"].getName()
-    after_type = validity_obj["notAfter"].getName()
-
-    not_before_py = pyasn1_time_obj_to_py_datetime(validity_obj["notBefore"])
-    not_after_py = pyasn1_time_obj_to_py_datetime(validity_obj["notAfter"])
-
-    not_before = rfc5280.Time().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))
-    not_before[before_type] = not_before[before_type].fromDateTime(not_before_py)
-    optional_validity["notBefore"] = not_before
-
-    not_after = rfc5280.Time().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
-    not_after[after_type] = not_after[after_type].fromDateTime(not_after_py)
-    optional_validity["notAfter"] = not_after
+    if validity_obj["notBefore"].isValue:
+        before_type = validity_obj["notBefore"].getName()
+        not_before_py = pyasn1_time_obj_to_py_datetime(validity_obj["notBefore"])
+        not_before = rfc5280.Time().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))
+        not_before[before_type] = not_before[before_type].fromDateTime(not_before_py)
+        optional_validity["notBefore"] = not_before
+
+    if validity_obj["notAfter"].isValue:
+        after_type = validity_obj["notAfter"].getName()
+        not_after_py = pyasn1_time_obj_to_py_datetime(validity_obj["notAfter"])
+        not_after = rfc5280.Time().subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
+        not_after[after_type] = not_after[after_type].fromDateTime(not_after_py)
+        optional_validity["notAfter"] = not_after
 
     return optional_validity
 
-- 
2.43.0


From 13b2b9ead50b2cf17205d8c8100779134515e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 089/101] fix: compare the MAC algorithm of the pkiConf, not
 that of the response twice

---
 resources/protectionutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 01efad6..517aa0d 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1640,12 +1640,15 @@ def mac_protection_algorithms_must_match(  # noqa D417 undocumented-param
         pki_conf_id = pkiconf["header"]["protectionAlg"]
         # To just compare DER, because they must be the same.
         if same_salt:
-            if not _compare_alg_id(pki_conf_id, response_algo, allow_null=False):
+            if encoder.encode(pki_conf_id) != encoder.encode(response_algo):
                 logging.info("PKI Confirmation `protectionAlg`:\n %s", pki_conf_id.prettyPrint())
                 raise ValueError("Protection algorithm mismatch between PKI Confirmation and CA response.")
         else:
             # For convenience, use the request, which must be equal.
-            _compare_mac_params(request_algo, response_algo, same_salt=same_salt, allow_null=allow_null)
+            if request_algo["algorithm"] != pki_conf_id["algorithm"]:
+                raise ValueError("Protection algorithm mismatch between the request and the PKI Confirmation.")
+
+            _compare_mac_params(request_algo, pki_conf_id, same_salt=same_salt, allow_null=allow_null)
 
 
 @not_keyword
-- 
2.43.0


From c3063aa82fb4ebbc78f5c7c790e24d4ed1b8bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 090/101] fix: NULL instead of absent parameters where it is
 allowed

---
 resources/protectionutils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 517aa0d..26882ce 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -143,9 +143,11 @@ def _compare_alg_id(
     :return: True if equal; False otherwise.
     """
     if allow_null:
-        alg_id1_der = encoder.encode(alg_id1)
-        alg_id2_der = encoder.encode(alg_id2)
-        return alg_id1_der == alg_id2_der
+        alg_ids_der = []
+        for alg_id in (alg_id1, alg_id2):
+            params = encoder.encode(alg_id["parameters"]) if alg_id["parameters"].isValue else b""
+            alg_ids_der.append((encoder.encode(alg_id["algorithm"]), b"" if params == b"\x05\x00" else params))
+        return alg_ids_der[0] == alg_ids_der[1]
 
     if alg_id1["algorithm"] != alg_id2["algorithm"]:
         return False
-- 
2.43.0


From 0ae982d57d9b55d33922a674ae577cfb26dc4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 091/101] fix: RSA signature algorithms have NULL parameters

---
 resources/protectionutils.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 26882ce..0d596a0 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1692,15 +1692,14 @@ def check_signature_alg_is_consistent(
             logging.info("Initial ProtectionAlg OID was: %s but pkiConf OID was %s", server_alg_id, pki_polling_oid)
             raise ValueError("The `pkiConf` message has a different ObjectIdentifier!")
 
-    pki_conf_value = None
-    pki_polling_value = None
-    if pki_conf is not None:
-        pki_conf_value = pki_conf["header"]["protectionAlg"]["parameters"].isValue
-
-    if pki_polling is not None:
-        pki_polling_value = pki_polling["header"]["protectionAlg"]["parameters"].isValue
+    def _has_params(msg: Optional[PKIMessageTMP]) -> bool:
+        """Check if there are parameters, other than the `NULL` which is required for RSA."""
+        if msg is None or not msg["header"]["protectionAlg"]["parameters"].isValue:
+            return False
+        alg_id = msg["header"]["protectionAlg"]
+        return alg_id["algorithm"] not in RSA_OID_2_NAME or encoder.encode(alg_id["parameters"]) != b"\x05\x00"
 
-    if protection_alg["parameters"].isValue or pki_conf_value or pki_polling_value:
+    if _has_params(pki_response) or _has_params(pki_conf) or _has_params(pki_polling):
         raise ValueError("The `protectionAlg` MUST not have parameters for PKIMessage signature-based protection.")
 
 
-- 
2.43.0


From 23a1995135c7aec8269092d69570c7de52cf4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 092/101] fix: the PKIStatus of a rejected revocation is called
 rejection

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index f6e4541..4235505 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1689,7 +1689,7 @@ def check_rp_cmp_message_body(  # noqa D417 undocumented-param
             raise ValueError("The `failInfo` MUST be absent if the `status` is accepted")
 
         return
-    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejected")
+    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejection")
     if is_correct:
         return
 
-- 
2.43.0


From 5950bb706579b80d2b57ca9e917c6bcc2285fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 093/101] fix: look at the response that was asked for

---
 resources/checkutils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 4235505..953964c 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -265,7 +265,7 @@ def validate_ca_msg_ca_pubs_field(  # noqa D417 undocumented-param
         if not certified_key_pair["certOrEncCert"].isValue:
             raise ValueError("`certOrEncCert` must be present, if `certifiedKeyPair` field is present.")
 
-        asn1cert = cmputils.get_cert_from_pkimessage(pki_message)
+        asn1cert = cmputils.get_cert_from_pkimessage(pki_message, cert_number=response_index)
 
         if pki_body["caPubs"].isValue:
             if body_name == "cp" or used_ir_as_cr:
@@ -1799,7 +1799,7 @@ def validate_ca_message_body(  # noqa D417 undocumented-param
 
     validate_certReqId(pki_message, response_index, used_p10cr)
     cert_response = cmputils.get_cert_response_from_pkimessage(pki_message, response_index)
-    pki_status_info = cmputils.get_pkistatusinfo(pki_message)
+    pki_status_info = cmputils.get_pkistatusinfo(pki_message, int(response_index))
     status = str(pki_status_info["status"])
     if status in ["accepted", "grantedWithMods"]:
         if pki_status_info["failInfo"].isValue:
@@ -1816,7 +1816,9 @@ def validate_ca_message_body(  # noqa D417 undocumented-param
             pki_message=pki_message,
             trustanchors=trustanchors,
             verbose=verbose,
+            response_index=int(response_index),
             allow_os_store=allow_os_store,
+            used_p10cr=used_p10cr,
             used_ir_as_cr=used_ir_as_cr,
         )
         validate_certified_key_pair_structure(
@@ -1961,14 +1963,14 @@ def check_for_granted_with_mods(  # noqa D417 undocumented-param
         raise ValueError(f"Not called on a CA message got body type: {pki_message_response['body'].getName()}")
 
     if req_body_name in {"cr", "ir", "kur"}:
-        cert_template = pki_message_request["body"][req_body_name][response_index]["certReq"]["certTemplate"]
+        cert_template = pki_message_request["body"][req_body_name][int(response_index)]["certReq"]["certTemplate"]
     else:
         raise ValueError(
             f"Supposed to be used if a request was `cr, ir, kur` "
             f"got body type: {pki_message_response['body'].getName()}"
         )
 
-    issued_cert = cmputils.get_cert_from_pkimessage(pki_message_response)
+    issued_cert = cmputils.get_cert_from_pkimessage(pki_message_response, cert_number=response_index)
     is_equal = compareutils.compare_cert_template_and_cert(
         cert_template,
         issued_cert=issued_cert,
@@ -1978,7 +1980,7 @@ def check_for_granted_with_mods(  # noqa D417 undocumented-param
     )
 
     if not is_equal:
-        pki_status_info: rfc9480.PKIStatusInfo = cmputils.get_pkistatusinfo(pki_message_response)
+        pki_status_info: rfc9480.PKIStatusInfo = cmputils.get_pkistatusinfo(pki_message_response, int(response_index))
         if "grantedWithMods" != str(pki_status_info["status"]):
             logging.info("CA responded with `PKIStatusInfo`: %s", pki_status_info.prettyPrint())
             raise ValueError(
-- 
2.43.0


From 2441adacad6a1049eadf65799bbca8723b605ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 094/101] fix: one certProfile per request is right, another
 number is wrong

---
 resources/checkutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 953964c..83a4ca5 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1287,8 +1287,8 @@ def validate_cert_profile_for_ca(  # noqa D417 undocumented-param
     if len(profiles) == 0:
         raise BadRequest("The `certProfile` structure must contain at least one profile.")
 
-    if len(profiles) == _get_cert_profile_msg_size(pki_message):
-        raise BadRequest("The `certProfile` structure must not contain the same profile multiple times.")
+    if len(profiles) != _get_cert_profile_msg_size(pki_message):
+        raise BadRequest("The `certProfile` structure must contain one profile per request.")
 
     if cert_profiles is not None:
         cert_profiles.append("")
-- 
2.43.0


From 887b510c5817eb905ab6d5d13efeb36d5f2f7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 095/101] fix: a response from long before the request is not
 in time

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 83a4ca5..78a1153 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1421,7 +1421,7 @@ def check_message_time_field(
             _check_message_time_for_request(time_obj, allowed_interval)
             return
 
-        if time_diff > allowed_interval:
+        if abs(time_diff) > allowed_interval:
             raise BadTime(f"Time difference exceeds allowed {allowed_interval} seconds: {time_diff} seconds")
 
         logging.info("The time difference was: %.2f seconds, which is within the allowed interval.", time_diff)
-- 
2.43.0


From 7b4ae9066da724ab7c721bb46a51dd36398207e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 096/101] fix: Ed25519 keys do not go with the Ed448 algorithm

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 78a1153..d45453f 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -997,7 +997,7 @@ def check_protection_alg_conform_to_spki(
         return prot_alg_id["algorithm"] in ECDSA_SHA_OID_2_NAME
 
     if cert_alg_id["algorithm"] in {rfc9481.id_Ed25519, rfc9481.id_Ed448}:
-        return prot_alg_id["algorithm"] in {rfc9481.id_Ed25519, rfc9481.id_Ed448}
+        return prot_alg_id["algorithm"] == cert_alg_id["algorithm"]
 
     if cert_alg_id["algorithm"] == rsaEncryption:
         return prot_alg_id["algorithm"] in RSA_OID_2_NAME or prot_alg_id["algorithm"] in RSASSA_PSS_OID_2_NAME
-- 
2.43.0


From 90d152a75eba5cf350fad1070db4c0cd6756e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 097/101] fix: compare the position of an issuer with that of
 the certificate it issued

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index d45453f..6e30414 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -880,7 +880,7 @@ def check_single_chain_is_ordered(
                 "Certificate at position %d was not signed by the next certificate and issuer not found before it.", i
             )
             return False
-        last_index += 1
+        last_index = issuer_index
 
     return True
 
-- 
2.43.0


From 1275f0d9b882e4aec1c508d3d48396b92fd11058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 098/101] fix: the senderKID of MAC-protected messages is the
 common name, without the escapes of its text form

---
 resources/checkutils.py | 9 ++++++---
 resources/cmputils.py   | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 6e30414..ddc6ed2 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -377,7 +377,9 @@ def _verify_sender_field_for_mac(sender_name: rfc9480.GeneralName, allow_failure
             "MUST use an identifier in the commonName field of the directoryName choice."
         )
 
-    cm_name = utils.get_openssl_name_notation(name=sender_name["directoryName"], oids=[rfc5280.id_at_commonName])
+    cm_name = utils.get_openssl_name_notation(
+        name=sender_name["directoryName"], oids=[rfc5280.id_at_commonName], return_dict=True
+    ).get("CN")  # type: ignore
 
     if not allow_failure:
         if cm_name is None:
@@ -612,7 +614,9 @@ def _verify_senderkid_for_mac(pki_message: PKIMessageTMP, allow_mac_failure: boo
         raise BadMessageCheck("The senderKID field in the PKIHeader must be a valid UTF-8 string.") from e
     sender_kid_name = sender_kid.removeprefix("CN=")
 
-    cm_name = utils.get_openssl_name_notation(name=sender_name, oids=[rfc5280.id_at_commonName])
+    cm_name = utils.get_openssl_name_notation(
+        name=sender_name, oids=[rfc5280.id_at_commonName], return_dict=True
+    ).get("CN")  # type: ignore
 
     if not cm_name:
         if not allow_mac_failure:
@@ -620,7 +624,6 @@ def _verify_senderkid_for_mac(pki_message: PKIMessageTMP, allow_mac_failure: boo
         logging.warning("PKIMessage `sender` did not contain a commonName: %s", sender_name.prettyPrint())
         return
 
-    cm_name = cm_name.removeprefix("CN=")  # type: ignore
     if sender_kid_name != cm_name:
         if not allow_mac_failure:
             sender_name_formatted = utils.get_openssl_name_notation(name=sender_name)
diff --git a/resources/cmputils.py b/resources/cmputils.py
index 648af09..7694891 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -4416,10 +4416,14 @@ def _patch_senderkid_for_mac(sender: rfc9480.GeneralName, negative: bool) -> byt
         raise ValueError("The 'sender' must be of type 'directoryName' for MAC-based protection.")
 
     name_obj = sender["directoryName"]
-    common_name = utils.get_openssl_name_notation(name_obj, oids=[rfc5280.id_at_commonName])
+    common_name = utils.get_openssl_name_notation(
+        name_obj, oids=[rfc5280.id_at_commonName], return_dict=True
+    ).get("CN")  # type: ignore
     if common_name is None:
         raise ValueError("The 'directoryName' must contain a common name (CN) for MAC-based protection.")
 
+    common_name = f"CN={common_name}"
+
     if negative:
         common_name = modify_random_str(common_name)  # type: ignore
 
-- 
2.43.0


From dd20d57fd1ca017b487276a2d5d7ed84cf31d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 099/101] fix: compare PBMParameter of a request which was
 decoded

---
 resources/protectionutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 0d596a0..b359597 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1523,7 +1523,7 @@ def _compare_mac_params(
             raise ValueError("The parameters of the `protectionAlg` field are different.")
     elif name == "password_based_mac":
         if not _compare_pbm_parameters(
-            first_param["parameters"],
+            decoder.decode(der_data, asn1Spec=rfc9480.PBMParameter())[0],
             second_param["parameters"].asOctets(),
             same_salt=same_salt,
             allow_null=allow_null,
-- 
2.43.0


From 42895e8393ba650384bbc277b2ce100c2aea72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 100/101] fix: the first certificate of a pkiConf is that of
 the response

---
 resources/protectionutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index b359597..feb9ce0 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1719,6 +1719,10 @@ def _check_is_same_chain(
     :raises ValueError: If the chain is different from the first certificate chain.
     """
     cmp_cert = extra_certs[0]
+    for certs in (pki_conf_certs, polling_certs):
+        if certs is not None and encoder.encode(certs[0]) != encoder.encode(cmp_cert):
+            raise ValueError("The first certificate is not the CMP-protection certificate of the first message.")
+
     first_chain = certutils.build_chain_from_list(certs=extra_certs, ee_cert=cmp_cert)  # type: ignore
     der_data_first = b"".join([encoder.encode(cert) for cert in first_chain])
 
-- 
2.43.0


From 0ef9b36f921393abcda207ded36d472ea83fe858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 101/101] fix: every request of a nested message is looked at,
 a revocation as well

---
 resources/checkutils.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index ddc6ed2..a53a227 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -2032,7 +2032,7 @@ def validate_ids_and_nonces_for_nested_response(  # noqa D417 undocumented-param
             f"{len(request['body'])}. The response size was: {len(response['body'])}"
         )
 
-    req_pair: Dict[str, Tuple[bytes, bytes]] = {}
+    req_pairs: List[Tuple[str, Tuple[bytes, bytes]]] = []
     resp_pair: Dict[Tuple[bytes, bytes], str] = {}
     for msg in response["body"]["nested"]:
         body_name = msg["body"].getName()
@@ -2040,21 +2040,31 @@ def validate_ids_and_nonces_for_nested_response(  # noqa D417 undocumented-param
 
     for msg in request["body"]["nested"]:
         body_name = msg["body"].getName()
-        req_pair[body_name] = (msg["header"]["senderNonce"].asOctets(), msg["header"]["transactionID"].asOctets())
+        nonce_and_id = (msg["header"]["senderNonce"].asOctets(), msg["header"]["transactionID"].asOctets())
+        req_pairs.append((body_name, nonce_and_id))
 
-    allowed_answer_bodies = {"p10cr": "cp", "cr": "cp", "genm": "genp", "kur": "kup", "ir": "ip"}
+    allowed_answer_bodies = {
+        "p10cr": "cp",
+        "cr": "cp",
+        "ccr": "ccp",
+        "genm": "genp",
+        "kur": "kup",
+        "ir": "ip",
+        "rr": "rp",
+        "certConf": "pkiconf",
+        "pollReq": "pollRep",
+    }
     always_allowed = ["error", "pollReq"]
-    for body_name, tuple_data in req_pair.items():
+    for body_name, tuple_data in req_pairs:
         if tuple_data not in resp_pair:
             raise ValueError("The response nested message did not contain the response for a message.")
 
         if resp_pair[tuple_data] in always_allowed:
             continue
 
-        if allowed_answer_bodies[body_name] != resp_pair[tuple_data]:
-            raise ValueError(
-                f"Expected to get the PKIBody type: {allowed_answer_bodies[body_name]} but got: {resp_pair[tuple_data]}"
-            )
+        expected_body = allowed_answer_bodies.get(body_name)
+        if expected_body != resp_pair[tuple_data]:
+            raise ValueError(f"Expected to get the PKIBody type: {expected_body} but got: {resp_pair[tuple_data]}")
 
 
 def _is_unique(lst: List[bytes]) -> bool:
-- 
2.43.0

