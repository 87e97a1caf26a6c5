From fdc8d4c35b1ec55dbaf6a4f9f813e37c365db4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 01/25] fix: use the PKIBody name `ccr` for cross-certification
 requests

---
 mock_ca/ca_handler.py      |  2 +-
 mock_ca/mock_fun.py        |  2 +-
 pq_logic/hybrid_issuing.py |  2 +-
 resources/ca_ra_utils.py   | 10 +++++-----
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 925e6e2..324ebb7 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -717,7 +717,7 @@ class CAHandler:
             if pki_message["body"].getName() not in ["rr", "genm"]:
                 self.verify_protection(pki_message)
 
-            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "crr", "kur", "rr"]:
+            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "ccr", "kur", "rr"]:
                 self._check_for_compromised_key(pki_message)
 
             if pki_message["body"].getName() not in ["certConf", "error"]:
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 2881089..3d4e6f4 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -422,7 +422,7 @@ class CertRevStateDB:
 
         body_name = request["body"].getName()
 
-        if body_name in ["ir", "cr", "crr", "kur"]:
+        if body_name in ["ir", "cr", "ccr", "kur"]:
             for entry in request["body"][body_name]:
                 public_key = ca_ra_utils.get_public_key_from_cert_req_msg(entry, must_be_present=False)
                 if public_key is None:
diff --git a/pq_logic/hybrid_issuing.py b/pq_logic/hybrid_issuing.py
index 497d933..026af04 100644
--- a/pq_logic/hybrid_issuing.py
+++ b/pq_logic/hybrid_issuing.py
@@ -156,7 +156,7 @@ def build_sun_hybrid_cert_from_request(  # noqa: D417 Missing argument descripti
         )
         pki_message, _ = ca_ra_utils.build_cp_from_p10cr(request=request, cert=cert4, cert_req_id=-1)
 
-    elif request["body"].getName() in ["ir", "cr", "kur", "crr"]:
+    elif request["body"].getName() in ["ir", "cr", "kur", "ccr"]:
         body_name = request["body"].getName()
         cert_index = cert_index if cert_index is not None else 0
         cert_req_msg: rfc4211.CertReqMsg = request["body"][body_name][cert_index]
diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index d821e86..5245fa6 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1286,7 +1286,7 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
 
     """
     body_name = pki_message["body"].getName()
-    if body_name not in {"ir", "cr", "kur", "crr"}:
+    if body_name not in {"ir", "cr", "kur", "ccr"}:
         raise ValueError(f"Invalid PKIMessage body: {pki_message['body'].getName()} Expected: ir, cr, kur, crr")
 
     cert_req_msg = get_cert_req_msg_from_pkimessage(pki_message, index=cert_req_index)
@@ -2153,7 +2153,7 @@ def verify_sig_pop_for_pki_request(  # noqa: D417 Missing argument descriptions
 
     """
     body_name = pki_message["body"].getName()
-    if body_name in {"ir", "cr", "kur", "crr"}:
+    if body_name in {"ir", "cr", "kur", "ccr"}:
         cert_req_msg = get_cert_req_msg_from_pkimessage(pki_message, index=cert_index)
         popo: rfc4211.ProofOfPossession = cert_req_msg["popo"]
         if not popo["signature"].isValue:
@@ -2478,7 +2478,7 @@ def get_response_body_type(request: PKIMessageTMP) -> str:
         return "cp"
     if body_name == "kur":
         return "kup"
-    if body_name == "crr":
+    if body_name == "ccr":
         return "ccp"
 
     raise ValueError(f"Invalid PKIMessage body: {body_name}. Expected: ir, cr, kur, crr or p10cr.")
@@ -2695,7 +2695,7 @@ def enforce_lwcmp_for_ca(  # noqa: D417 Missing argument descriptions in the doc
     """
     if request["body"].getName() == "p10cr":
         pass
-    elif request["body"].getName() in {"ir", "cr", "kur", "crr"}:
+    elif request["body"].getName() in {"ir", "cr", "kur", "ccr"}:
         if len(request["body"][request["body"].getName()]) != 1:
             raise BadRequest("Only one certificate request is allowed for LwCMP.")
 
@@ -4702,7 +4702,7 @@ def get_cert_template_from_pkimessage(request: PKIMessageTMP, index: Strint = 0)
     :return: The `CertTemplate` object.
     """
     body_name = request["body"].getName()
-    if body_name not in ["ir", "cr", "kur", "crr"]:
+    if body_name not in ["ir", "cr", "kur", "ccr"]:
         raise ValueError(f"The PKIMessage was not a certification request. Got body name: {body_name}")
 
     body_name = request["body"].getName()
-- 
2.43.0


From 2a1ce351c127e31d4fb0f583d4fb9a68b3562615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 02/25] fix: check every request of a message for a compromised
 key

---
 mock_ca/mock_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 3d4e6f4..128c7fb 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -426,7 +426,7 @@ class CertRevStateDB:
             for entry in request["body"][body_name]:
                 public_key = ca_ra_utils.get_public_key_from_cert_req_msg(entry, must_be_present=False)
                 if public_key is None:
-                    return False
+                    continue
 
                 if self.rev_entry_list.contains_key(public_key):
                     return True
-- 
2.43.0


From 1af7850e2072022f5e567266984520c6a65ff767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 03/25] fix: refuse requests for keys of certificates recorded
 as compromised

---
 mock_ca/ca_handler.py       |  2 +-
 mock_ca/cert_req_handler.py |  3 ++-
 mock_ca/mock_fun.py         | 20 +++++++++++++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 324ebb7..5491ffd 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -886,7 +886,7 @@ class CAHandler:
         :raises BadCertTemplate: If the certificate template is invalid.
         """
         try:
-            result = self.state.cert_state_db.check_request_for_compromised_key(pki_message)
+            result = self.state.check_request_for_compromised_key(pki_message)
             if result:
                 raise BadCertTemplate("The certificate template contained a compromised key.")
         except (InvalidKeyData, BadAsn1Data, BadAlg) as e:
diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 53da0d2..bc1e3b1 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -429,7 +429,8 @@ class CertReqHandler:
         :return: The response `PKIMessage`.
         """
         logging.debug("CertReqHandler: Processing P10CR message")
-        self.state.cert_state_db.check_request_for_compromised_key(pki_message)
+        if self.state.check_request_for_compromised_key(pki_message):
+            raise BadCertTemplate("The certification request contained a compromised key.")
 
         for_mac = self._get_for_mac(request=pki_message)
         logging.info("Processing P10CR message")
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 128c7fb..50c17bf 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1286,6 +1286,22 @@ class CertificateDB:
             hash_alg=hash_alg,
         )
 
+    def check_request_for_compromised_key(self, request: PKIMessageTMP) -> bool:
+        """Check if the request contains the key of a certificate that was revoked for a key compromise.
+
+        :param request: The certificate request.
+        :return: Whether the request contains a compromised key.
+        """
+        compromised = [
+            entry.cert
+            for entry in self._certs
+            if entry.cert_state == CertStateEnum.REVOKED
+            and entry.revoked_entry is not None
+            and entry.revoked_entry.reason in ["keyCompromise", "cACompromise"]
+        ]
+        rev_db = CertRevStateDB.build(hash_alg=self.hash_alg, revoked_certs=compromised)
+        return rev_db.check_request_for_compromised_key(request)
+
     def get_ocsp_response(
         self,
         request: ocsp.OCSPRequest,
@@ -1464,7 +1480,9 @@ class MockCAState:
 
     def check_request_for_compromised_key(self, request_msg: PKIMessageTMP) -> bool:
         """Check the request for a compromised key."""
-        return self.cert_state_db.check_request_for_compromised_key(request_msg)
+        if self.cert_state_db.check_request_for_compromised_key(request_msg):
+            return True
+        return self.certificate_db.check_request_for_compromised_key(request_msg)
 
     def add_may_update_cert(
         self, old_cert: rfc9480.CMPCertificate, update_cert: rfc9480.CMPCertificate, was_confirmed: bool
-- 
2.43.0


From 683ca37dc128634a065aae5c907745d02bbd206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 04/25] fix: build the current CRL from the certificate
 database the revocations are recorded in

---
 mock_ca/ca_handler.py | 4 ++--
 mock_ca/mock_fun.py   | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 5491ffd..b27018e 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -1392,9 +1392,9 @@ class CAHandler:
 
     def get_current_crl(self) -> bytes:
         """Process the CRL request and return the response."""
-        response = self.state.cert_state_db.get_crl_response(
+        response = self.state.certificate_db.get_current_crl(
             ca_cert=self.ca_cert,
-            sign_key=self.ca_key,
+            ca_key=self.ca_key,
             hash_alg="sha256",
         )
         return response.public_bytes(encoding=Encoding.DER)
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 50c17bf..c52beef 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1280,6 +1280,7 @@ class CertificateDB:
             updated_certs=self.updated_certs,
             crl_number=self._crl_number,
         )
+        self._crl_number += 1
         return rev_db.get_crl_response(
             sign_key=ca_key,
             ca_cert=ca_cert,
-- 
2.43.0


From 805abd59373d42d0b829d6d8a2319424b345baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 05/25] fix: keep the revocation entry of a certificate revoked
 without a reason

---
 mock_ca/mock_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index c52beef..ba8e435 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1083,7 +1083,7 @@ class CertificateDB:
         :param revoke_entry: The revoked entry to add to the certificate.
         """
         if revoke_entry is None:
-            RevokedEntry(
+            revoke_entry = RevokedEntry(
                 reason="unspecified",
                 cert=entry.cert,
                 hashed_cert=cert_digest,
-- 
2.43.0


From d7208c5f5d01dcb6922e2709a1ad453f7306f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 06/25] fix: answer OCSP requests for updated certificates

---
 mock_ca/mock_fun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index ba8e435..c817320 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -307,6 +307,8 @@ class CertRevStateDB:
         if num in nums:
             status = "revoked"
             found_cert = self.rev_entry_list.get_cert_by_serial_number(num)
+            if found_cert is None:
+                found_cert = self.update_entry_list.get_cert_by_serial_number(num)
         else:
             for cert in issued_certs:
                 if num == int(cert["tbsCertificate"]["serialNumber"]):
-- 
2.43.0


From ba63a2e7804fbe26e6108b0e6dba42674d84dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 07/25] fix: protect responses to KEM- and DH-protected nested
 requests with the derived secret

---
 mock_ca/ca_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index b27018e..469c03a 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -603,13 +603,13 @@ class CAHandler:
                         response = patch_senderkid(response, self.sender.encode("utf-8"))
                         response = protect_pkimessage_kem_based_mac(
                             pki_message=response,
-                            shared_secret=self.pre_shared_secret,
+                            shared_secret=ss,
                         )
                         return response
                 if prot_type == ProtectedType.DH:
                     # DH-based MAC protection
                     ca_ecc_cert, ss = self.protection_handler.get_dh_cert_and_ss(request_msg["extraCerts"][0])
-                    cert_chain = [ca_ecc_cert, self.ca_cert, self.ca_cert_chain]
+                    cert_chain = [ca_ecc_cert, self.ca_cert] + self.ca_cert_chain
                     response = protect_pkimessage(
                         pki_message=response,
                         shared_secret=ss,
-- 
2.43.0


From 625345db08507ae8f61af97e1c0ed39e37ad6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 08/25] fix: verify DH-protected revocation requests with the
 derived secret

---
 mock_ca/rev_handler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mock_ca/rev_handler.py b/mock_ca/rev_handler.py
index 675be05..1766945 100644
--- a/mock_ca/rev_handler.py
+++ b/mock_ca/rev_handler.py
@@ -10,9 +10,9 @@ from typing import Any, Dict, List, Optional, Tuple
 
 from cryptography.exceptions import InvalidSignature
 from cryptography.hazmat.primitives import serialization
-from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey
-from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey
-from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
+from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey, EllipticCurvePublicKey
+from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey, X448PublicKey
+from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey
 from pyasn1_alt_modules import rfc9480
 
 from mock_ca.mock_fun import (
@@ -400,11 +400,11 @@ class RevocationHandler:
             raise ValueError("Provided public key is not an ECDH key.")
 
         key = None
-        if isinstance(public_key, X25519PrivateKey):
+        if isinstance(public_key, X25519PublicKey):
             key = self.x25519_key
-        elif isinstance(public_key, X448PrivateKey):
+        elif isinstance(public_key, X448PublicKey):
             key = self.x448_key
-        elif isinstance(public_key, EllipticCurvePrivateKey):
+        elif isinstance(public_key, EllipticCurvePublicKey):
             key = self.ec_key
 
         if key is None:
@@ -438,6 +438,7 @@ class RevocationHandler:
             shared_secret = self._get_ecdh_shared_secret(public_key)
 
             verify_pkimessage_protection(pki_message=pki_message, shared_secret=shared_secret)
+            return
 
         if prot_type == ProtectedType.MAC:
             raise WrongIntegrity("MAC protection is not supported for revocation requests.")
-- 
2.43.0


From 57d8d3762151fb4fe50fbbfc372fe99cd175d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 09/25] fix: select the CSR of a `p10cr` message from its body

---
 resources/ca_ra_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 5245fa6..8c2d03c 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2165,8 +2165,8 @@ def verify_sig_pop_for_pki_request(  # noqa: D417 Missing argument descriptions
                 "POP signature is missing in the PKIMessage.", error_details=[e.message] + e.error_details
             ) from e
 
-    elif pki_message["p10cr"]:
-        csr = pki_message["p10cr"]
+    elif body_name == "p10cr":
+        csr = pki_message["body"]["p10cr"]
         try:
             certutils.verify_csr_signature(csr)
 
-- 
2.43.0


From 6208a563d60b20f0e129259984893ac44415030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:10 +0000
Subject: [PATCH 10/25] fix: verify the proof-of-possession of the addressed
 certificate request

---
 resources/ca_ra_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 8c2d03c..fba8c51 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1309,7 +1309,7 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
         )
 
     elif name == "signature":
-        verify_sig_pop_for_pki_request(pki_message)
+        verify_sig_pop_for_pki_request(pki_message, cert_req_index)
     elif name == "keyEncipherment":
         public_key = get_public_key_from_cert_req_msg(cert_req_msg=cert_req_msg)
 
@@ -2382,7 +2382,7 @@ def _process_one_cert_request(
                 ) from e
 
     elif not cert_req_msg["popo"].isValue:
-        if not check_if_request_is_for_kga(request):
+        if not check_if_request_is_for_kga(request, index=cert_index):
             raise BadCertTemplate(
                 "The `popo` structure is missing in the PKIMessage."
                 "But the request is not for KGA (key generation authority)."
-- 
2.43.0


From 79c36834c90a79eb1a24d5a83630b5776b45d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 11/25] fix: compare the out-of-band hash with the hash of the
 CA certificate

---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index fba8c51..47f36be 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -369,7 +369,7 @@ def validate_oob_cert_hash(  # noqa: D417 Missing argument descriptions in the d
     if hash_name is None:
         raise BadAlg("Invalid hash algorithm inside the `OOBCertHash`")
 
-    sig = compute_hash(hash_name, encoder.encode(oob_cert_hash))
+    sig = compute_hash(hash_name, encoder.encode(ca_cert))
 
     if sig != oob_cert_hash["hashVal"].asOctets():
         raise ValueError("Invalid OOB cert hash")
-- 
2.43.0


From c0db04f92981f864c659726bf14751f6f22798ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 12/25] fix: look up the certificate of each revocation request
 by its template

---
 resources/ca_ra_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 47f36be..db575ac 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -3635,10 +3635,10 @@ def build_rp_from_rr(  # noqa: D417 missing argument descriptions in the docstri
 
     data = []
 
-    for entry in request["body"]["rr"]:
+    for rev_details in request["body"]["rr"]:
         try:
             status_info, entry = validate_rev_details(
-                rev_details=entry,
+                rev_details=rev_details,
                 issued_certs=certs,
                 revoked_certs=kwargs.get("revoked_certs"),
             )
@@ -3657,7 +3657,7 @@ def build_rp_from_rr(  # noqa: D417 missing argument descriptions in the docstri
 
         if not kwargs.get("enforce_lwcmp", True):
             cert = _contains_cert_template(
-                cert_template=entry["certDetails"],
+                cert_template=rev_details["certDetails"],
                 certs=certs,
             )
 
-- 
2.43.0


From 8b60f69ddae20f8d2855365c1b5179f6b13f6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 13/25] fix: reject revocation requests whose alternative
 signature is invalid

---
 resources/ca_ra_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index db575ac..af9607d 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -3436,7 +3436,10 @@ def _verify_pkimessage_protection_rp(
         pq_verify_logic.verify_hybrid_pkimessage_protection(
             request,
         )
-    except (InvalidSignature, InvalidAltSignature):
+    except InvalidAltSignature:
+        logging.debug("Failed to verify the alternative signature of the PKIMessage protection.")
+        return "badMessageCheck", "Failed to verify the alternative signature of the PKIMessage protection."
+    except InvalidSignature:
         try:
             protectionutils.verify_pkimessage_protection(request, shared_secret=shared_secret)
         except (ValueError, InvalidSignature):
-- 
2.43.0


From 2eba93057ffc42e865e9579fe0a2de132cc93898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 14/25] fix: draw POP challenges and RSA-KEM secrets from the
 cryptographic generator

---
 pq_logic/kem_mechanism.py | 4 ++--
 resources/ca_ra_utils.py  | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pq_logic/kem_mechanism.py b/pq_logic/kem_mechanism.py
index 76e22bb..09e73df 100644
--- a/pq_logic/kem_mechanism.py
+++ b/pq_logic/kem_mechanism.py
@@ -6,7 +6,7 @@
 
 import logging
 import os
-import random
+import secrets
 from typing import Optional, Tuple, Union
 
 from cryptography.hazmat.primitives import hashes
@@ -349,7 +349,7 @@ class RSAKem:
         pub_num = public_key.public_numbers()
         e, n = pub_num.e, pub_num.n
         n_len = (n.bit_length() + 7) // 8
-        shared_secret = rand or random.randint(2, n - 1)  # MUST always be random.
+        shared_secret = rand or 2 + secrets.randbelow(n - 2)  # MUST always be random.
         ct = pow(shared_secret, e, n)
         ct = _i2osp(ct, n_len)
         z_bytes = _i2osp(shared_secret, n_len)
diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index af9607d..ef21615 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -6,7 +6,6 @@
 
 import logging
 import os
-import random
 from typing import Dict, List, Optional, Sequence, Tuple, Union
 
 import pyasn1.error
@@ -3749,7 +3748,7 @@ def build_popdecc_from_request(  # noqa D417 undocumented-param
 
     cert_req_id = cert_req_id or int(request["body"][body_name][request_index]["certReq"]["certReqId"])
 
-    rand_int = rand_int or random.randint(1, 1000)
+    rand_int = rand_int or int.from_bytes(os.urandom(16), "big")
 
     for_pvno = for_pvno or request["header"]["pvno"]
     for_pvno = int(for_pvno)
-- 
2.43.0


From c77d3fc2ce0b72f666db26b3515057b127aad515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 15/25] fix: use a fresh sender nonce in responses by default

---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index ef21615..c1571cc 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2230,7 +2230,7 @@ def set_ca_header_fields(request: PKIMessageTMP, kwargs: dict) -> dict:
         os.urandom(16) if not request["header"]["recipNonce"].isValue else request["header"]["recipNonce"].asOctets()
     )
 
-    if not kwargs.get("use_fresh_nonce", True):
+    if kwargs.get("use_fresh_nonce", True):
         alt_nonce = os.urandom(16)
 
     kwargs["sender_nonce"] = kwargs.get("sender_nonce") or alt_nonce
-- 
2.43.0


From 68f5eaa9f753e72e30fce10c1b3a2060eea4bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 16/25] fix: compare the MAC algorithm of the `pkiconf` message

---
 resources/protectionutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 0bb0387..9159d0c 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1637,12 +1637,14 @@ def mac_protection_algorithms_must_match(  # noqa D417 undocumented-param
         pki_conf_id = pkiconf["header"]["protectionAlg"]
         # To just compare DER, because they must be the same.
         if same_salt:
-            if not _compare_alg_id(pki_conf_id, response_algo, allow_null=False):
+            if not _compare_alg_id(pki_conf_id, response_algo, allow_null=True):
                 logging.info("PKI Confirmation `protectionAlg`:\n %s", pki_conf_id.prettyPrint())
                 raise ValueError("Protection algorithm mismatch between PKI Confirmation and CA response.")
         else:
             # For convenience, use the request, which must be equal.
-            _compare_mac_params(request_algo, response_algo, same_salt=same_salt, allow_null=allow_null)
+            if request_algo["algorithm"] != pki_conf_id["algorithm"]:
+                raise ValueError("Protection algorithm mismatch between PKI Confirmation and request.")
+            _compare_mac_params(request_algo, pki_conf_id, same_salt=same_salt, allow_null=allow_null)
 
 
 @not_keyword
-- 
2.43.0


From 14dbf6a6bf3bbeba62a7646e4084fb0857628a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 17/25] fix: keep a single error detail of an exception as one
 text

---
 resources/exceptions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/exceptions.py b/resources/exceptions.py
index 110340b..78ddf29 100644
--- a/resources/exceptions.py
+++ b/resources/exceptions.py
@@ -17,7 +17,7 @@ class CMPTestSuiteError(Exception):
 
     failinfo: str = "systemFailure"
     error_details: List[str]
-    bit_num: int = 26
+    bit_num: int = 25
 
     def __init__(
         self, message: str, error_details: Optional[Union[List[str], str]] = None, failinfo: Optional[str] = None
@@ -33,8 +33,9 @@ class CMPTestSuiteError(Exception):
         if error_details is not None:
             if isinstance(error_details, str):
                 self.error_details = [error_details]
+            else:
+                self.error_details += error_details
 
-        self.error_details += error_details if error_details is not None else []
         super().__init__(message)
 
     def get_failinfo(self) -> str:
-- 
2.43.0


From 3ebb2b1fb5739f2b6f4ac0809059e5e0d9f3d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 18/25] fix: use the PKIFailureInfo names and bit positions of
 RFC 4210 in the exceptions

---
 resources/exceptions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resources/exceptions.py b/resources/exceptions.py
index 78ddf29..2a9f536 100644
--- a/resources/exceptions.py
+++ b/resources/exceptions.py
@@ -63,7 +63,7 @@ class BadSigAlgID(CMPTestSuiteError):
     """Raised when the algorithm identifier and the signing key do not match."""
 
     failinfo = "badDataFormat"
-    bit_num = 0
+    bit_num = 5
 
 
 class BadSigAlgIDParams(BadSigAlgID):
@@ -91,6 +91,7 @@ class AlgorithmProfileError(CMPTestSuiteError):
     """Raised when an algorithm used which is not in RFC9483 or violate the expected algorithm for LwCMP."""
 
     failinfo = "badAlg"
+    bit_num = 0
 
     def __init__(self, message: str):
         """Initialize the exception with the message.
@@ -364,8 +365,8 @@ class BadKeyUsage(NotAuthorized):
 class BodyRelevantError(CMPTestSuiteError):
     """Raised when a `PKIBody` relevant error is raised."""
 
-    failinfo = "badRelevantError"
-    bit_num = 24
+    failinfo = "systemFailure"
+    bit_num = 25
     pki_message: PKIMessageTMP
 
     def __init__(
-- 
2.43.0


From f1fca1d90ed1d566fb625c590eb75095546b7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 19/25] fix: keep leading zero bytes of the one-pass MQV shared
 secret

---
 resources/cryptoutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index f21652a..8cdcf91 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -1009,7 +1009,7 @@ def compute_sender_ecdh_mqv_one_pass_exchange(
         raise ValueError("Computed point is at infinity.")
 
     z = point.x
-    return z.to_bytes((z.bit_length() + 7) // 8, byteorder="big")
+    return z.to_bytes((q_eu.curve.field.p.bit_length() + 7) // 8, byteorder="big")
 
 
 @not_keyword
@@ -1124,4 +1124,4 @@ def compute_recipient_ecdh_mqv_one_pass_exchange(
         raise ValueError("Computed point is at infinity.")
 
     z = point.x
-    return z.to_bytes((z.bit_length() + 7) // 8, byteorder="big")
+    return z.to_bytes((q_eu_tiny.curve.field.p.bit_length() + 7) // 8, byteorder="big")
-- 
2.43.0


From 05ba4f3f2a8dc38ce0e5080caedad8ee9084f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 20/25] fix: accept the status `rejection` in revocation
 responses

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index f6e4541..4235505 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1689,7 +1689,7 @@ def check_rp_cmp_message_body(  # noqa D417 undocumented-param
             raise ValueError("The `failInfo` MUST be absent if the `status` is accepted")
 
         return
-    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejected")
+    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejection")
     if is_correct:
         return
 
-- 
2.43.0


From f294abc51b4f459de930e2acbbba767d5f8498fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 21/25] fix: reject response times too far before the request
 time

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 4235505..17af15e 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1421,7 +1421,7 @@ def check_message_time_field(
             _check_message_time_for_request(time_obj, allowed_interval)
             return
 
-        if time_diff > allowed_interval:
+        if abs(time_diff) > allowed_interval:
             raise BadTime(f"Time difference exceeds allowed {allowed_interval} seconds: {time_diff} seconds")
 
         logging.info("The time difference was: %.2f seconds, which is within the allowed interval.", time_diff)
-- 
2.43.0


From 1b5d63049c6441b3c6edecafd9d52b45a3df94b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 22/25] fix: reject hybrid issuing requests with revoked
 certificates

---
 mock_ca/hybrid_handler.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/mock_ca/hybrid_handler.py b/mock_ca/hybrid_handler.py
index c066626..852514f 100644
--- a/mock_ca/hybrid_handler.py
+++ b/mock_ca/hybrid_handler.py
@@ -394,6 +394,15 @@ class HybridIssuingHandler:
         else:
             logging.error("Not implemented yet, so validate the request.")
 
+    def _must_not_be_revoked(self, cert: rfc9480.CMPCertificate) -> None:
+        """Check that the certificate is not revoked.
+
+        :param cert: The certificate to check.
+        :raises CertRevoked: If the certificate is revoked.
+        """
+        if self.revocation_handler.is_revoked(cert):
+            raise CertRevoked("The hybrid certificate is revoked.")
+
     def is_revoked_for_issuing(
         self,
         request: PKIMessageTMP,
@@ -413,7 +422,8 @@ class HybridIssuingHandler:
             self.chameleon_handler.is_revoked(request=request)
             public_key, sender = load_chameleon_csr_delta_key_and_sender(csr=request["body"]["p10cr"])
 
-            self.revocation_handler.public_key_is_revoked(public_key, sender)
+            if self.revocation_handler.public_key_is_revoked(public_key, sender):
+                raise CertRevoked("The delta key of the chameleon request is revoked.")
 
         elif result == "catalyst":
             pass
@@ -425,20 +435,20 @@ class HybridIssuingHandler:
                 raise CertRevoked("The Sun hybrid certificate is revoked.")
 
         elif result == "related_cert":
-            self.revocation_handler.is_revoked(cert)
+            self._must_not_be_revoked(cert)
             if used_both_certs:
                 related_cert = get_related_cert_from_list(cert_a=cert, certs=request["extraCerts"][1:])
-                self.revocation_handler.is_revoked(related_cert)
+                self._must_not_be_revoked(related_cert)
         elif result.startswith("composite-sig"):
-            self.revocation_handler.is_revoked(cert)
+            self._must_not_be_revoked(cert)
 
         elif result == "cert_discovery":
-            self.revocation_handler.is_revoked(cert)
+            self._must_not_be_revoked(cert)
             if used_both_certs:
                 related_cert = get_cert_discovery_cert(cert)
                 if related_cert is None:
                     raise BadMessageCheck("The related certificate is not found, or could not be extracted.")
-                self.revocation_handler.is_revoked(related_cert)
+                self._must_not_be_revoked(related_cert)
 
         else:
             raise NotImplementedError(f"Unknown hybrid certificate type: {result}")
-- 
2.43.0


From 7261b012fbee8245a7a63a367c0f55ab07af169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 23/25] fix: take the `cA` value of the basic constraints into
 account

---
 resources/certutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/certutils.py b/resources/certutils.py
index 32d54f2..f93c378 100644
--- a/resources/certutils.py
+++ b/resources/certutils.py
@@ -2360,7 +2360,7 @@ def is_ca_cert(cert: rfc9480.CMPCertificate) -> Optional[bool]:
     if rest:
         raise BadAsn1Data("BasicConstraints")
 
-    return basic_constraints["cA"].isValue
+    return bool(basic_constraints["cA"])
 
 
 def _validate_key_identifiers(
-- 
2.43.0


From 69e6f858290af746059b0bad664626c982000444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:11 +0000
Subject: [PATCH 24/25] fix: build encrypted certificate responses for every
 request body

---
 pq_logic/hybrid_issuing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pq_logic/hybrid_issuing.py b/pq_logic/hybrid_issuing.py
index 026af04..a2281c6 100644
--- a/pq_logic/hybrid_issuing.py
+++ b/pq_logic/hybrid_issuing.py
@@ -249,7 +249,7 @@ def build_enc_cert_response(
         # TODO fix for multiple request.
         pass
 
-    cert_req_msg: rfc4211.CertReqMsg = request["body"]["ir"][int(cert_index)]
+    cert_req_msg: rfc4211.CertReqMsg = request["body"][request["body"].getName()][int(cert_index)]
     cert_req_id = cert_req_id or cert_req_msg["certReq"]["certReqId"]
     cert_req_id = int(cert_req_id)
 
-- 
2.43.0


From 5cfe97b591728e97c91718034f7fa589ffee78e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:56:04 +0000
Subject: [PATCH 25/25] fix: read the private key of EncKeyWithID under its
 name

---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index c1571cc..92427c1 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2986,7 +2986,7 @@ def verify_encrypted_key_popo(
                 logging.debug(enc_key["identifier"].prettyPrint())
                 raise ValueError("EncKeyWithID identifier name mismatch.")
 
-    data = encoder.encode(enc_key["privateKeyInfo"])
+    data = encoder.encode(enc_key["privateKey"])
 
     private_key = CombinedKeyFactory.load_private_key_from_one_asym_key(data, must_be_version_2=False)
 
-- 
2.43.0

