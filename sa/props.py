"""The properties: statement, anchors, the functions whose path contracts decide them, and the extra rules."""

INP = ["inputs"]
HIS = ["inputs", "histories"]
CFG = ["inputs", "configurations"]

# id -> dict(title, statement, over, text, why, fns=[module:globs], mech=[(name, where)], state, rules, extra)
P = {}


def prop(pid, title, statement, over, text, why, fns, mech, extra=(), rules=None, state=()):
    P[pid] = {"id": pid, "title": title, "statement": " ".join(statement.split()), "over": over,
              "text": " ".join(text.split()), "why": " ".join(why.split()), "fns": fns, "mech": mech,
              "extra": list(extra), "rules": rules, "state": list(state)}


# =============================================================== mock CA
prop("A01", "The CA verifies a request before it acts on it",
     """For every request body other than revocation requests (verified by their own handler) and general messages
     handled before it, the CA checks that the sender's certificate may be used, verifies the protection, and rejects
     requests for already-open transactions before it dispatches the body to the code that issues, revokes or confirms.
     A body type it does not implement, or a response type sent as a request, is answered with an error and changes no state.""",
     HIS, "every request message, every body type, every prior history of the CA",
     """The unit tests send a handful of well-formed messages per body type; no test can show that no combination of
     body type, header fields and CA configuration reaches an issuing handler without passing the checks.""",
     ["mock_ca.ca_handler:CAHandler.process_normal_request,CAHandler.verify_protection,CAHandler.process_cert_request,"
      "CAHandler.process_ir,CAHandler.process_rr,CAHandler.process_cert_conf,CAHandler.process_genm,CAHandler.process_nested_request",
      "mock_ca.rev_handler:RevocationHandler.is_not_allowed_to_request",
      "mock_ca.cert_req_handler:CertReqHandler.process_cert_request"],
     [("request dispatch", "mock_ca/ca_handler.py:CAHandler.process_normal_request"),
      ("per-body handlers", "mock_ca/ca_handler.py:CAHandler.process_*")])

prop("A02", "A message whose protection does not verify is always rejected",
     """A PKIMessage is accepted by the protection checks only if its protection value verifies under the key or
     shared secret the message's protection algorithm calls for: a MAC with the configured or negotiated secret, a
     signature with the first extra certificate's key, an EC Diffie-Hellman or KEM derived MAC with the derived
     secret. Missing protection, a missing algorithm, an unknown algorithm or a failed verification ends in an error,
     never in silent acceptance.""",
     CFG, "every message, protection algorithm, key type and CA protection configuration",
     """Tests exercise one good and one broken message for a few algorithms; the guarantee is over every algorithm
     branch and every malformed combination of header algorithm, protection value and certificates.""",
     ["mock_ca.prot_handler:ProtectionHandler.validate_*,ProtectionHandler.verify_*,ProtectionHandler.check_correct_prot_type,"
      "ProtectionHandler.get_dh_cert_and_ss",
      "resources.protectionutils:verify_*,compute_mac_from_alg_id,get_protection_type_from_pkimessage,"
      "get_protection_alg_name,verify_rsassa_pss_*",
      "pq_logic.pq_verify_logic:verify_hybrid_pkimessage_protection",
      "mock_ca.mock_fun:KEMSharedSecretList.verify_pkimessage_protection"],
     [("protection dispatch", "mock_ca/prot_handler.py:ProtectionHandler.validate_protection"),
      ("MAC/signature verification", "resources/protectionutils.py:verify_pkimessage_protection")])

prop("A03", "Signature-protected requests are only accepted from trusted, permitted signers",
     """With signer checks enabled, the CA accepts a signature-protected request only if the protection certificate
     is or chains to a trust anchor it holds (or is one it issued), every certificate below an anchor carries the key usage
     and extended key usage its configuration demands, and, for cross-certification requests, is a CA certificate. Otherwise the request is
     rejected.""",
     CFG, "every signer certificate, chain, extension combination and CA configuration",
     "Tests cover a few fixed chains; the claim is over every chain, every extension combination and every configuration.",
     ["mock_ca.prot_handler:ProtectionHandler.check_signer*,ProtectionHandler.validate_signer_for_ccr,"
      "ProtectionHandler.validate_signature_protection,ProtectionHandler.__init__,ProtectionHandler.set_config",
      "mock_ca.cert_req_handler:CertReqHandler.check_signer,CertReqHandler.check_signer_is_a_issued_cert,"
      "CertReqHandler.is_certificate_in_list,CertReqHandler.process_cr,CertReqHandler.handle_cross_cert_req",
      "resources.certutils:validate_cmp_extended_key_usage,validate_key_usage,must_not_contain_key_usage,is_ca_cert,"
      "certificates_must_be_trusted,validate_ca_cross_signed_cert",
      "mock_ca.db_config_vars:*"],
     [("signer trust", "mock_ca/prot_handler.py:ProtectionHandler.check_signer_is_trusted"),
      ("signer extensions", "mock_ca/prot_handler.py:ProtectionHandler.check_signer_extensions")])

prop("A04", "A certificate is confirmed only by its own transaction's certConf",
     """The CA marks an issued certificate confirmed only on a certConf that carries the transaction ID, nonces and
     sender of the request that produced it, whose status, certReqId and certificate hash match that certificate, and
     that was not confirmed before. Mismatching, repeated or unsolicited certConf messages are answered with an error
     and confirm nothing.""",
     HIS, "every certConf message and every history of open, confirmed and unknown transactions",
     """Tests replay a few exchanges; which transaction, hash or nonce is compared with which stored one is a claim
     over every interleaving of transactions.""",
     ["mock_ca.cert_conf_handler:*",
      "resources.ca_ra_utils:build_pki_conf_from_cert_conf",
      "mock_ca.ca_handler:CAHandler.process_cert_conf",
      "resources.cmputils:calculate_cert_hash",
      "mock_ca.mock_fun:MockCAState.store_transaction_certificate,MockCAState.add_tx_id,MockCAState.remove_tx_id"],
     [("certConf state", "mock_ca/cert_conf_handler.py:CertConfState"),
      ("certConf processing", "mock_ca/cert_conf_handler.py:CertConfHandler.process_cert_conf")],
     state=[("open confirmations", "transaction ID to request, response and certificates", "mock_ca/cert_conf_handler.py:CertConfState")])

prop("A05", "Responses echo the transaction and nonce and address the requester",
     """Every response built for a request carries the request's transaction ID, its senderNonce as recipNonce, a
     sender nonce of its own, the request's sender as recipient and protocol version 2 or 3 as the request requires.
     Requests whose header lacks or misuses those fields are rejected when checking is enabled.""",
     INP, "every request header and every response body type",
     "Tests compare header fields of a few exchanges; the claim is over all header shapes and all response builders.",
     ["resources.ca_ra_utils:set_ca_header_fields,build_ca_message,build_pki_conf_from_cert_conf,build_rp_from_rr,"
      "get_correct_ca_body_name,get_response_body_type,build_cp_from_p10cr,build_cp_cmp_message,build_ip_cmp_message,"
      "build_kup_from_kur,build_ccp_from_ccr,build_cmp_krp_message,build_unsuccessful_ca_cert_response",
      "mock_ca.cert_req_handler:CertReqHandler.validate_*,CertReqHandler.check_if_used,CertReqHandler.check_message_time,CertReqHandler.error_body",
      "mock_ca.cert_conf_handler:CertConfHandler.add_response,CertConfState.get_ca_response",
      "resources.cmputils:prepare_pki_message,patch_pkimessage_header_with_other_message,extract_fields_for_exchange,"
      "build_cmp_error_message,patch_transaction_id,patch_sendernonce,patch_recipnonce,patch_sender,patch_senderkid,patch_messageTime",
      "resources.general_msg_utils:build_cmp_general_response"],
     [("response header", "resources/ca_ra_utils.py:set_ca_header_fields"),
      ("request header checks", "mock_ca/cert_req_handler.py:CertReqHandler.validate_header")])

prop("A06", "Every response of the CA is protected, with the kind of protection asked for",
     """Each normal response leaves the CA protected: MAC-protected requests are answered under the same secret and
     MAC family, KEM- and DH-protected ones under the corresponding derived secret, all others with the CA's protection
     key and certificate chain in the extra certificates. An error that occurs while answering is itself answered with a
     protected error message.""",
     CFG, "every request protection, response body and CA configuration",
     "Tests look at a few responses; no test can show that no return path of any handler bypasses the signing step.",
     ["mock_ca.ca_handler:CAHandler.sign_response,CAHandler.process_normal_request,CAHandler.process_*,"
      "CAHandler.build_error_from_exception,handle_*",
      "mock_ca.prot_handler:ProtectionHandler.protect_pkimessage,ProtectionHandler.patch_for_mac,"
      "ProtectionHandler.get_same_mac_protection,ProtectionHandler.get_dh_cert_and_ss,ProtectionHandler.is_kga_kari_request,"
      "ProtectionHandler.check_if_request_is_for_kari_encr_cert",
      "resources.protectionutils:protect_pkimessage,protect_hybrid_pkimessage,protect_pkimessage_kem_based_mac,"
      "prepare_pki_protection_field,patch_protection_alg,add_cert_to_pkimessage_used_by_protection,patch_sender_and_sender_kid",
      "mock_ca.hybrid_handler:SunHybridHandler.sign_response"],
     [("response protection", "mock_ca/ca_handler.py:CAHandler.sign_response"),
      ("protection selection", "mock_ca/prot_handler.py:ProtectionHandler.protect_pkimessage")])

prop("A07", "Certificate states only move along the permitted transitions",
     """In the CA's certificate store a certificate is in exactly one of the states issued, confirmed, updated, revoked or
     revived (or waiting for a confirmation), a change of an unknown certificate is refused, a confirmation applies only to an
     unconfirmed certificate, a revocation only to a confirmed or revived one and a revival only to a revoked one; a revoked
     certificate never becomes valid again except by an explicit revival, and the request checks keep a revoked one from
     being updated.""",
     HIS, "every sequence of issue, confirm, update, revoke and revive operations over any set of certificates",
     "The transition system has unboundedly many histories; the tests step through a few of them.",
     ["mock_ca.mock_fun:CertificateDB.*,UpdateCertDB.*,RevokedEntryList.*,MockCAState.add_certs,MockCAState.add_may_update_cert,"
      "MockCAState.issued_certs,MockCAState.get_issued_certs,MockCAState.contains_cert,CertRevStateDB.add_updated_cert,CertRevStateDB.add_rev_entry",
      "mock_ca.rev_handler:RevocationHandler.mark_as_revoked,RevocationHandler.revive_cert",
      "mock_ca.cert_req_handler:CertReqHandler.process_after_request,CertReqHandler.check_cert_is_updated"],
     [("certificate store", "mock_ca/mock_fun.py:CertificateDB.change_cert_state")],
     state=[("certificate state", "issued, confirmed, updated, revoked, updated-revoked", "mock_ca/mock_fun.py:CertificateDB")])

prop("A08", "Revoked or updated certificates cannot authorise requests",
     """A request protected with, or asking to update or act on, a certificate the CA has revoked is refused as
     revoked, and one whose certificate was already replaced by a key update is refused as updated; the check looks
     at every certificate that protects the request, including alternative and delta certificates of hybrid messages.""",
     HIS, "every request and every history of revocations and updates",
     "Which certificates are consulted for which body type is a claim over all messages and histories.",
     ["mock_ca.rev_handler:RevocationHandler.is_not_allowed_to_request,RevocationHandler.is_revoked,"
      "RevocationHandler.is_updated,RevocationHandler.validate_is_updated,RevocationHandler.public_key_is_revoked",
      "mock_ca.hybrid_handler:*",
      "mock_ca.mock_fun:CertificateDB.check_is_updated,CertificateDB.get_cert_state,CertificateDB.get_cert,"
      "UpdateCertDB.is_updated,UpdateCertDB.validate_is_updated,UpdateCertDB.get_cert_by_digest,UpdateCertDB.get_entry,"
      "RevokedEntryList.is_revoked,RevokedEntryList.contains_*,"
      "CertRevStateDB.is_*,KeySecurityChecker.*",
      "mock_ca.cert_req_handler:CertReqHandler.check_cert_is_updated,CertReqHandler.process_kur"],
     [("sender certificate status", "mock_ca/rev_handler.py:RevocationHandler.is_not_allowed_to_request")])

prop("A09", "CRL and OCSP answers reflect the recorded revocation state",
     """The current CRL lists exactly the certificates recorded as revoked and those replaced by a
     key update; OCSP answers revoked for these, good for the other certificates of the CA and unauthorized for
     certificates it does not know; both are signed with the CA's key. A revival removes a certificate from both.""",
     HIS, "every history of issuing, revoking, updating and reviving, and every queried certificate",
     "Tests query a couple of serial numbers after one revocation; the claim is over every history.",
     ["mock_ca.mock_fun:CertificateDB.get_current_crl,CertificateDB.get_ocsp_response,CertificateDB.revoked_certs,CertificateDB.updated_certs,"
      "CertRevStateDB.*,RevokedEntryList.*",
      "mock_ca.ca_handler:CAHandler.get_current_crl,CAHandler.process_ocsp_request,handle_ocsp_request,handle_crl_request",
      "mock_ca.rev_handler:RevocationHandler.get_current_crl,RevocationHandler.mark_as_revoked,RevocationHandler.revive_cert",
      "resources.certutils:build_ocsp_response,create_ocsp_request",
      "mock_ca.general_msg_handler:GeneralMessageHandler.process_current_crl,GeneralMessageHandler.process_crl_update_retrieval"],
     [("OCSP and CRL building", "mock_ca/mock_fun.py:CertificateDB")])

prop("A10", "A key recorded as compromised is never certified again",
     """When a certificate is revoked for key compromise its key is remembered, and every later certificate request
     for that key, in any request body that carries a key, is refused. For hybrid keys the
     component keys are compared as well.""",
     HIS, "every history of compromise revocations and every later request body and key type",
     "The refusal must hold for every key type, body type and history; tests try one.",
     ["mock_ca.mock_fun:RevokedEntryList.compromised_keys,RevokedEntryList.contains_key,RevokedEntryList.add_entry,"
      "CertRevStateDB.add_compromised_key,CertRevStateDB.check_request_for_compromised_key,KeySecurityChecker.*,"
      "MockCAState.check_request_for_compromised_key,MockCAState.contains_pub_key",
      "mock_ca.ca_handler:CAHandler.validate_p10cr_public_key,CAHandler.process_normal_request",
      "mock_ca.rev_handler:RevocationHandler.public_key_is_revoked",
      "mock_ca.cert_req_handler:CertReqHandler.check_same_key_cert_request,CertReqHandler.process_p10cr",
      "resources.utils:check_public_key_is_not_unique",
      "resources.ca_ra_utils:get_public_key_from_cert_req_msg,get_cert_req_msg_from_pkimessage,get_cert_template_from_pkimessage,cert_template_exists"],
     [("compromised-key list", "mock_ca/mock_fun.py:RevokedEntryList")])

prop("A11", "A stateful hash-based signature index is accepted at most once",
     """For each stateful hash-based key a signature with a one-time index that was already used is
     rejected, the index is recorded after the request was processed, and a signature whose index exceeds the key's
     capacity or that does not verify is rejected.""",
     HIS, "every sequence of messages signed by stateful keys",
     "Index reuse is a property of histories; tests replay one message.",
     ["mock_ca.stfl_validator:*", "mock_ca.operation_dbs:StatefulSig*",
      "mock_ca.prot_handler:ProtectionHandler.validate_stfl_signature_protection",
      "resources.keyutils:get_pq_stateful_sig_index_from_sig,modify_pq_stateful_sig_private_key",
      "resources.utils:manipulate_pq_stateful_signature_bytes",
      "pq_logic.keys.stateful_sig_keys:*.get_leaf_index,*.sigs_remaining,*.used_keys,*.get_used_keys,compute_hss_signature_index",
      "resources.ca_ra_utils:is_nist_approved_xmss*,validate_cert_template_public_key"],
     [("used indices", "mock_ca/operation_dbs.py:StatefulSigState"),
      ("validator", "mock_ca/stfl_validator.py:STFLPKIMessageValidator")],
     state=[("used indices", "one-time indices already seen per key", "mock_ca/operation_dbs.py:StatefulSigKeyState")])

prop("A12", "An established KEM shared secret protects one transaction only",
     """A KEM shared secret is bound to the transaction it was established in, is found only for that transaction,
     may protect the request it was established for, and is dropped or marked used
     afterwards. A request that refers to no established secret is rejected.""",
     HIS, "every interleaving of KEM establishments and protected requests",
     "Single use and transaction binding are properties of histories with several concurrent transactions.",
     ["mock_ca.mock_fun:KEMShared*,MockCAState.add_kem_mac_shared_secret,MockCAState.get_kem_mac_shared_secret",
      "mock_ca.general_msg_handler:GeneralMessageHandler.add_shared_secert,GeneralMessageHandler.remove_shared_secert,"
      "GeneralMessageHandler.process_general_msg",
      "mock_ca.prot_handler:ProtectionHandler.verify_kem_based_mac_protection",
      "resources.general_msg_utils:build_genp_kem_ct_info_from_genm,validate_genp_kem_ct_info",
      "resources.protectionutils:prepare_kem_*,compute_kem_based_mac_from_alg_id,verify_kem_based_mac_protection,"
      "protect_pkimessage_kem_based_mac,may_get_tx_id"],
     [("shared secrets", "mock_ca/mock_fun.py:KEMSharedSecretList")])

prop("A13", "No certificate is issued without valid proof of possession",
     """A certificate or enrollment response is produced for a requested signature key only after its proof-of-possession
     signature verified over the certificate request with that key; a request without proof of possession is only
     honoured for RA-verified requests that are permitted, key-encipherment and key-agreement keys (answered with an encrypted
     certificate or challenge) and centrally generated keys. A failing or unfitting proof is answered as bad POP.""",
     CFG, "every request message, key type and POP choice, for each requested certificate in the message",
     "Which POP form is accepted for which key type is a claim over all combinations and all positions of a request.",
     ["resources.ca_ra_utils:respond_to_*,verify_popo_for_cert_request,verify_sig_pop_for_pki_request,"
      "build_cp_from_p10cr,build_cp_cmp_message,build_ip_cmp_message,build_kup_from_kur,build_ccp_from_ccr,build_cmp_krp_message,"
      "prepare_encr_cert_from_request,check_if_request_is_for_kga,get_popo_from_pkimessage,process_encrypted_key,validate_enc_key_with_id,"
      "verify_encrypted_key_popo,prepare_cert_or_enc_cert,validate_cert_template_public_key",
      "mock_ca.cert_req_handler:CertReqHandler.process_*,CertReqHandler.handle_cross_cert_req",
      "resources.certutils:verify_csr_signature",
      "pq_logic.hybrid_issuing:verify_sig_popo_catalyst_cert_req_msg,build_*,prepare_catalyst_cert_req_msg_approach"],
     [("POP dispatch", "resources/ca_ra_utils.py:respond_to_cert_req_msg"),
      ("POP signature", "resources/ca_ra_utils.py:verify_sig_pop_for_pki_request")])

prop("A14", "A POP challenge is passed only with the decrypted random value",
     """A challenge is issued with a fresh random value encrypted to the requested key; a certificate follows only if the
     response, in the same transaction, returns that integer. A response to no challenge, a wrong number, or
     a mismatched identity is rejected, and the challenge is consumed by a successful response.""",
     HIS, "every challenge exchange and interleaving of transactions",
     "Tests run single exchanges; replay, cross-transaction answers and malformed challenges are histories.",
     ["mock_ca.challenge_handler:*",
      "resources.ca_ra_utils:prepare_challenge,prepare_challenge_enc_rand,build_popdecc_from_request,get_cert_req_msg_from_pkimessage",
      "resources.extra_issuing_logic:*",
      "resources.cmputils:prepare_popo_challenge_for_non_signing_key"],
     [("challenge state", "mock_ca/challenge_handler.py:ChallengeHandler.handle_challenge"),
      ("client side of the challenge", "resources/extra_issuing_logic.py:process_pkimessage_with_popdecc")])

prop("A15", "A key update is bound to the certificate that signs it",
     """A key update request is honoured only if it is signature-protected with a certificate known to the CA, names
     exactly that certificate in its old-certificate control (when present or required), asks for a different key
     unless same keys are permitted, and keeps subject and issuer consistent; the old certificate is marked
     updated only with the new one.""",
     HIS, "every key update request, control set and certificate history",
     "The binding between control, protection certificate and database entry ranges over all requests and histories.",
     ["resources.ca_ra_utils:validate_kur_controls,build_kup_from_kur,validate_cert_request_controls",
      "mock_ca.cert_req_handler:CertReqHandler.process_kur,CertReqHandler.check_cert_is_updated,CertReqHandler.check_same_key_cert_request,"
      "CertReqHandler.process_after_request,CertReqHandler.add_request_for_cert_conf,CertReqHandler.check_signer_is_a_issued_cert",
      "mock_ca.mock_fun:UpdateCertDB.*,CertificateDB.update_state,CertificateDB.check_is_updated,CertificateDB.get_updated_history,"
      "MockCAState.add_may_update_cert,CertRevStateDB.add_updated_cert",
      "mock_ca.cert_conf_handler:CertConfHandler.add_request,CertConfHandler.add_confirmed_certs",
      "resources.cmputils:prepare_old_cert_id_control,build_key_update_request,prepare_controls_structure,add_controls_to_pkimessage"],
     [("old certificate control", "resources/ca_ra_utils.py:validate_kur_controls")])

prop("A16", "Nested messages are unwrapped only for trusted registration authorities",
     """A nested message is accepted only if its outer protection verifies and its signer is a trusted RA; the inner
     messages' own protection and body types are checked, transaction IDs and nonces of an added-protection wrapper
     equal the inner ones and those of a batch are unique, and the answers of a batch come back in one protected nested response
     in order.""",
     HIS, "every nesting structure, number of inner messages and outer signer",
     "Structures are unbounded; tests build a few batches.",
     ["mock_ca.nested_handler:*",
      "mock_ca.prot_handler:ProtectionHandler.verify_added_protection,ProtectionHandler.verify_inner_batch_pkimessage,"
      "ProtectionHandler.verify_nested_protection,ProtectionHandler.check_signer_is_trusted",
      "mock_ca.ca_handler:CAHandler.process_nested_request",
      "resources.protectionutils:validate_orig_pkimessage",
      "resources.checkutils:validate_*nested*,validate_add_protection_tx_id_and_nonces",
      "resources.cmputils:build_nested_pkimessage,append_pki_message_to_nested_message,get_inner_pkimessage,prepare_orig_pki_message"],
     [("nested processing", "mock_ca/nested_handler.py:NestedHandler.process_nested_request")])

prop("A17", "Every rejection carries the failure bit of its cause",
     """Whenever the CA or the utilities reject something for a protocol reason, the error raised is the class of that
     reason, its failInfo name is a defined PKIFailureInfo bit and the numeric bit it advertises is the position RFC
     4210 gives that name; the CA answers with a rejection status carrying that bit and the error's text.""",
     INP, "every error path of the CA",
     "There are hundreds of error paths; tests reach a fraction and compare few failInfo bits.",
     ["resources.exceptions:*", "mock_ca.ca_handler:CAHandler.build_error_from_exception,CAHandler.process_normal_request",
      "mock_ca.rev_handler:*", "mock_ca.cert_req_handler:*", "mock_ca.cert_conf_handler:*", "mock_ca.prot_handler:ProtectionHandler.v*,ProtectionHandler.check*",
      "mock_ca.nested_handler:*", "mock_ca.challenge_handler:*", "mock_ca.stfl_validator:*",
      "resources.cmputils:build_cmp_error_message,prepare_pkistatusinfo,verify_pkistatusinfo,get_pkistatusinfo,get_status_from_pkimessage,verify_statusstring",
      "resources.ca_ra_utils:validate_*,verify_*,respond_to_*,build_rp_from_rr"],
     [("error classes", "resources/exceptions.py:CMPTestSuiteError"),
      ("error answer", "mock_ca/ca_handler.py:CAHandler.build_error_from_exception")],
     extra=["failinfo_table"], rules=("ERROR", "REJECT", "ACCEPT", "VALUE", "BOOL"))

prop("A18", "A revocation request acts only on the certificate it authentically names",
     """A certificate is revoked or revived only for a request whose protection verifies, whose signer is entitled to
     the named certificate, whose issuer and serial number name a certificate of this CA and whose reason code is one
     of those allowed; revoking twice, reviving a non-revoked certificate and unknown certificates are answered with
     the corresponding failure and leave the state unchanged. Each requested entry gets its own status in order.""",
     HIS, "every revocation request and every revocation history",
     "Tests revoke and revive one certificate; reasons, entries, signers and prior states multiply.",
     ["mock_ca.rev_handler:*", "mock_ca.ca_handler:CAHandler.process_rr",
      "resources.ca_ra_utils:validate_rr_crl_entry_details_reason,validate_rev_details,build_rp_from_rr",
      "mock_ca.mock_fun:RevokedEntryList.add_entry,RevokedEntryList.remove*,RevokedEntryList.is_revoked,CertificateDB.change_cert_state",
      "resources.cmputils:build_cmp_revoke_request,build_cmp_revive_request,prepare_crl_reason_extensions,prepare_rev_details,prepare_rev_req_content",
      "resources.checkutils:check_rp_cmp_message_body"],
     [("revocation handling", "mock_ca/rev_handler.py:RevocationHandler.process_revocation_request")])

prop("A19", "An issued certificate carries exactly the requested name, key and extensions",
     """A certificate issued from a template or CSR has the requested subject and public key, the issuing CA's name as
     issuer, the CA's signature, the requested (permitted) extensions plus those the CA adds, and a validity the
     template asked for or the default; a template with fields reserved for the CA is rejected.""",
     INP, "every template or CSR",
     "Tests compare fields for a few templates; the mapping must hold for every template.",
     ["resources.certbuildutils:build_cert*,prepare_tbs*,prepare_cert_template*,prepare_validity,default_validity,sign_cert,generate_certificate,build_certificate,"
      "check_*,verify_ca_basic_constraints,prepare_authority_key_identifier_extension,prepare_ski_extension,parse_extension_and_public_key,"
      "extensions_contains_extn_id,modify_*,validate_subject_key_identifier_extension,compare_ski_value",
      "resources.compareutils:compare_cert_template_and_cert,compare_csr_and_cert,compare_pyasn1_names,is_null_dn",
      "resources.ca_ra_utils:respond_to_cert_req_msg,prepare_cert_response,prepare_ca_body,build_cp_from_p10cr,"
      "prepare_certified_key_pair,prepare_new_ca_certificate,prepare_old_with_new_cert,prepare_new_root_ca_certificate,prepare_root_ca_key_update",
      "resources.copyasn1utils:*",
      "resources.convertutils:validity_to_optional_validity,copy_asn1_certificate,subject_public_key_info_from_pubkey"],
     [("template to certificate", "resources/certbuildutils.py:build_cert_from_cert_template")])

prop("A20", "General messages get the answer type they ask for",
     """For each supported info type of a general message the CA answers with the corresponding response type and value
     (certificates, root update, CRL, algorithms, language, KEM ciphertext); unsupported types are
     reported as such, malformed values or wrong sizes are rejected, and the client-side validators accept exactly
     well-formed answers of the right type.""",
     INP, "every info type, value and message size",
     "Each info type has its own value grammar; tests send one valid value for each.",
     ["mock_ca.general_msg_handler:*", "mock_ca.ca_handler:CAHandler.process_genm",
      "resources.general_msg_utils:*", "resources.announcement:*", "mock_ca.announcement_handler:*",
      "resources.cmputils:find_oid_in_general_info,get_value_from_seq_of_info_value_field,add_general_info_values,patch_generalinfo,prepare_info_type_and_value",
      "resources.suiteenums:GeneralInfoOID.*"],
     [("general message dispatch", "mock_ca/general_msg_handler.py:GeneralMessageHandler.process_general_msg"),
      ("client-side validation", "resources/general_msg_utils.py")])

prop("A21", "Every certificate of a response answers the request with the same certReqId",
     """A response contains one answer for each request of the message, in order, each with the certReqId of its
     request, built from that request's own template, key and proof; malformed or duplicate certReqIds are rejected, and
     only granted answers carry a certificate.""",
     INP, "every number of requests in a message and every certReqId assignment",
     "Tests mostly send a single request; the index flow matters for the others.",
     ["resources.ca_ra_utils:build_ip_cmp_message,build_cp_cmp_message,build_ca_message,build_kup_from_kur,build_ccp_from_ccr,build_kga_cmp_response,"
      "validate_cert_req_id*,get_cert_req_msg_from_pkimessage,get_public_key_from_cert_req_msg,prepare_cert_response,respond_to_cert_req_msg,"
      "check_if_request_is_for_kga,get_cert_template_from_pkimessage,verify_popo_for_cert_request,build_pki_conf_from_cert_conf,enforce_lwcmp_for_ca,"
      "prepare_certified_key_pair,prepare_cert_or_enc_cert,prepare_enc_key",
      "resources.cmputils:get_cert_response_from_pkimessage,get_cert_from_pkimessage,get_certreqid_from_pkimessage,prepare_certstatus,build_cert_conf*",
      "mock_ca.cert_req_handler:CertReqHandler.add_request_for_cert_conf,CertReqHandler.process_after_request,CertReqHandler.build_cert_resp_error_response",
      "resources.checkutils:validate_certReqId,validate_ca_message_body"],
     [("response building", "resources/ca_ra_utils.py:build_ip_cmp_message")], extra=["index_flow"])

prop("A22", "Hybrid issuing endpoints check both keys before they issue",
     """The hybrid endpoints (composite related certificates, Sun hybrid, chameleon, catalyst, certificate
     discovery) return certificates only if every contained proof (primary and
     alternative or delta signature, certificate binding, discovery reference) verifies against the keys in the request; otherwise an error
     is returned.""",
     INP, "every hybrid request",
     "Tests issue one certificate per scheme.",
     ["mock_ca.ca_handler:CAHandler.process_chameleon,CAHandler.process_sun_hybrid,CAHandler.process_multi_auth,"
      "CAHandler.process_cert_discovery,CAHandler.process_related_cert,CAHandler.process_catalyst*",
      "mock_ca.hybrid_handler:*", "pq_logic.hybrid_issuing:*"],
     [("hybrid endpoints", "mock_ca/ca_handler.py:CAHandler.process_*"), ("hybrid issuing", "pq_logic/hybrid_issuing.py")])

prop("A23", "The CA's data directory and configuration never mix roles",
     """The certificates, keys and trust stores the CA loads keep their roles: each key is stored with its
     own certificate, trust anchors come from the configured directories, and inconsistent key and certificate pairs are refused at
     start.""",
     CFG, "every configuration and certificate/key set",
     "Tests start the CA with its one shipped configuration.",
     ["mock_ca.operation_dbs:*", "mock_ca.db_config_vars:*", "mock_ca.ca_handler:CAHandler.__init__,CAHandler.set_config_vars,CAHandler.get_cc_certs,"
      "CAHandler.add_cert_to_issued_certs,get_cert,get_pubkey,get_signature",
      "mock_ca.cert_req_handler:CertReqHandler.__init__,CertReqHandler.get_cross_signed_certs,CertReqHandler.ca_cert_chain",
      "mock_ca.mock_fun:MockCAState.*,BaseURLData.*",
      "resources.utils:may_load_cert*,load_certificate_chain,is_certificate_and_key_set,is_certificate_set"],
     [("CA credentials", "mock_ca/operation_dbs.py"), ("CA set-up", "mock_ca/ca_handler.py:CAHandler.__init__")])

# =============================================================== resources
prop("B01", "MAC computation and verification agree on algorithm and parameters",
     """For every MAC algorithm identifier (PBMAC1, password-based MAC, HMAC, KMAC, AES-GMAC, DH-based and KEM-based MAC) the
     value computed depends exactly on the key, the data and the identifier's parameters (salt, iterations,
     hash, inner MAC, lengths), so that a peer following the identifier derives the same value; an unsupported identifier is refused.""",
     INP, "every identifier, parameter set, secret and message",
     "Tests check a few vectors; swapped parameters that happen to coincide with the defaults stay invisible.",
     ["resources.cryptoutils:compute_*", "resources.protectionutils:compute_*,dh_based_mac_derive_key,get_cmp_protection_salt",
      "resources.prepare_alg_ids:prepare_pbkdf2_alg_id,prepare_kdf_alg_id,prepare_hmac_alg_id,prepare_password_based_mac_parameters,prepare_kmac_alg_id,"
      "prepare_aes_gmac_prot_alg_id,prepare_pbmac1_parameters,prepare_dh_*,prepare_kem_*,prepare_sha_alg_id",
      "pq_logic.tmp_fun:*"],
     [("MAC computation", "resources/protectionutils.py:compute_mac_from_alg_id"), ("primitives", "resources/cryptoutils.py")])

prop("B02", "Protection always covers the whole header and body",
     """The bytes that are MACed or signed are the DER encoding of exactly the message's header and body, at the time of protection, with
     the protection algorithm already set; after protecting, neither header nor body is changed. The test suite's deliberate corruption changes only what it
     was asked to corrupt.""",
     INP, "every message and protection algorithm",
     "A header field patched after protection breaks only some messages.",
     ["resources.protectionutils:prepare_protected_part,protect_*,modify_pkimessage_protection,"
      "prepare_pki_protection_field,patch_*,add_cert_to_pkimessage_used_by_protection,compute_and_prepare_mac",
      "resources.cmputils:build_kem_based_mac_protected_message,patch_extra_certs,modify_random_str",
      "resources.utils:manipulate_*",
      "resources.asn1utils:encode_to_der"],
     [("protected part", "resources/protectionutils.py:prepare_protected_part")])

prop("B03", "Decoding rejects undecodable data and trailing bytes",
     """Externally supplied DER that cannot be decoded raises the suite's decoding error, and where the suite checks what
     the decoder leaves over (messages, certificates, CRLs, CSRs, keys, algorithm parameters, extensions, enveloped and signed data, controls and general-message values) leftover bytes are rejected rather than
     ignored, on every path and before the decoded value is used.""",
     INP, "every byte string offered to a decoder",
     "Trailing garbage is one more input dimension of every decoder; tests try it for very few.",
     ["resources.asn1utils:try_decode_pyasn1,encode_to_der", "resources.cmputils:parse_pkimessage,parse_csr",
      "resources.certutils:parse_certificate,parse_crl", "resources.utils:decode_pem_string,load_and_decode_pem_file,strip_armour,pem_to_der",
      "resources.certextractutils:*", "resources.httputils:http_response_contains_pki_message"],
     [("decode-rest checks", "resources/asn1utils.py:try_decode_pyasn1")], extra=["decode_rest"])

prop("B04", "Algorithm name, OID and parameter tables are mutually consistent",
     """Every algorithm name the suite offers maps to exactly one object identifier and back to that name, the
     identifier is the one the algorithm is registered under, each has the hash, curve or parameters of that algorithm, and lookups of unknown names or identifiers raise an error.""",
     INP, "every name and identifier in the tables",
     "Tests cover the popular algorithms; a wrong entry in the tail of a table is never touched.",
     ["resources.oid_mapping:*", "resources.prepare_alg_ids:*", "resources.suiteenums:*", "resources.data_objects:*",
      "resources.keyutils:get_key_name,get_digest_alg_for_cmp,check_consistency_sig_alg_id_and_key", "pq_logic.pq_utils:*"],
     [("OID tables", "resources/oidutils.py"), ("lookups", "resources/oid_mapping.py")], extra=["oid_tables", "module_tables"])

prop("B05", "Secrets, salts, nonces and challenges come from a cryptographic generator",
     """All keys, salts, nonces, transaction IDs, serial numbers, content-encryption keys and challenges are drawn fresh
     from the operating system's cryptographic generator at the length asked for; none is a constant, reused or drawn
     from a statistical generator.""",
     INP, "every place that draws a random value",
     "A predictable value looks like any other value to a test.",
     ["resources.cmputils:generate_unique_byte_values,prepare_pki_message,build_cmp_error_message", "resources.keyutils:generate_key",
      "resources.prepare_alg_ids:prepare_*", "resources.ca_ra_utils:prepare_challenge*,build_popdecc_from_request",
      "resources.envdatautils:prepare_*,build_env_data_for_exchange", "resources.cryptoutils:compute_*,sign_data",
      "pq_logic.keys.trad_key_factory:generate_*", "pq_logic.kem_mechanism:*.encaps", "pq_logic.keys.xwing:XWingPrivateKey.generate",
      "resources.certbuildutils:prepare_tbs_certificate,build_certificate", "resources.utils:get_password_in_size"],
     [("nonces", "resources/cmputils.py:generate_unique_byte_values")], extra=["randomness"])

prop("B06", "EnvelopedData is opened only by the right recipient and structure",
     """Encrypted content is released only if the enveloped data has the version, single recipient info, algorithms
     and recipient identifier its kind demands (key transport, key agreement, KEM or password) and the content-encryption key
     unwraps under the recipient's key or password; everything else is rejected.""",
     INP, "every enveloped data structure and recipient key",
     "Structures vary in version, identifier form and algorithm; tests hold a few combinations.",
     ["resources.ca_kga_logic:*", "resources.envdatautils:parse_*,is_cmsori_kem_other_info_decode_able,get_aes_keywrap_length",
      "resources.extra_issuing_logic:get_enc_cert_from_pkimessage,validate_rid_for_encrypted_rand,validate_kemri_rid_for_encrypted_cert",
      "resources.cryptoutils:decrypt_data_with_alg_id,compute_decapsulation,perform_*,compute_recipient_*,derive_shared_secret_ec,avf",
      "pq_logic.keys.key_pyasn1_utils:*"],
     [("recipient processing", "resources/ca_kga_logic.py:validate_enveloped_data")])

prop("B07", "Enveloped data built for a recipient can be opened by that recipient",
     """Each builder derives the key-encryption key the way the corresponding opening side does: same key agreement or encapsulation,
     same key derivation input and lengths, the content-encryption key wrapped and announced with the algorithm
     actually used, and recipient identifiers taken from the recipient's certificate.""",
     INP, "every recipient key type and algorithm choice",
     "Builder and opener are tested as a pair in the defaults only.",
     ["resources.envdatautils:*", "resources.cryptoutils:compute_sender_*,compute_encapsulation,perform_ecdh,perform_static_dh,compute_aes_cbc,"
      "compute_ansi_x9_63_kdf,compute_hkdf,compute_pbkdf2_from_parameter,convert_*,perform_one_pass_mqv",
      "resources.ca_ra_utils:prepare_enc_key,prepare_*for_kga,build_kga_cmp_response",
      "resources.prepare_alg_ids:prepare_wrap_alg_id,prepare_symmetric_encr_alg_id"],
     [("builders", "resources/envdatautils.py")])

prop("B08", "A centrally generated key is delivered only under a verified signature",
     """A private key delivered by the CA is released only if it is inside signed data whose structure, digest, signed
     attributes and signature verify against a key-generation authority certificate with the required usage that chains to a trusted anchor, and the
     key matches the issued certificate.""",
     INP, "every signed-data structure and certificate set",
     "Tests use one well-formed and a few malformed deliveries.",
     ["resources.ca_kga_logic:validate_*,check_signer_infos,get_certificates_from_signed_data,extract_content_encryption_key",
      "resources.envdatautils:prepare_sign*,prepare_encapsulated_content_info,prepare_asymmetric_key_package,prepare_certificate_set",
      "resources.keyutils:prepare_one_asymmetric_key",
      "resources.checkutils:check_if_response_contains_private_key,check_if_response_contains_encrypted_cert,validate_certified_key_pair_structure"],
     [("signed data validation", "resources/ca_kga_logic.py:validate_signed_data_structure")])

prop("B09", "Signing and verification dispatch by algorithm identifier agree",
     """A signature made with a key under an algorithm identifier is verified by the matching verification under
     the same hash, padding, context and domain separation, for every supported key type; a key
     that does not fit the identifier is refused on both sides, and verification raises on any mismatch.""",
     INP, "every key type, algorithm identifier and data",
     "The pairs of key type and identifier form a large matrix; tests run part of it.",
     ["resources.protectionutils:sign_*,verify_signature_with_alg_id,verify_rsassa_pss_*,verify_composite_signature_with_keys,get_rsa_oaep_padding,"
      "check_signature_alg_is_consistent",
      "resources.cryptoutils:sign_data*,verify_signature", "resources.prepare_alg_ids:prepare_sig_alg_id,prepare_rsa_pss_alg_id",
      "resources.certutils:verify_cert_signature,verify_signature_with_cert,verify_csr_signature,load_verify_key_from_cert,load_public_key_from_*",
      "resources.certbuildutils:sign_cert,sign_csr", "resources.convertutils:ensure_is_*",
      "resources.keyutils:check_consistency_sig_alg_id_and_key,get_digest_alg_for_cmp"],
     [("signing", "resources/protectionutils.py:sign_data_with_alg_id"), ("verification", "resources/protectionutils.py:verify_signature_with_alg_id")])

prop("B10", "Certificate chains are accepted only if each link verifies up to an anchor",
     """A chain is built and accepted only if each certificate is issued and signed by the next one, the last one is a
     configured trust anchor where trust is asked for, and required key usages and CA constraints hold (a chain that is
     just the anchor is taken as it is); an incomplete, unordered or untrusted chain is rejected.""",
     INP, "every set of certificates, in any order",
     "Chains vary in length, order and extension content.",
     ["resources.certutils:build_*,certificates_*,check_is_cert_signer,cert_in_list,verify_cert_*,load_truststore,"
      "load_certificates_from_dir,validate_key_usage,must_not_contain_key_usage,is_ca_cert,validate_ca_cross_signed_cert,validate_cmp_extended_key_usage,"
      "find_crl_signer_cert",
      "resources.checkutils:check_single_chain_is_ordered,find_right_cert_pos,validate_extra_certs",
      "pq_logic.pq_verify_logic:build_*"],
     [("chain building", "resources/certutils.py:build_chain_from_list"), ("trust", "resources/certutils.py:certificates_must_be_trusted")])

prop("B11", "Client-side checks fail every message that violates the header rules",
     """Each header check of the suite raises on exactly the violations it is named for: absent or inconsistent protection,
     sender, senderKID, nonces, transaction ID, message time, general info, extra certificates
     or algorithm; conforming messages pass.""",
     INP, "every message offered to a check",
     "A check that never fails still passes all positive tests.",
     ["resources.checkutils:check_*,validate_extra_certs,validate_senderkid_for_cmp_protection,find_right_cert_pos,validate_cert_profile_for_ca,"
      "validate_sender_*,validate_transaction_id,validate_pkimessage_header,validate_request_message_nonces_and_tx_id,validate_wrong_integrity",
      "resources.protectionutils:mac_protection_algorithms_must_match,signature_protection_must_match,check_signature_alg_is_consistent,"
      "get_protection_type_from_pkimessage",
      "resources.utils:nonces_must_be_*,buffer_length_must_be_at_least",
      "resources.asn1utils:asn1_must_*"],
     [("header checks", "resources/checkutils.py:validate_pkimessage_header")])

prop("B12", "Client-side checks fail every response body that violates the profile",
     """Each body check of the suite raises on exactly the violations it is named for: wrong body type, certReqId,
     status, missing or superfluous certificates, keys, CA certificates or publication, in certificate, revocation, confirmation and nested
     responses; conforming responses pass.""",
     INP, "every response offered to a check",
     "A check that never fails still passes all positive tests.",
     ["resources.checkutils:validate_ca_*,validate_certReqId,validate_certified_key_pair_structure,check_if_response_*,check_rp_cmp_message_body,"
      "validate_pki_confirmation_message,check_for_granted_with_mods,validate_*nested*,validate_add_protection_tx_id_and_nonces,validate_cross_certification_response,"
      "validate_cmp_body_types",
      "resources.cmputils:verify_*,get_pkistatusinfo,get_status_from_pkimessage,get_cert_*,get_certreqid_from_pkimessage,get_cmp_message_type,"
      "get_inner_pkimessage,find_oid_in_general_info"],
     [("body checks", "resources/checkutils.py:validate_ca_message_body")])

prop("B13", "Every field and body name the code uses exists in the message grammar",
     """Each body type the code compares with or selects is one of the PKIBody choices, and
     each failInfo bit it sets is one of the defined names, so no branch is dead because of a misspelt name.""",
     ["programs"], "every literal body name and failure name in the source",
     "A misspelt name only makes a branch unreachable, which no test notices unless it aims at that branch.",
     ["resources.cmputils:get_cmp_message_type", "resources.ca_ra_utils:get_correct_ca_body_name,get_response_body_type,enforce_lwcmp_for_ca"],
     [("body dispatch", "mock_ca/ca_handler.py, resources/ca_ra_utils.py"), ("grammar", "resources/asn1_structures.py and pyasn1_alt_modules rfc9480")],
     extra=["body_names"])

prop("B14", "Names, templates and certificates compare equal only if they are",
     """Comparisons of names, general names, algorithm identifiers, keys and templates report equality exactly when the
     compared parts are equal in every component they are asked to compare, ignoring only what the caller asked to ignore.""",
     INP, "every pair of structures",
     "Comparisons have a quadratic input space; tests sample a few pairs.",
     ["resources.compareutils:*", "resources.certbuildutils:compare_ski_value",
      "resources.prepareutils:validate_relative_name_for_correct_data_types",
      "pq_logic.keys.abstract_*:*.__eq__", "pq_logic.keys.trad_kem_keys:*.__eq__", "resources.utils:check_public_key_is_not_unique,check_if_private_key_in_list,nonces_must_be_*"],
     [("comparisons", "resources/compareutils.py")])

prop("B15", "Certificate and CRL extension builders encode what they are asked to",
     """Each extension the suite builds has its own OID, the criticality and the content requested, and extension sets are
     rejected when their combination is invalid (duplicate, CA constraints on a leaf, missing identifiers).""",
     INP, "every extension content and combination",
     "Builder options multiply; tests check a few combinations.",
     ["resources.certbuildutils:prepare_*,validate_*,verify_ca_basic_constraints,check_*,csr_*,build_csr,generate_signed_csr,build_*,modify_*,generate_*,"
      "parse_*,default_validity,extensions_*",
      "resources.certextractutils:*", "resources.prepareutils:*", "resources.deprecatedutils:*"],
     [("extension builders", "resources/certbuildutils.py:prepare_extensions")])

prop("B16", "Request builders put every given option into the message",
     """Each request builder of the suite produces the body type it is named for with the given key, name, controls, proof of possession,
     certReqId and header values in place, computed over the final content, and applies a deliberate defect only when asked to.""",
     INP, "every option combination of the builders",
     "Builders have up to a dozen optional arguments each; tests cover few combinations.",
     ["resources.cmputils:build_*,prepare_*,add_*,update_popo,patch_*,get_common_name_from_str,modify_random_str",
      "resources.extra_issuing_logic:prepare_*", "resources.ca_ra_utils:prepare_oob_cert_hash,validate_oob_cert_hash"],
     [("builders", "resources/cmputils.py")])

prop("B17", "ASN.1 access helpers return the addressed value or fail",
     """The path accessors and named-bit helpers return exactly the addressed component and the set bits of its value,
     fail on absent or unset components, and checks for required or forbidden fields raise on each violation.""",
     INP, "every path and structure",
     "Accessors are used by all robot tests with paths no unit test tries.",
     ["resources.asn1utils:*", "resources.cmputils:parse_*,get_*,find_*,contains_extension,validate_*,verify_*"],
     [("accessors", "resources/asn1utils.py:get_asn1_value")])

prop("B18", "Revocation checks treat anything but a verified good status as failure",
     """The client-side CRL checks accept a certificate only if a CRL whose signature verifies does not list it, and the
     OCSP check only if a successful answer states the expected status; a missing answer, an unknown status (unless
     allowed) or a bad CRL signature fails.""",
     INP, "every OCSP answer and CRL",
     "Answers vary in status, signer and number; tests have canned ones.",
     ["resources.certutils:*ocsp*,*crl*,validate_if_certificate_is_revoked,verify_openssl_crl", "pq_logic.pq_verify_logic:verify_crl_signature",
      "resources.certextractutils:get_crl_dpn,get_issuing_distribution_point"],
     [("status checks", "resources/certutils.py:check_ocsp_response,check_if_cert_is_revoked_crl")])

prop("B19", "Conversions and file helpers preserve the value",
     """Conversions between PEM, DER, pyasn1, key objects, strings and numbers return the same value in the other form and refuse input
     of another kind; what is written to a file reads back as the same certificate, key or chain.""",
     INP, "every value offered to a conversion",
     "Conversions accept a union of input kinds, each with its own branch.",
     ["resources.convertutils:*", "resources.copyasn1utils:*", "resources.utils:*", "resources.keyutils:*", "resources.prepareutils:*",
      "resources.httputils:*", "pq_logic.keys.serialize_utils:*", "pq_logic.keys.key_pyasn1_utils:*",
      "resources.certutils:parse_*,write_*,load_*,ensure_*"],
     [("conversions", "resources/convertutils.py"), ("files", "resources/utils.py")])

prop("B20", "Every keyword the robot suites call exists and takes the given arguments",
     """Each call in the robot suites to a keyword of the suite's own libraries resolves to a keyword that exists and accepts the arguments it is
     given, so that no test case ends in an error of its own making.""",
     ["programs"], "every keyword call of the robot suites",
     "The robot suites need a running server and are not part of the unit tests.",
     ["resources.cmputils:build_ir_from_key,build_cr_from_key,build_p10cr_from_key,build_key_update_request,build_cert_conf*,build_cmp_revo*,build_cmp_revive_request,build_nested_pkimessage",
      "resources.keyutils:generate_key,load_private_key_from_file,save_key",
      "resources.protectionutils:protect_pkimessage,protect_hybrid_pkimessage,modify_pkimessage_protection"],
     [("robot suites", "tests/, tests_pq_and_hybrid/, tests_mock_ca/, resources/*.resource")], extra=["robot_keywords"])

# =============================================================== pq_logic
prop("C01", "A composite signature verifies only if both component signatures do",
     """A composite signature is accepted only if the post-quantum and the traditional component both verify over the same
     domain-separated message (prefix, algorithm label, context, pre-hash) that the signer used, each with its own algorithm; context
     lengths and encodings are checked on both sides.""",
     INP, "every component algorithm pair, context, pre-hash option, message and signature",
     "A dropped component check is invisible to tests that only verify valid signatures.",
     ["pq_logic.keys.composite_sig:*", "pq_logic.keys.abstract_wrapper_keys:HybridSig*,AbstractComposite*,HybridPublicKey.*,HybridPrivateKey.*",
      "resources.protectionutils:verify_composite_signature_with_keys,verify_signature_with_alg_id,sign_data_with_alg_id",
      "pq_logic.pq_verify_logic:verify_composite_signature_with_hybrid_cert,verify_cert_hybrid_signature"],
     [("composite signatures", "pq_logic/keys/composite_sig.py:CompositeSigPublicKey.verify")], extra=["module_tables"])

prop("C02", "Hybrid KEM secrets depend on both components and their transcripts",
     """For every hybrid KEM the shared secret is derived from both component secrets and the ciphertexts and public keys its
     scheme prescribes, in the same order on the encapsulating and the decapsulating side; ciphertexts are split at the component's length
     and wrong lengths are rejected.""",
     INP, "every hybrid KEM combination, key and ciphertext",
     "Round-trip tests pass when both sides are wrong in the same way, and cover few combinations.",
     ["pq_logic.keys.composite_kem:*", "pq_logic.keys.chempat_key:*", "pq_logic.keys.xwing:*", "pq_logic.kem_mechanism:*",
      "pq_logic.keys.abstract_wrapper_keys:HybridKEM*,KEM*,TradKEM*", "pq_logic.keys.trad_kem_keys:*"],
     [("combiners", "pq_logic/keys/composite_kem.py, chempat_key.py, xwing.py:kem_combiner")], extra=["module_tables"])

prop("C03", "Stateful signature keys verify strictly and keep their parameters",
     """Public and private stateful keys (XMSS, XMSS^MT, HSS) load only encodings of the length and parameter set named in
     them, report the index, capacity, sizes and hash of that parameter set, sign only with remaining one-time keys, and verification raises on any
     malformed or wrong signature.""",
     INP, "every parameter set, key encoding and signature",
     "There are dozens of parameter sets; generating keys for the tall trees is infeasible in tests.",
     ["pq_logic.keys.stateful_sig_keys:*", "pq_logic.keys.hss_validation:*", "pq_logic.keys.abstract_stateful_hash_sig:*",
      "pq_logic.keys.pq_stateful_sig_factory:*", "resources.keyutils:modify_pq_stateful_sig_private_key,get_pq_stateful_sig_index_from_sig"],
     [("stateful keys", "pq_logic/keys/stateful_sig_keys.py")], extra=["module_tables"])

prop("C04", "Key factories return the key kind that name, OID and encoding call for",
     """For each supported algorithm name, public key info or private key structure the factories return a key of exactly that
     algorithm, saving and loading invert each other in each export form (raw, seed, both), and an unknown, mismatching or
     malformed name, OID, parameter or encoding is refused.""",
     INP, "every algorithm, export form and encoding",
     "The matrix of algorithms, forms and malformed encodings is large.",
     ["pq_logic.combined_factory:*", "pq_logic.keys.pq_key_factory:*", "pq_logic.keys.hybrid_key_factory:*", "pq_logic.keys.trad_key_factory:*",
      "pq_logic.keys.abstract_key_factory:*", "pq_logic.keys.pq_stateful_sig_factory:*", "resources.keyutils:generate_*,load_*,prepare_*,private_key_to_*,save_key"],
     [("factories", "pq_logic/combined_factory.py:CombinedKeyFactory")], extra=["module_tables"])

prop("C05", "PQ key objects enforce lengths, names and pre-hash restrictions",
     """Each post-quantum key object accepts only encodings of its algorithm's length, exposes the public key
     belonging to its private key, verifies by raising on failure, encapsulates and decapsulates with its own parameter set, and allows only the pre-hash
     algorithms registered for it.""",
     INP, "every PQ algorithm, key, encoding and message",
     "Tests cover valid keys of some parameter sets.",
     ["pq_logic.keys.sig_keys:*", "pq_logic.keys.kem_keys:*", "pq_logic.keys.abstract_pq:*", "pq_logic.keys.abstract_wrapper_keys:*"],
     [("PQ keys", "pq_logic/keys/sig_keys.py, kem_keys.py")], extra=["module_tables"])

prop("C06", "ML-KEM follows FIPS 203 step by step",
     """The built-in ML-KEM uses the FIPS 203 parameters and performs its prescribed steps, hashes and orderings in key generation,
     encapsulation and decapsulation, and decapsulation of a ciphertext that fails re-encryption returns the implicit-rejection secret.""",
     INP, "every seed, key and ciphertext",
     "Implicit rejection and rarely taken branches are not reached by random round trips.",
     ["pq_logic.fips.fips203:*", "pq_logic.fips._fips_utils:*"],
     [("ML-KEM", "pq_logic/fips/fips203.py")], extra=["fips_params"])

prop("C07", "ML-DSA follows FIPS 204 step by step",
     """The built-in ML-DSA uses the FIPS 204 parameters, accepts a signature only if the norm bound, hint weight and recomputed
     commitment hash all hold, rejects malformed hints, and separates pure and pre-hash messages by their prefix and context.""",
     INP, "every key, message, context and signature",
     "The rejection conditions trigger on crafted signatures only.",
     ["pq_logic.fips.fips204:*", "pq_logic.fips._fips_utils:*"],
     [("ML-DSA", "pq_logic/fips/fips204.py")], extra=["fips_params"])

prop("C08", "SLH-DSA follows FIPS 205 step by step",
     """The built-in SLH-DSA uses the FIPS 205 parameters and address layout and accepts a signature only if the recomputed
     hypertree root equals the public root, with the prescribed prefix for context and pre-hash.""",
     INP, "every parameter set, key, message and signature",
     "Twelve parameter sets with very slow signing; tests exercise few.",
     ["pq_logic.fips.fips205:*"],
     [("SLH-DSA", "pq_logic/fips/fips205.py")], extra=["fips_params"])

prop("C09", "FrodoKEM follows its specification step by step",
     """The built-in FrodoKEM uses its specified parameters and steps, and decapsulation selects the real or the rejection secret by comparing both
     ciphertext parts in full.""",
     INP, "every key and ciphertext", "The rejection path is not exercised by round trips.",
     ["pq_logic.fips.frodokem:*"], [("FrodoKEM", "pq_logic/fips/frodokem.py")], extra=["fips_params"])

prop("C10", "Alternative signatures of certificates are verified like the primary ones",
     """For catalyst, Sun hybrid and chameleon certificates, requests and CRLs both the primary and the alternative
     (or delta) signature must verify over exactly the prescribed reduced content; missing, partial or mismatching extensions are rejected, and the rebuilt delta certificate carries exactly the
     changed fields.""",
     INP, "every hybrid certificate, request and issuer",
     "Dropping one verification keeps all positive tests green.",
     ["pq_logic.hybrid_sig.catalyst_logic:*", "pq_logic.hybrid_sig.sun_lamps_hybrid_scheme_00:*", "pq_logic.hybrid_sig.chameleon_logic:*",
      "pq_logic.pq_verify_logic:*", "pq_logic.hybrid_issuing:verify_sig_popo_catalyst_cert_req_msg"],
     [("catalyst", "pq_logic/hybrid_sig/catalyst_logic.py:verify_catalyst_signature"),
      ("sun hybrid", "pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py"), ("chameleon", "pq_logic/hybrid_sig/chameleon_logic.py")])

prop("C11", "Certificate binding and discovery references are honoured only if they match",
     """A related-certificate binding is accepted only if the referenced certificate's hash, the fresh request time, the
     binding signature and the usages match; a discovery descriptor only if the fetched certificate, its algorithms and its signature do.""",
     INP, "every binding request, related certificate and descriptor",
     "Tests include one good example per mechanism.",
     ["pq_logic.hybrid_sig.cert_binding_for_multi_auth:*", "pq_logic.hybrid_sig.certdiscovery:*",
      "pq_logic.hybrid_issuing:build_related_cert_from_csr,build_cert_discovery_cert_from_p10cr", "resources.utils:load_certificate_from_uri,fetch_value_from_location"],
     [("binding", "pq_logic/hybrid_sig/cert_binding_for_multi_auth.py"), ("discovery", "pq_logic/hybrid_sig/certdiscovery.py")])

NOT_APPLICABLE = {}


def na(pid, title, statement, over, text, why, mech, reason):
    prop(pid, title, statement, over, text, why, [], mech)
    NOT_APPLICABLE[pid] = " ".join(reason.split())


na("N01", "The built-in PQ algorithms compute the standard's functions",
   """For every seed, key, message and ciphertext the built-in ML-KEM, ML-DSA, SLH-DSA and FrodoKEM return bit for bit the value of the
   published standard.""",
   INP, "every input of every algorithm", "Known-answer tests sample a handful of inputs of the full domain.",
   [("algorithms", "pq_logic/fips/")],
   """Functional equality of integer arithmetic over modules and hash chains is a statement about runtime values; no dataflow, typestate or lint
   argument in reach bounds it (only the parameter tables and step structure are decided, in C06 to C09).""")
na("N02", "Concurrent requests to the CA behave as some sequential order of them",
   """Whatever the interleaving of requests handled by the web server's worker threads, the state of the CA and its answers equal those of
   handling the requests one after the other.""",
   ["schedules", "histories"], "every interleaving of concurrent requests", "The tests call the CA from one thread.",
   [("web server", "mock_ca/ca_handler.py:handle_issuing")],
   """The server takes no lock and shares one state object between threads, so no lock-order or ownership analysis has a discipline to check: the
   property is a known limit of the mock CA (a test tool run with a single client) and would need a redesign, not a repair.""")
na("N03", "Every message the suite builds is accepted by a conforming peer",
   """Every request the builders produce with default options is a valid DER message that an RFC 9483 conforming CA accepts.""",
   INP, "every builder option", "The unit tests only decode the suite's own messages.",
   [("builders", "resources/cmputils.py")],
   """Acceptance by a peer depends on the runtime encoding and on the peer; static analysis of this repository has neither (what each builder writes into the
   message is decided in B16).""")
