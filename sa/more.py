"""Further functions each property leans on directly (short names: function, or Class.method), added to its patterns."""

MORE = {
    "A01": """CertReqHandler.process_cr CertReqHandler.process_kur CertReqHandler.process_p10cr
        CertReqHandler.handle_cross_cert_req CertReqHandler.validate_header CertReqHandler.check_cert_is_updated
        CAHandler.build_error_from_exception RevocationHandler.process_revocation_request
        ProtectionHandler.validate_protection GeneralMessageHandler.process_general_msg
        ChallengeHandler.handle_challenge validate_pq_stateful_pki_message validate_orig_pkimessage
        check_is_protection_present cert_in_list CertificateDB.get_cert_state""",
    "A02": """get_shared_secret get_shared_secret_object contains_shared_secret check_signer_is_trusted
        verify_composite_signature_with_hybrid_cert may_extract_alt_key_from_cert verify_signature_with_cert compute_gmac
        compute_hmac compute_kmac_from_alg_id compute_password_based_mac compute_pbkdf2_from_parameter perform_ecdh
        cryptoutils.verify_signature check_consistency_sig_alg_id_and_key compute_dh_based_mac_from_alg_id
        compute_kem_based_mac_from_alg_id prepare_protected_part validate_orig_pkimessage ProtectedType.get_protection_type
        compute_decapsulation""",
    "A03": """CertReqHandler.process_after_request MockCAState.contains_cert validate_stfl_signature_protection
        verify_hybrid_pkimessage_protection get_set_bitstring_names is_bit_set validate_private_key_usage_period
        certextractutils.get_extension get_field_from_certificate build_cert_chain_from_dir build_cmp_chain_from_pkimessage
        cert_in_list certificates_are_trustanchors check_is_cert_signer load_truststore verify_cert_chain_openssl
        verify_cert_signature protectionutils.verify_pkimessage_protection""",
    "A04": """CertificateDB.change_cert_state StatefulSigState.add_state process_stfl_after_request set_ca_header_fields
        validate_pkimessage_header get_digest_alg_for_cmp compute_hash get_hash_from_oid
        cmputils.prepare_pki_message""",
    "A05": """check_generalinfo_field check_is_protection_present check_message_time_field check_sender_cmp_protection
        validate_request_message_nonces_and_tx_id validate_senderkid_for_cmp_protection validate_wrong_integrity
        enforce_lwcmp_for_ca find_oid_in_general_info is_null_dn prepare_general_name_from_name""",
    "A06": """CertReqHandler.build_cert_resp_error_response RevocationHandler.build_rp_error_response get_shared_secret
        get_shared_secret_object ProtectionHandler.set_config MockCAState.get_kem_mac_shared_secret
        MockCAOPCertsAndKeys.get_ecc_cert build_cmp_error_message patch_extra_certs patch_sender patch_senderkid
        prepare_extra_certs compute_gmac compute_kmac_from_alg_id perform_ecdh sign_data compute_dh_based_mac_from_alg_id
        compute_kem_based_mac_from_alg_id prepare_kem_ciphertextinfo prepare_protected_part sign_data_with_alg_id
        prepare_aes_gmac_prot_alg_id prepare_dh_based_mac_params prepare_hmac_alg_id prepare_kem_based_mac_alg_id
        prepare_kmac_alg_id prepare_password_based_mac_parameters prepare_pbmac1_parameters prepare_sig_alg_id
        ProtectedType.get_protection_type build_cert_chain_from_dir""",
    "A07": """CertConfHandler.add_confirmed_certs CertReqHandler.add_request_for_cert_conf CertReqHandler.check_if_used
        CertRevStateDB.build CertRevStateDB.get_crl_response store_transaction_certificate""",
    "A08": """CertReqHandler.check_signer_is_a_issued_cert CertReqHandler.process_after_request
        UpdateCertDB.build_from_entries get_related_cert_from_list get_cert_discovery_cert build_delta_cert_from_paired_cert
        load_chameleon_csr_delta_key_and_sender convert_sun_hybrid_cert_to_target_form get_sun_hybrid_alt_pub_key
        cert_in_list compare_pyasn1_names copy_subject_public_key_info""",
    "A09": """CertificateDB.change_cert_state ensure_is_trad_sign_key oid_mapping.compute_hash oid_mapping.hash_name_to_instance""",
    "A10": """CertReqHandler.is_certificate_in_list CertReqHandler.process_after_request ChallengeHandler.handle_challenge
        load_chameleon_csr_delta_key_and_sender load_public_key_from_cert_template load_public_key_from_cert
        keyutils.load_public_key_from_spki RevokedEntryList.remove CAHandler.build_error_from_exception""",
    "A11": """get_delta_request_signature validate_hss_key get_popo_from_pkimessage get_cert_template_from_pkimessage
        check_consistency_sig_alg_id_and_key compute_hash""",
    "A12": """GeneralMessageHandler.prepare_genp_response get_value_from_seq_of_info_value_field compute_decapsulation
        compute_kdf_from_alg_id prepare_kem_based_mac_alg_id prepare_pki_protection_field prepare_protected_part""",
    "A13": """CertReqHandler.add_request_for_cert_conf CertReqHandler.check_same_key_cert_request
        CertReqHandler.build_cert_resp_error_response process_stfl_after_request load_catalyst_public_key sign_cert_catalyst
        validate_multi_auth_binding_csr validate_related_cert_pop sun_cert_template_to_cert sun_csr_to_cert
        build_chameleon_cert_from_paired_csr validate_hss_key is_kem_public_key validate_kemri_env_data_for_ca
        validate_enveloped_data get_cert_req_msg_from_pkimessage get_public_key_from_cert_req_msg is_nist_approved_xmss
        is_nist_approved_xmssmt prepare_cert_and_private_key_for_kga prepare_cert_response prepare_enc_key
        prepare_sig_popo_structure prepare_popo_challenge_for_non_signing_key check_consistency_sig_alg_id_and_key
        load_public_key_from_cert_template keyutils.load_public_key_from_spki compute_mac_from_alg_id
        protectionutils.verify_signature_with_alg_id verify_composite_signature_with_keys perform_ecdh validate_wrong_integrity""",
    "A14": """build_env_data_for_exchange parse_encrypted_key_for_popo compute_and_prepare_mac prepare_sha_alg_id
        dh_based_mac_derive_key cryptoutils.compute_aes_cbc get_popo_from_pkimessage get_cert_template_from_pkimessage
        get_public_key_from_cert_req_msg build_ip_cmp_message prepare_kem_ciphertextinfo is_kem_private_key is_kem_public_key
        prepare_recipient_identifier validate_enveloped_data is_null_dn compare_general_name_and_name oid_mapping.compute_hash
        try_decode_pyasn1 load_public_key_from_cert_template""",
    "A15": """add_confirmed_cert CertReqHandler.check_if_used CertReqHandler.is_certificate_in_list
        CertificateDB.change_cert_state MockCAState.contains_cert get_cert_req_msg_from_pkimessage
        get_public_key_from_cert_req_msg get_popo_from_pkimessage validate_archive_options validate_authenticator_control
        validate_pki_publication_information validate_reg_token_control compare_general_name_and_name
        load_public_key_from_cert_template prepare_cert_req_msg prepare_cert_template""",
    "A16": """check_correct_prot_type ProtectionHandler.validate_protection ProtectionHandler.validate_signature_protection
        certificates_are_trustanchors certificates_must_be_trusted build_cmp_chain_from_pkimessage
        check_is_protection_present validate_sender_and_recipient find_oid_in_general_info
        get_value_from_seq_of_info_value_field protectionutils.verify_pkimessage_protection get_cmp_message_type""",
    "A17": """asn1_compare_named_values check_consistency_sig_alg_id_and_key validate_kur_controls check_message_time_field
        validate_request_message_nonces_and_tx_id validate_senderkid_for_cmp_protection check_sender_cmp_protection
        validate_wrong_integrity validate_enveloped_data build_unsuccessful_ca_cert_response display_pki_status_info
        CertificateDB.change_cert_state CertificateDB.get_cert_state get_popo_from_pkimessage
        validate_cert_profile_for_ca protectionutils.verify_signature_with_alg_id load_public_key_from_cert_template""",
    "A18": """CertificateDB.get_cert_state KeySecurityChecker.check_cert_status MockCAState.get_kem_mac_shared_secret
        asn1_compare_named_values verify_hybrid_pkimessage_protection protectionutils.verify_pkimessage_protection cert_in_list
        protectionutils.verify_kem_based_mac_protection check_sender_cmp_protection validate_senderkid_for_cmp_protection
        compare_cert_template_and_cert prepare_pkistatusinfo get_pkistatusinfo perform_ecdh""",
    "A19": """sign_cert_catalyst prepare_cert_and_private_key_for_kga prepare_cert_or_enc_cert
        respond_to_key_agreement_request respond_to_key_encipherment_request validate_cert_template_public_key
        parse_subject_from_cert_related_type prepare_extension_structure prepare_extensions prepare_key_usage_extension
        prepare_subject_alt_name_extension extract_extensions_from_csr contains_extension
        find_name_inside_general_names load_public_key_from_cert_template keyutils.load_public_key_from_spki prepare_name
        prepare_sig_alg_id sign_data_with_alg_id verify_csr_signature validate_relative_name_for_correct_data_types
        get_subject_key_identifier""",
    "A20": """MockCAState.add_kem_mac_shared_secret CAHandler.get_cc_certs build_cmp_krp_message
        prepare_new_root_ca_certificate validate_crl_pkilint get_crl_dpn get_issuing_distribution_point
        build_crl_chain_from_list certificates_are_trustanchors check_is_cert_signer verify_cert_chain_openssl
        verify_openssl_crl get_all_supported_ecc_alg_ids prepare_alg_id prepare_password_recipient_info
        prepare_enveloped_data RevocationHandler.is_not_allowed_to_request""",
    "A21": """CertConfHandler.add_confirmed_certs MockCAState.add_certs build_unsuccessful_ca_cert_response
        get_correct_ca_body_name get_response_body_type prepare_ca_body prepare_cert_and_private_key_for_kga
        respond_to_key_agreement_request respond_to_key_encipherment_request verify_sig_pop_for_pki_request
        validate_cert_request_controls validate_cert_template_public_key build_cert_from_cert_template
        validate_certified_key_pair_structure validate_ca_msg_ca_pubs_field extract_fields_for_exchange get_pkistatusinfo""",
    "A22": """CAHandler.process_normal_request CertReqHandler.add_request_for_cert_conf BaseURLData.get_cert_url
        BaseURLData.get_base_url public_key_is_revoked load_catalyst_public_key prepare_alt_sig_alg_id_extn
        prepare_alt_signature_value_extn prepare_subject_alt_public_key_info_extn sign_cert_catalyst
        get_related_cert_from_list prepare_related_cert_extension validate_multi_auth_binding_csr validate_related_cert_pop
        get_cert_discovery_cert is_cert_discovery_cert prepare_subject_info_access_syntax_extension
        build_chameleon_cert_from_paired_csr build_delta_cert_from_paired_cert load_chameleon_csr_delta_key_and_sender
        convert_sun_hybrid_cert_to_target_form extract_sun_hybrid_alt_sig get_sun_hybrid_alt_pub_key
        sun_cert_template_to_cert sun_csr_to_cert build_sun_hybrid_cert_chain verify_hybrid_pkimessage_protection
        validate_cert_req_id_nums verify_sig_pop_for_pki_request verify_csr_signature
        verify_composite_signature_with_keys protectionutils.verify_signature_with_alg_id CAHandler.validate_p10cr_public_key""",
    "A23": """CertificateDB.add_cert build_certificate build_cert_chain_from_dir certbuildutils.prepare_crl_distribution_point_extension
        prepare_distribution_point prepare_issuing_distribution_point prepare_ocsp_extension load_private_key_from_file
        load_public_key_from_cert""",
    "B01": """avf convert_private_key_to_tinyec convert_public_key_to_tinyec get_hash_from_oid oid_mapping.hash_name_to_instance
        sha_alg_name_to_oid oid_mapping.compute_hash ProtectionAlgorithm.get prepare_alg_id try_decode_pyasn1""",
    "B02": """compute_gmac compute_kmac_from_alg_id perform_ecdh sign_data cryptoutils.verify_signature
        compute_dh_based_mac_from_alg_id compute_kem_based_mac_from_alg_id compute_mac_from_alg_id sign_data_with_alg_id
        prepare_aes_gmac_prot_alg_id prepare_dh_based_mac_params prepare_hmac_alg_id prepare_kem_based_mac_alg_id
        prepare_kmac_alg_id prepare_password_based_mac_parameters prepare_pbmac1_parameters prepare_rsa_pss_alg_id
        prepare_sig_alg_id patch_sender patch_senderkid prepare_extra_certs build_migration_cert_chain
        prepare_kem_ciphertextinfo manipulate_bytes_based_on_key manipulate_first_byte""",
    "B03": """get_asn1_value FrodoKEM.decode""",
    "B05": """generate_key_from_seed CombinedKeyFactory.generate_key ECDHKEM.encode_public_key
        ECDHKEM.generate_matching_private_key XWingPrivateKey.expand perform_static_dh get_aes_keywrap_length
        perform_sender_ecdh_one_pass_mqv wrap_key_password_based_key_management_technique set_ca_header_fields
        get_curve_instance sign_data_rsa_pss default_validity""",
    "B06": """cryptoutils.compute_aes_cbc compute_ansi_x9_63_kdf compute_hkdf compute_pbkdf2_from_parameter
        compute_kdf_from_alg_id get_cmp_protection_salt get_rsa_oaep_padding prepare_cmsori_for_kem_other_info
        prepare_ecc_cms_shared_info prepare_recipient_identifier prepare_issuer_and_serial_number
        validate_cmp_extended_key_usage validate_key_usage verify_signature_with_cert certificates_are_trustanchors
        check_protection_alg_conform_to_spki find_right_cert_pos check_if_alg_id_parameters_is_absent
        CombinedKeyFactory.load_private_key_from_one_asym_key validate_key_export_type get_digest_hash_alg_from_alg_id
        convert_private_key_to_tinyec convert_public_key_to_tinyec""",
    "B07": """avf compute_recipient_ecdh_mqv_one_pass_exchange derive_shared_secret_ec compute_kdf_from_alg_id
        get_rsa_oaep_padding prepare_kdf_alg_id prepare_pbkdf2_alg_id prepare_issuer_and_serial_number
        prepare_one_asymmetric_key prepare_invalid_kga_private_key sha_alg_name_to_oid get_alg_oid_from_key_hash
        generate_different_public_key oid_mapping.compute_hash""",
    "B08": """check_recip_enc_key compute_key_agreement_mechanism compute_key_transport_mechanism process_kem_recip_info
        process_other_recip_info build_chain_from_list certificates_are_trustanchors validate_cmp_extended_key_usage
        validate_key_usage verify_cert_chain_openssl verify_signature_with_cert check_protection_alg_conform_to_spki
        find_right_cert_pos get_cert_response_from_pkimessage get_digest_from_key_hash get_digest_hash_alg_from_alg_id
        oid_mapping.compute_hash CombinedKeyFactory.load_private_key_from_one_asym_key CombinedKeyFactory.save_private_key_one_asym_key validate_key_export_type
        cryptoutils.compute_aes_cbc get_cmp_protection_salt KeyUsageStrictness.get""",
    "B09": """FixedSHAKE128.new FixedSHAKE256.new get_alg_oid_from_key_hash get_digest_hash_alg_from_alg_id
        get_hash_from_oid oid_mapping.hash_name_to_instance prepare_sha_alg_id keyutils.load_public_key_from_spki""",
    "B10": """get_set_bitstring_names is_bit_set certextractutils.get_extension get_field_from_certificate
        load_os_truststore parse_certificate verify_signature_with_cert write_cert_chain_to_file
        convert_sun_hybrid_cert_to_target_form compare_pyasn1_names cryptoutils.verify_signature
        verify_rsassa_pss_from_alg_id protectionutils.verify_signature_with_alg_id KeyUsageStrictness.get""",
    "B11": """asn1_compare_named_values get_subject_key_identifier build_chain_from_list build_cmp_chain_from_pkimessage
        validate_cmp_extended_key_usage verify_signature_with_cert find_oid_in_general_info get_cert_from_pkimessage
        get_cert_response_from_pkimessage get_value_from_seq_of_info_value_field compare_general_name_and_name
        compare_cert_template_and_cert str_to_int prepare_protected_part protectionutils.verify_pkimessage_protection""",
    "B12": """asn1_compare_named_values get_set_bitstring_names is_bit_set build_chain_from_list
        certificates_are_trustanchors verify_cert_chain_openssl validate_sender_and_recipient compare_cert_template_and_cert
        mac_protection_algorithms_must_match signature_protection_must_match""",
    "B14": """parse_extension_and_public_key extract_extensions_from_csr contains_extension copy_subject_public_key_info
        get_subject_key_identifier filter_options load_public_key_from_cert""",
    "B15": """sign_cert_catalyst sign_cert certbuildutils.sign_csr get_all_asn1_named_value_names get_set_bitstring_names is_bit_set
        find_name_inside_general_names validity_to_optional_validity pyasn1_time_obj_to_py_datetime prepare_sig_alg_id
        load_public_key_from_der filter_options is_kem_public_key""",
    "B16": """build_csr modify_common_name_cert prepare_cert_template prepare_cert_template_from_csr
        prepare_issuer_and_serial_number calculate_cert_hash extract_fields_for_exchange prepare_subject_public_key_info
        build_env_data_for_exchange parse_encrypted_key_for_popo prepare_one_asymmetric_key private_key_to_private_numbers
        convert_to_generalized_time parse_to_general_name prepare_general_name prepare_name compute_and_prepare_mac
        get_digest_alg_for_cmp is_kem_private_key is_kem_public_key manipulate_first_byte
        prepare_sig_alg_id sha_alg_name_to_oid""",
    "B18": """build_chain_from_list verify_signature_with_cert compare_pyasn1_names parse_certificate
        certextractutils.get_extension get_field_from_certificate protectionutils.verify_signature_with_alg_id""",
    "B19": """CombinedKeyFactory.load_private_key_from_one_asym_key CombinedKeyFactory.load_public_key_from_spki CombinedKeyFactory.save_private_key_one_asym_key
        compute_hss_signature_index get_curve_instance prepare_sig_alg_id HSSPrivateKey.from_private_bytes""",
    "C01": """PQKeyFactory.load_public_key_from_spki may_extract_alt_key_from_cert sign_data cryptoutils.verify_signature
        check_consistency_sig_alg_id_and_key oid_mapping.hash_name_to_instance get_hash_from_oid verify_rsassa_pss_from_alg_id""",
    "C02": """MLKEMPrivateKey.from_private_bytes MLKEMPublicKey.from_public_bytes PQKeyFactory.from_private_bytes
        PQKeyFactory.from_public_bytes PQKeyFactory.generate_pq_key PQKeyFactory.get_pq_alg_name oid_mapping.hash_name_to_instance
        get_curve_instance""",
    "C04": """ChempatPrivateKey.parse_keys ChempatPublicKey.from_public_bytes MLKEMPrivateKey.from_private_bytes
        MLKEMPublicKey.from_public_bytes load_enc_key ecc_private_key_to_bytes prepare_ec_private_key prepare_enc_key_pem
        prepare_rsa_private_key MLDSAPrivateKey.from_private_bytes MLDSAPublicKey.from_public_bytes
        SLHDSAPrivateKey.from_private_bytes SLHDSAPublicKey.from_public_bytes HSSPrivateKey.normalize_algorithm
        HSSPrivateKey.supported_algorithms HSSPublicKey.from_public_bytes XMSSMTPublicKey.from_public_bytes
        XMSSPublicKey.from_public_bytes DHKEMPrivateKey.from_private_bytes RSADecapKey.from_pkcs8 RSAEncapKey.from_spki
        XWingPrivateKey.from_private_bytes XWingPrivateKey.from_seed XWingPublicKey.from_public_bytes
        get_curve_instance KeySaveType.get""",
    "C05": """ML_KEM.decaps_internal ML_KEM.encaps_internal ML_DSA.sign_internal ML_DSA.verify_internal
        SLH_DSA.slh_keygen_internal SLH_DSA.slh_sign SLH_DSA.slh_sign_internal SLH_DSA.slh_verify SLH_DSA.slh_verify_internal
        FrodoKEM.kem_decaps FrodoKEM.kem_encaps FrodoKEM.kem_keygen prepare_enc_key_pem sha_alg_name_to_oid""",
    "C10": """validate_related_certificate_descriptor_alg_ids csr_add_extensions extensions_contains_extn_id
        prepare_tbs_certificate prepare_tbs_certificate_from_template sign_cert extract_extensions_from_csr
        certextractutils.get_extension verify_cert_signature verify_csr_signature verify_signature_with_cert
        compare_alg_id_without_tag compare_pyasn1_names copy_csr copy_name copy_validity copy_subject_public_key_info
        sign_data cryptoutils.verify_signature verify_composite_signature_with_keys
        protectionutils.verify_signature_with_alg_id load_certificate_from_uri fetch_value_from_location""",
    "C11": """validate_issuer_and_serial_number_field prepare_issuer_and_serial_number calculate_cert_hash
        certificates_are_trustanchors check_is_cert_signer verify_cert_chain_openssl build_chain_from_list
        extract_extensions_from_csr certextractutils.get_extension compare_alg_id_without_tag cryptoutils.verify_signature
        sign_data get_digest_hash_alg_from_alg_id pyasn1_time_obj_to_py_datetime get_set_bitstring_names
        load_certificates_from_dir""",
}


def extra(pid, frozen):
    """The full names of the further functions of a property; unknown or ambiguous names are an error."""
    out = []
    for name in MORE.get(pid, "").split():
        hits = [q for q in frozen if q.endswith("." + name)]
        if len(hits) != 1:
            raise ValueError(f"{pid}: {name} names {len(hits)} functions: {hits[:3]}")
        out.append(hits[0])
    return out
