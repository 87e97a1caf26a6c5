"""Name and object-identifier tables: inverse of each other, one identifier per name, registered values."""
from . import tables

N = "2.16.840.1.101.3.4."
HASHES = ("sha224", "sha256", "sha384", "sha512")
REG = {"sha1": "1.3.14.3.2.26", "shake128": N + "2.11", "shake256": N + "2.12", "hmac-sha1": "1.3.6.1.5.5.8.1.2",
       "kmac-shake128": N + "2.19", "kmac-shake256": N + "2.20", "rsassa_pss-shake128": "1.3.6.1.5.5.7.6.30",
       "rsassa_pss-shake256": "1.3.6.1.5.5.7.6.31", "ecdsa-shake128": "1.3.6.1.5.5.7.6.32",
       "ecdsa-shake256": "1.3.6.1.5.5.7.6.33", "rsa": "1.2.840.113549.1.1.1", "pbkdf2": "1.2.840.113549.1.5.12",
       "pbmac1": "1.2.840.113549.1.5.14", "password_based_mac": "1.2.840.113533.7.66.13", "dh_based_mac": "1.2.840.113533.7.66.30",
       "ed25519": "1.3.101.112", "ed448": "1.3.101.113", "x25519": "1.3.101.110", "x448": "1.3.101.111",
       "ml-kem-512": N + "4.1", "ml-kem-768": N + "4.2", "ml-kem-1024": N + "4.3",
       "ml-dsa-44": N + "3.17", "ml-dsa-65": N + "3.18", "ml-dsa-87": N + "3.19",
       "ml-dsa-44-sha512": N + "3.32", "ml-dsa-65-sha512": N + "3.33", "ml-dsa-87-sha512": N + "3.34",
       "hss": "1.2.840.113549.1.9.16.3.17", "xmss": "1.3.6.1.5.5.7.6.34", "xmssmt": "1.3.6.1.5.5.7.6.35",
       "rsa-kem": "1.0.18033.2.2.4", "hkdf-sha256": "1.2.840.113549.1.9.16.3.28", "hkdf-sha384": "1.2.840.113549.1.9.16.3.29",
       "hkdf-sha512": "1.2.840.113549.1.9.16.3.30", "xwing": "1.3.6.1.4.1.62253.25722",
       # extended key usages, extensions, attribute types
       "cmcCA": "1.3.6.1.5.5.7.3.27", "cmcRA": "1.3.6.1.5.5.7.3.28", "cmKGA": "1.3.6.1.5.5.7.3.32",
       "aki": "2.5.29.35", "ski": "2.5.29.14", "key_usage": "2.5.29.15", "san": "2.5.29.17", "basic_constraints": "2.5.29.19",
       "eku": "2.5.29.37", "aia": "1.3.6.1.5.5.7.1.1", "crl_dp": "2.5.29.31", "name_constraints": "2.5.29.30",
       "CN": "2.5.4.3", "C": "2.5.4.6", "L": "2.5.4.7", "ST": "2.5.4.8", "O": "2.5.4.10", "OU": "2.5.4.11",
       "DC": "0.9.2342.19200300.100.1.25", "GN": "2.5.4.42"}
for _i, _h in enumerate(HASHES):
    _s3 = "sha3_" + _h[3:]
    REG[_h] = N + "2." + str((4, 1, 2, 3)[_i])
    REG[_s3] = N + "2." + str(7 + _i)
    REG["hmac-" + _s3] = N + "2." + str(13 + _i)
    REG["hmac-" + _h] = "1.2.840.113549.2." + str(8 + _i)
    REG["ecdsa-" + _h] = "1.2.840.10045.4.3." + str(1 + _i)
    REG["ecdsa-" + _s3] = N + "3." + str(9 + _i)
    REG["rsa-" + _s3] = N + "3." + str(13 + _i)
    REG["rsa-" + _h] = "1.2.840.113549.1.1." + str((14, 11, 12, 13)[_i])
for _i, _n in enumerate(("128", "192", "256")):
    for _k, _o in (("cbc", 2), ("wrap", 5), ("gcm", 6), ("gmac", 9)):
        REG[f"aes{_n}_{_k}"] = N + "1." + str(_o + 20 * _i)
for _i, _n in enumerate(("sha2", "shake")):
    for _j, _b in enumerate(("128s", "128f", "192s", "192f", "256s", "256f")):
        REG[f"slh-dsa-{_n}-{_b}"] = N + "3." + str(20 + 6 * _i + _j)
        _h = ("sha256" if _b[0] == "1" and _b[1] == "2" else "sha512") if _n == "sha2" else ("shake128" if _b[:3] == "128" else "shake256")
        REG[f"slh-dsa-{_n}-{_b}-{_h}"] = N + "3." + str(35 + 6 * _i + _j)


# other names of an identifier, other identifiers of a name, and tables that say what belongs to an identifier
ALIAS = {"aes-gmac", "aes_gmac"}
SECOND = {"1.2.840.113549.1.9.16.3.14"}    # id-rsa-KEM as a key identifier (RFC 9690)
BELONGS = ("PREHASH_OID_2_HASH", "INNER_HASH_OID_2_NAME")


def flat(v):
    return v[1] if isinstance(v, (list, tuple)) and v and v[0] == "oid" else \
        v[2] if isinstance(v, (list, tuple)) and len(v) == 3 and v[0] == "c" and v[1] == "str" else None


def pairs(t):
    if not (isinstance(t, (list, tuple)) and t and t[0] == "map"):
        return None
    return [(flat(e[0]), flat(e[1]), e[0][0], e[1][0]) for e in t[1]]


def rule(consts, add):
    """add(constant, detail) for each defect; returns the number of entries looked at."""
    n = 0
    maps = {k: pairs(v) for k, v in consts.items()}
    maps = {k: v for k, v in maps.items() if v is not None}
    for k, es in sorted(maps.items()):
        if k.endswith(BELONGS):
            continue
        seen = {}
        for a, b, ka, kb in es:
            if a is None or b is None or {ka, kb} != {"oid", "c"}:
                continue
            n += 1
            if a in ALIAS or b in ALIAS or a in SECOND:
                continue
            nm, oid = (a, b) if ka == "c" else (b, a)
            if nm in REG and REG[nm] != oid:
                add(k, f"{nm} is {oid}, registered as {REG[nm]}")
            if ka == "c":
                seen.setdefault(oid, []).append(nm)
            else:
                seen.setdefault(nm, []).append(oid)
        for x, ys in sorted(seen.items()):
            if len(ys) > 1:
                add(k, f"{x} stands for {', '.join(sorted(map(str, ys)))}")
        up = k.upper()
        for u, w in (("NAME_2_OID", "OID_2_NAME"), ("NAME_TO_OID", "OID_TO_NAME"), ("NAMES_2_OID", "OIDS_2_NAME")):
            if up.endswith(u):
                other = maps.get(k[:-len(u)] + w)
                if other is None:
                    continue
                fwd = {(a, b) for a, b, *_ in es}
                back = {(b, a) for a, b, *_ in other}
                fwd = {x for x in fwd if x[0] not in ALIAS}
                back = {x for x in back if x[1] not in SECOND}
                for a, b in sorted(fwd - back, key=str):
                    add(k, f"{a} -> {b} has no way back in {k[:-len(u)].rsplit('.', 1)[-1]}{w}")
                for a, b in sorted(back - fwd, key=str):
                    add(k, f"{b} -> {a} of {k[:-len(u)].rsplit('.', 1)[-1]}{w} has no way back")
    return n
