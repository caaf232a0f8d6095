from vlib import Unit
PROPS = {}

# ---------------------------------------------------------------- C01
SMT = ("z3new", "cvc5", "z3")
_ecb = dict(replace=["gostcrypt:gostcrypt__contract", "gostdecrypt:gostcrypt__contract"], unwind=9, solvers=("sat", "z3", "cvc5"))
def ecb(name, entry, fn, inplace):
    d = ["UNIT_ENC"] + (["INPLACE"] if inplace else [])
    return Unit(name, "c01.c", [fn], entry=entry, defs=d, cut=[fn],
                fallback=dict(defs=["BOUND=4"] + d[1:], kind="bounded", bound="at most 4 blocks", cut=None), **_ecb)
PROPS["C01"] = dict(
    native="n_block.c",
    units=[
        Unit("kboxinit", "c01.c", ["kboxinit"], entry="h_kboxinit", unwind=257, solvers=("sat", "z3")),
        Unit("lemma_tables", "c01.c", [], entry="h_lemma_tables", unwind=17, solvers=("sat", "z3", "cvc5")),
        Unit("gostcrypt", "c01.c", ["gostcrypt", "f"], entry="h_gostcrypt", unwind=65, solvers=SMT),
        Unit("gostdecrypt", "c01.c", ["gostdecrypt", "f"], entry="h_gostdecrypt", unwind=65, solvers=SMT),
        Unit("lemma_inverse", "c01.c", [], entry="h_lemma_inverse", unwind=33, solvers=SMT),
        Unit("keys", "c01.c", ["gost_key", "gost_key_nomask", "gost_key_impl", "magma_key", "gost_get_key", "magma_get_key"], entry="h_keys", unwind=34, solvers=("z3new", "sat", "z3")),
        Unit("init_destroy", "c01.c", ["gost_init", "gost_destroy"], entry="h_init_destroy", unwind=257, solvers=("sat", "z3new")),
        Unit("enc_with_key", "c01.c", ["gost_enc_with_key"], entry="h_enc_with_key", unwind=34,
             replace=["gostcrypt:gostcrypt__contract", "gost_key_nomask:gost_key_nomask__contract"]),
        ecb("gost_enc", "h_enc", "gost_enc", 0), ecb("gost_enc_inplace", "h_enc", "gost_enc", 1),
        ecb("gost_dec", "h_dec", "gost_dec", 0), ecb("gost_dec_inplace", "h_dec", "gost_dec", 1),
        Unit("ecb_zero", "c01.c", ["gost_enc", "gost_dec"], entry="h_ecb_zero", **_ecb),
    ],
    assumptions=["RAND_priv_bytes is modelled as filling the mask with arbitrary bytes (or not at all)",
                 "OPENSSL_cleanse is modelled as zeroing its argument"])

# ---------------------------------------------------------------- C02
def cfb(name, entry, fn, inplace):
    d = ["UNIT_CUT"] + (["INPLACE"] if inplace else [])
    return Unit(name, "c02_cfb.c", [fn], entry=entry, defs=d, cut=[fn], replace=["gostcrypt:gostcrypt__contract"], unwind=10,
                fallback=dict(defs=["BOUND=3"] + d[1:], kind="bounded", bound="at most 3 blocks", cut=None))
def updates():
    us = []
    quick = (1, 6, 8, 11, 17, 23)
    for n in range(1, 27):
        for st in (0, 1):
            for ip in (0, 1):
                us.append(Unit("update_n%d_%s%s" % (n, "state" if st else "data", "_inplace" if ip else ""), "c02_evp.c", ["dstu_cipher_do_cipher"], entry="h_update",
                    defs=["FIXED_N=%d" % n] + ["STATE"] * st + ["INPLACE"] * ip, unwind=30, solvers=("sat",), kind="bounded", timeout=200,
                    bound="one update of exactly %d bytes, from every state" % n, tier=None if n in quick else "thorough"))
    # every length, one proof per position in the block and direction
    for num in range(0, 8):
        for dec in (0, 1):
            for ip in (0, 1):
                for mode in (["STATE"], ["REGION=0"], ["REGION=1"], ["REGION=2"], ["REGION=3"]):
                    if num == 0 and mode == ["REGION=0"]: continue
                    us.append(Unit("update_any_num%d_%s%s_%s" % (num, "dec" if dec else "enc", "_inplace" if ip else "", mode[0].replace("=", "")), "c02_evp.c", ["dstu_cipher_do_cipher"],
                        entry="h_update", defs=["NUM=%d" % num, "DEC=%d" % dec] + ["INPLACE"] * ip + mode, unwind=9, solvers=("sat", "z3"), flags=["--no-standard-checks"],
                        unwindset={"dstu_cipher_do_cipher.0": num + 1, "dstu_cipher_do_cipher.1": 8}, timeout=400,
                        tier=None if num == 0 or (num == 1 and mode in (["REGION=1"], ["REGION=2"])) else "thorough", weak=True))
    return us
PROPS["C02"] = dict(
    native="n_cfb.c", native_groups=["dstulib", "dstulib/gost", "engine"],
    units=[cfb("gost_enc_cfb", "h_enc_cfb", "gost_enc_cfb", 0), cfb("gost_enc_cfb_inplace", "h_enc_cfb", "gost_enc_cfb", 1),
           cfb("gost_dec_cfb", "h_dec_cfb", "gost_dec_cfb", 0), cfb("gost_dec_cfb_inplace", "h_dec_cfb", "gost_dec_cfb", 1),
    ] + updates() + [
    ],
    assumptions=["EVP_CIPHER_CTX accessors read and write plain fields (evp_cipher_model.h)"])

# ---------------------------------------------------------------- C03
_macr = ["mac_block:mac_block__contract", "get_mac:get_mac__contract"]
_mesh = ["gost_dec:gost_dec__contract", "gost_key:gost_key__contract", "gostcrypt:gostcrypt__contract"]
def macu(name, fn):
    return Unit(name, "c03.c", [fn], entry="h_" + name, defs=["UNIT_CUT"], replace=_macr, unwind=10, cut=[fn],
                fallback=dict(defs=["BOUND=41"], kind="bounded", bound="messages of at most 41 bytes", cut=None))
PROPS["C03"] = dict(
    native="n_mac.c",
    units=[Unit("mac_block", "c03.c", ["mac_block", "f"], entry="h_mac_block", unwind=34, solvers=SMT),
           Unit("get_mac", "c03.c", ["get_mac"], entry="h_get_mac", unwind=10),
           macu("mac", "gost_mac"), macu("mac_iv", "gost_mac_iv"),
           Unit("cryptopro", "c03.c", ["cryptopro_key_meshing"], entry="h_cryptopro", replace=_mesh, unwind=34),
           Unit("acpkm", "c03.c", ["acpkm_magma_key_meshing"], entry="h_acpkm", replace=_mesh, unwind=34)],
    assumptions=["message length at most 2^32-16 bytes (the length parameter is 32 bits and the code adds 8 to it)"])

# ---------------------------------------------------------------- C06
_hs = ["hash_step:hash_step__contract"]
_hsm = _hs + ["memcpy:memcpy__contract"]
def hupd(name, d):
    return Unit(name, "c06.c", ["hash_block", "add_blocks"], entry="h_update", defs=["UNIT_CUT"] + d, replace=_hsm, timeout=150, unwindset={"hash_block.0": 4}, unwind=34, cut=["hash_block"],
                fallback=dict(defs=["BOUND=70"] + d, kind="bounded", bound="one update of at most 70 bytes, from every state", cut=None, replace=_hs))
PROPS["C06"] = dict(
    native="n_hash.c", native_groups=["dstulib", "dstulib/gost", "engine"],
    units=[Unit("hash_step", "c06.c", ["hash_step", "swap_bytes", "circle_xor8", "transform_3", "xor_blocks"], entry="h_step", defs=["UNIT_STEP"], unwind=65, solvers=("cvc5", "sat", "z3new")),
           hupd("hash_block_aligned", ["LEFT0", "NO_SUM"]), hupd("hash_block_pending", ["LEFTPOS", "NO_SUM"]),
           hupd("hash_block_aligned_sum", ["LEFT0", "SUMONLY"]), hupd("hash_block_pending_sum", ["LEFTPOS", "SUMONLY"]),
           Unit("hash_block_empty", "c06.c", ["hash_block"], entry="h_update_empty", unwindset={"hash_block.0": 2}, replace=_hsm, unwind=34),
           Unit("finish_hash", "c06.c", ["finish_hash", "add_blocks"], entry="h_finish", replace=_hs, unwind=34),
           Unit("start_hash", "c06.c", ["start_hash"], entry="h_start", unwind=34),
           Unit("init_gost_hash_ctx", "c06.c", ["init_gost_hash_ctx", "done_gost_hash_ctx"], entry="h_init", defs=["UNIT_INIT"], unwind=34)],
    assumptions=["message length below 2^60 bytes", "the block encryption gost_enc_with_key is proved in C01 and is an uninterpreted function here"])

# ---------------------------------------------------------------- C05
PROPS["C05"] = dict(
    native="n_sbox.c",
    units=[Unit("unpack_sbox", "c05.c", ["unpack_sbox", "pack_sbox"], entry="h_unpack", unwind=66),
           Unit("pack_sbox", "c05.c", ["pack_sbox", "unpack_sbox"], entry="h_pack", unwind=66),
           Unit("dstu_get_sbox", "c05.c", ["dstu_get_sbox"], entry="h_get_sbox", unwind=258, solvers=("sat", "z3new", "cvc5")),
           Unit("default_sbox", "c05.c", ["is_default_sbox"], entry="h_default", unwind=66),
           Unit("copy_sbox", "c05.c", ["copy_sbox"], entry="h_copy", unwind=66)],
    assumptions=["OPENSSL_malloc returns NULL or a fresh block of the requested size"])

# ---------------------------------------------------------------- C07
PROPS["C07"] = dict(
    native="n_md.c", native_groups=["dstulib", "dstulib/gost", "engine"],
    units=[Unit("md_" + n, "c07.c", f, entry="h_" + n, unwind=70) for n, f in (
        ("init", ["dstu_md_init"]), ("forward", ["dstu_md_update", "dstu_md_final"]), ("copy", ["dstu_md_copy"]),
        ("cleanup", ["dstu_md_cleanup"]), ("ctrl", ["dstu_md_ctrl"]), ("register", ["dstu_digest_new"]))],
    assumptions=["EVP_MD_CTX and EVP_PKEY accessors return the stored pointers (evp_md_model.h)",
                 "a digest context's attached key is a DSTU key"])

# ---------------------------------------------------------------- C08, C09
_tr = ["bn_truncate_bits:bn_truncate_bits__contract"]
_sg = _tr + ["hash_to_field:hash_to_field__contract"]
_sign_helpers = lambda: [
    Unit("bn_truncate_bits", "c08.c", ["bn_truncate_bits"], entry="h_trunc", defs=["UNIT_TRUNC"], unwind=3, timeout=400, cut=["bn_truncate_bits"], solvers=("sat", "z3new")),
    Unit("hash_to_field", "c08.c", ["hash_to_field"], entry="h_hash", defs=["BN_ABSTRACT"], unwind=66, replace=_tr, solvers=("sat", "z3new")),
]
PROPS["C08"] = dict(native="n_verify.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=_sign_helpers() + [
    Unit("dstu_do_verify", "c08.c", ["dstu_do_verify", "field_to_bn"], entry="h_verify", defs=["BN_ABSTRACT"], unwind=3, replace=_sg, solvers=("sat", "z3new"))])
PROPS["C09"] = dict(native="n_sign.c", native_hang_is_fail=True, native_groups=["dstulib", "dstulib/gost", "engine"], units=_sign_helpers() + [
    Unit("dstu_do_sign", "c08.c", ["dstu_do_sign", "field_to_bn"], entry="h_sign", defs=["UNIT_SIGN", "BN_ABSTRACT"], unwind=3, replace=_sg, cut=["dstu_do_sign"], solvers=("sat", "z3new"))])

# ---------------------------------------------------------------- C10
PROPS["C10"] = dict(native="n_evpsig.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=[
    Unit("dstu_pkey_sign", "c10.c", ["dstu_pkey_sign"], entry="h_sign", unwind=4, solvers=("sat", "z3new")),
    Unit("dstu_pkey_verify", "c10.c", ["dstu_pkey_verify"], entry="h_verify", unwind=4, solvers=("sat", "z3new"))])

# ---------------------------------------------------------------- C11
PROPS["C11"] = dict(native="n_keygen.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=[
    Unit("dstu_add_public_key", "c11.c", ["dstu_add_public_key"], entry="h_add", unwind=12, solvers=("sat", "z3new")),
    Unit("dstu_generate_key", "c11.c", ["dstu_generate_key"], entry="h_gen", defs=["UNIT_GEN"], cut=["dstu_generate_key"], unwind=3, replace=["dstu_add_public_key:dstu_add_public_key__contract"], solvers=("sat", "z3new")),
] + [Unit("pkey_" + n, "c11p.c", f, entry="h_" + n, unwind=9, solvers=("sat", "z3new")) for n, f in (("keygen", ["dstu_pkey_keygen"]), ("ctrl", ["dstu_pkey_ctrl"]), ("ctrl_str", ["dstu_pkey_ctrl_str", "dstu_pkey_ctrl"]),
    ("ctx", ["dstu_pkey_copy", "dstu_pkey_cleanup"]), ("init", ["dstu_pkey_init_le", "dstu_pkey_init_be", "dstu_pkey_init", "dstu_pkey_meth_new", "dstu_pkey_meth_free"]))])

# ---------------------------------------------------------------- C12
PROPS["C12"] = dict(native="n_bytes.c", units=[
    Unit("reverse_bytes", "c12.c", ["reverse_bytes"], entry="h_rev", defs=["UNIT_REV"], cut=["reverse_bytes"], unwind=3, solvers=("sat", "z3new"), fallback=dict(defs=["MAXN=25"], kind="bounded", bound="at most 17 bytes", cut=None, unwind=20)),
    Unit("reverse_bytes_copy", "c12.c", ["reverse_bytes_copy"], entry="h_revc", defs=["UNIT_REVC"], cut=["reverse_bytes_copy"], unwind=3, solvers=("sat", "z3new"), fallback=dict(defs=["MAXN=25"], kind="bounded", bound="at most 17 bytes", cut=None, unwind=20)),
    Unit("reverse_nothing", "c12.c", ["reverse_bytes", "reverse_bytes_copy"], entry="h_rev0", unwind=3),
    Unit("bn_encode", "c12.c", ["bn_encode"], entry="h_enc", unwind=3, replace=["memset:memset__contract"], solvers=("sat", "z3new")),
])

# ---------------------------------------------------------------- C13
_trc = ["bn_trace:bn_trace__contract"]
PROPS["C13"] = dict(native="n_point.c", units=[
    Unit("bn_trace", "c13.c", ["bn_trace"], entry="h_trace", defs=["UNIT_TRACE"], cut=["bn_trace"], unwind=3, solvers=("sat", "z3new")),
    Unit("dstu_point_compress", "c13.c", ["dstu_point_compress"], entry="h_compress", unwind=3, replace=_trc, solvers=("sat", "z3new")),
    Unit("dstu_point_expand", "c13.c", ["dstu_point_expand"], entry="h_expand", unwind=3, replace=_trc, solvers=("sat", "z3new")),
])

# ---------------------------------------------------------------- C14
_gnc = ["group_from_named_curve:group_from_named_curve__contract"]
PROPS["C14"] = dict(native="n_curves.c", units=[
    Unit("curve_table", "c14.c", [], entry="h_table", unwind=12, solvers=("sat", "z3new")),
] + [Unit("group_from_named_curve_%d" % i, "c14.c", ["group_from_named_curve"], entry="h_group", defs=["CURVE=%d" % i], unwind=12, solvers=("sat", "z3new")) for i in range(10)] + [
    Unit("group_from_nid", "c14.c", ["group_from_nid"], entry="h_nid", unwind=12, replace=_gnc, solvers=("sat", "z3new")),
    Unit("curve_nid_from_group", "c14.c", ["curve_nid_from_group"], entry="h_rnid", unwind=12, replace=_gnc, solvers=("sat", "z3new")),
])

# ---------------------------------------------------------------- C04
PROPS["C04"] = dict(native="n_cipher.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=[Unit("cipher_" + n, "c04.c", f, entry="h_" + n, unwind=202, solvers=("sat", "z3new")) for n, f in (
    ("init", ["dstu_cipher_init"]), ("ctrl", ["dstu_cipher_ctrl"]), ("set", ["dstu_cipher_set_asn1_parameters"]), ("get", ["dstu_cipher_get_asn1_parameters", "dstu_cipher_ctrl"]), ("meth", ["dstu_cipher_new", "dstu_cipher_free"]))],
    assumptions=["EVP_CIPHER_CTX accessors read and write plain fields (evp_cipher_model.h)"])

# ---------------------------------------------------------------- C15
PROPS["C15"] = dict(native="n_params.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=[
] + [Unit("asn1_from_key_" + n, "c15.c", ["asn1_from_key"], entry="h_encode", defs=d, unwind=8, unwindset={"mk.0": 66}, solvers=("sat", "z3new")) for n, d in (("named", ["NAMED"]), ("trinomial", ["TERMS=3"]), ("pentanomial", ["TERMS=5"]))] + [
    Unit("group_from_asn1_" + n, "c15.c", ["group_from_asn1", "exponent_from_asn1"], entry="h_group", defs=["TERMS=%d" % t], unwind=8, unwindset={"mk.0": 66}, solvers=("sat", "z3new")) for n, t in (("trinomial", 3), ("pentanomial", 5))] + [
    Unit("key_from_asn1", "c15.c", ["key_from_asn1"], entry="h_key", defs=["UNIT_KEY"], unwind=8, unwindset={"mk.0": 66}, replace=["group_from_asn1:group_from_asn1__contract"], solvers=("sat", "z3new")),
])

# ---------------------------------------------------------------- C16, C17
def _am(name, entry, funcs, **k): return Unit(name, "c16.c", funcs, entry=entry, unwind=8, unwindset=dict({"mk.0": 66}, **k.pop("uw", {})), solvers=("sat", "z3new"), **k)
PROPS["C16"] = dict(native="n_keycodec.c", native_budget=20, native_groups=["dstulib", "dstulib/gost", "engine"], units=[
    _am("param_decode", "h_pdec", ["dstu_asn1_param_decode", "dstu_asn1_pkey_free"]), _am("param_encode", "h_penc", ["dstu_asn1_param_encode"]),
    _am("priv_decode", "h_kdec", ["dstu_asn1_priv_decode", "dstu_asn1_param_decode"]), _am("priv_encode", "h_kenc", ["dstu_asn1_priv_encode", "dstu_asn1_param_encode"]),
    _am("pub_decode", "h_udec", ["dstu_asn1_pub_decode", "dstu_asn1_param_decode"]), _am("pub_encode", "h_uenc", ["dstu_asn1_pub_encode", "dstu_asn1_param_encode"]),
    _am("pkey_size", "h_size", ["dstu_asn1_pkey_size", "dstu_asn1_pkey_bits", "dstu_asn1_pkey_free"]), _am("pkey_ctrl", "h_ctrl", ["dstu_asn1_pkey_ctrl"]),
    _am("asn1_meth", "h_meth", ["dstu_asn1_meth_new", "dstu_asn1_meth_free"], defs=["METH_FAIL=0"]), _am("print", "h_print", ["dstu_asn1_param_print", "dstu_asn1_priv_print", "dstu_asn1_pub_print"]),
])
PROPS["C17"] = dict(native="n_keycmp.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=[
    _am("param_cmp", "h_pcmp", ["dstu_asn1_param_cmp"], uw={"h_pcmp.0": 66, "memcmp.0": 66}), _am("pub_cmp", "h_ucmp", ["dstu_asn1_pub_cmp"]), _am("param_copy", "h_pcopy", ["dstu_asn1_param_copy"]),
    Unit("key_new_free", "c17.c", ["DSTU_KEY_new", "DSTU_KEY_free"], entry="h_new"), Unit("key_set", "c17.c", ["DSTU_KEY_set", "DSTU_KEY_free"], entry="h_set"),
    Unit("ctx_new_set_free", "c17.c", ["DSTU_KEY_CTX_new", "DSTU_KEY_CTX_set", "DSTU_KEY_CTX_free"], entry="h_cset"), Unit("ctx_copy", "c17.c", ["DSTU_KEY_CTX_copy"], entry="h_ccopy"),
])

# ---------------------------------------------------------------- C18
PROPS["C18"] = dict(native="n_rbg.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=[
    Unit("rbg_bytes", "c18.c", ["dstu_rbg_bytes", "dstu_lock", "dstu_unlock"], entry="h_bytes", defs=["UNIT_BYTES"], cut=["dstu_rbg_bytes"], unwind=42, replace=["dstu_rbg_get_bit:dstu_rbg_get_bit__contract", "dstu_rbg_status_nolock:dstu_rbg_status_nolock__contract"], solvers=("sat", "z3new")),
    ] + [Unit("rbg_" + n, "c18.c", f, entry="h_" + n, unwind=42, solvers=("sat", "z3new")) for n, f in (("bit", ["dstu_rbg_get_bit"]), ("status", ["dstu_rbg_status", "dstu_rbg_status_nolock", "dstu_rbg_init"]), ("init", ["dstu_rbg_init"]), ("cleanup", ["dstu_rbg_cleanup", "dstu_rbg_status"]), ("fwd", ["dstu_rbg_add", "dstu_rbg_seed"]))],
    assumptions=["CRYPTO_THREAD_* give mutual exclusion (lock, unlock, run once)", "RAND_OpenSSL() delivers good seeds when it reports success"])

# ---------------------------------------------------------------- C24
PROPS["C24"] = dict(native="n_engine.c", native_groups=["dstulib", "dstulib/gost", "engine"], units=[Unit("engine_" + n, "c24.c", f, entry="h_" + n, unwind=42, solvers=("sat", "z3new")) for n, f in (
    ("start", []), ("bind", ["dstu_bind", "bind_engine"]), ("use", ["dstu_engine_init", "dstu_engine_finish"]), ("destroy", ["dstu_engine_destroy"]), ("serve", ["dstu_digests", "dstu_ciphers", "dstu_pkey_meths", "dstu_asn1_meths", "dstu_md_get", "dstu_cipher_get", "dstu_pkey_meth_get", "dstu_asn1_meth_get"]))] + [
    Unit("pkey_method", "c24.c", ["dstu_pkey_meth_new", "dstu_pkey_meth_free"], entry="h_pmeth", defs=["UNIT_PMETH"], solvers=("sat", "z3new"))],
    assumptions=["libcrypto frees an engine's key methods before its destroy function runs (engine_free_util)"])

# ---------------------------------------------------------------- C23
def _ks(name, entry, d, funcs, cut): return Unit("keystore_" + name, "c23ks.c", funcs, entry=entry, defs=[d], cut=cut, unwind=3, solvers=("z3new", "sat"), fallback=dict(defs=["MAXN=4", "BOUNDED"], kind="bounded", bound="at most 3 entries of each kind", cut=None, unwind=5))
PROPS["C23"] = dict(native="n_keystore.c", native_groups=["dstulib", "dstulib/gost", "engine", "keylib"], native_budget=10, units=[
    _ks("new", "h_new", "UNIT_NEW", ["KeyStoreNew", "KeyStoreSetKey", "KeyStoreSetCert", "KeyStoreGetKey", "KeyStoreGetCert", "KeyStoreKeyNum", "KeyStoreCertNum"], ["KeyStoreNew"]),
    _ks("append", "h_append", "UNIT_APPEND", ["KeyStoreAppend"], ["KeyStoreAppend"]),
    _ks("free", "h_free", "UNIT_FREE", ["KeyStoreFree"], ["KeyStoreFree"]),
])
def _ut(name, entry, funcs, d=None, **k): return Unit(name, "c23ut.c", funcs, entry=entry, defs=[d] if d else [], cut=funcs[:1] if d else None, unwind=k.pop("unwind", 3), unwindset={"is.0": 42, "rev.0": 10}, solvers=("sat", "z3new"), fallback=dict(defs=["MAXN=4"], kind="bounded", bound="at most 3 values, octets or attributes", cut=None, unwind=5) if d else None, **k)
PROPS["C23"]["units"] += [
    _ut("attribute_scalar", "h_num", ["getPrivateKeyNum"], "UNIT_NUM"), _ut("attribute_curve", "h_curve", ["makeECGROUP"], "UNIT_CURVE"),
    _ut("attribute_key", "h_pkey", ["makePKey"], replace=["getPrivateKeyNum:getPrivateKeyNum__contract", "makeECGROUP:makeECGROUP__contract"]),
    _ut("attributes", "h_find", ["pkeyFromAttributes"], "UNIT_FIND", replace=["makePKey:makePKey__contract"]),
    _ut("pkcs8_keys", "h_p8", ["keysFromPKCS8"], replace=["pkeyFromAttributes:pkeyFromAttributes__contract"]),
]
PROPS["C23"]["assumptions"] = ["allocations of the key store's own arrays, buffers and BN_CTX succeed (the code does not check them)", "libcrypto's PKCS#8 and attribute accessors"]

# ---------------------------------------------------------------- C19, C20
_kg = ["dstulib", "dstulib/gost", "engine", "keylib"]
def _jk(name, entry, funcs, d=None, cut=None, f="c19.c", fb=None, **k): return Unit(name, f, funcs, entry=entry, defs=[d] if d else [], cut=cut, unwind=k.pop("unwind", 22), solvers=k.pop("solvers", ("sat", "z3new")), fallback=fb or (dict(defs=[d, "BOUNDED"], kind="bounded", bound="at most 3 iterations, containers of at most 100 octets", cut=None, unwind=22) if cut else None), **k)
PROPS["C19"] = dict(native="n_jks.c", native_groups=_kg, native_budget=10, units=[
    _jk("has_at", "h_has", ["hasAt", "ptrAt"]), _jk("parse_cert", "h_cert", ["parseCert", "hasAt", "read16", "read32", "copyAt"]),
    _jk("parse_key", "h_key", ["parseKey"], "UNIT_KEY", ["parseKey"], replace=["parseCert:parseCert__contract", "decryptKey:decryptKey__contract"]),
    _jk("parse_entry", "h_entry", ["parseEntry"], "UNIT_ENTRY", replace=["parseCert:parseCert__contract", "parseKey:parseKey__contract"]),
    _jk("parse_jks", "h_jks", ["parseJKS"], "UNIT_JKS", ["parseJKS"], replace=["parseEntry:parseEntry__contract", "toUTF16BE:toUTF16BE__contract", "whiteHash:whiteHash__contract", "KeyStoreNew:KeyStoreNew__contract"]),
    _jk("jks_digests", "h_white", ["twoHash", "whiteHash"], "UNIT_WHITE"),
    _jk("to_utf16", "h_utf16", ["toUTF16BE"], "UNIT_UTF16", ["toUTF16BE"]),
    _jk("read_jks", "h_read", ["readJKS_bio"], "UNIT_READ", ["readJKS_bio"], replace=["parseJKS:parseJKS__contract"]),
    _jk("read_jks_file", "h_file", ["readJKS"], "UNIT_READ", replace=["readJKS_bio:readJKS_bio__contract"]),
], assumptions=["allocations in keylib succeed (the code does not check them)", "iconv, BIO, EVP digest and d2i_X509 contracts"])
PROPS["C20"] = dict(native="n_jks.c", native_groups=_kg, native_budget=10, units=[
    _jk("key_protector", "h_prot", ["fromKeyProtector"], "UNIT_PROT", ["fromKeyProtector"], f="c20.c", solvers=("cadical", "sat"), fb=dict(defs=["UNIT_PROT", "BOUNDED"], kind="bounded", bound="protected keys of 0, 39, 40, 41, 60, 61 and 85 octets", cut=None, unwind=22), replace=["twoHash:twoHash__contract"]),
    _jk("decrypt_key", "h_decrypt", ["decryptKey", "fromPBES1"], "UNIT_DECRYPT", f="c20.c", unwindset={"is.0": 42}, replace=["fromKeyProtector:fromKeyProtector__contract", "toUTF16BE:toUTF16BE__contract"]),
    _jk("jks_digests", "h_white", ["twoHash"], "UNIT_WHITE"),
], assumptions=["allocations in keylib succeed (the code does not check them)", "SHA-1 as provided by libcrypto", "X509_SIG accessors"])
def _k6(name, entry, funcs, d=None, cut=None, **k): return _jk(name, entry, funcs, d, cut, f="c21.c", unwind=k.pop("unwind", 34), unwindset={"is.0": 42}, **k)
PROPS["C21"] = dict(native="n_key6.c", native_groups=_kg, native_budget=12, units=[
    _k6("key6_hash", "h_hash", ["hash"]), _k6("key6_derive", "h_pkdf", ["pkdf"], "UNIT_PKDF", ["pkdf"], replace=["hash:hash__contract"], fb=dict(defs=["UNIT_PKDF", "BOUNDED"], kind="bounded", bound="octet 0 of the key", cut=None, unwind=10001)),
    _k6("key6_decrypt", "h_dec6", ["decryptKey6"], "UNIT_DEC6", replace=["pkdf:pkdf__contract"]), _k6("parse_key6", "h_parse6", ["parseKey6"], replace=["decryptKey6:decryptKey6__contract"]),
    _k6("read_key6", "h_read", ["readKey6_bio"], "UNIT_READ", ["readKey6_bio"], replace=["parseKey6:parseKey6__contract"]), _k6("read_key6_file", "h_file", ["readKey6"], replace=["readKey6_bio:readKey6_bio__contract"]),
], assumptions=["allocations in keylib succeed (the code does not check them)", "BIO and ASN.1 container contracts", "hash and block cipher as proved in C01, C07"])
def _p12(name, entry, funcs, d=(), cut=None, replace=()): return Unit(name, "c22.c", funcs, entry=entry, defs=list(d), cut=cut, unwind=34, solvers=("cadical", "sat"), replace=[x + ":" + x + "__contract" for x in replace], fallback=dict(defs=list(d) + ["BOUNDED"], kind="bounded", bound="lists of at most 2 members, 3 pieces", cut=None, unwind=6) if cut else None)
PROPS["C22"] = dict(native="n_p12.c", native_groups=_kg, native_budget=10, units=[
    _p12("count_bag", "h_cbag", ["countKeysCertsInBag"], replace=["countKeysCertsInBags"]), _p12("count_bags", "h_cbags", ["countKeysCertsInBags"], ["UNIT_CBAGS"], ["countKeysCertsInBags"], ["countKeysCertsInBag"]),
    _p12("count_parts", "h_csafes", ["countKeysCerts"], ["LISTS", "UNIT_CSAFES"], ["countKeysCerts"], ["countKeysCertsInBags"]),
    _p12("read_bag", "h_fbag", ["fromBag"], replace=["fromBags"]), _p12("read_bags", "h_fbags", ["fromBags"], ["UNIT_FBAGS"], ["fromBags"], ["fromBag"]),
    _p12("read_parts", "h_fsafes", ["fromSafes"], ["LISTS", "UNIT_FSAFES"], ["fromSafes"], ["fromBags"]),
    _p12("parse_pkcs12", "h_p12", ["parsePKCS12"], replace=["countKeysCerts", "fromSafes"]), _p12("read_pkcs12", "h_read", ["readPKCS12_bio"], ["UNIT_READ"], ["readPKCS12_bio"], ["parsePKCS12"]), _p12("read_pkcs12_file", "h_file", ["readPKCS12"], replace=["readPKCS12_bio"]),
], assumptions=["allocations in keylib succeed (the code does not check them)", "libcrypto's PKCS#12 and PKCS#7 functions, among them that unpacking a part twice gives the same bags", "nesting of bags is finite (d2i limits it)", "passwords below 2^31 octets"])

# functions more than one property depends on
def _share(prop, src, *names):
    got = [u for u in PROPS[src]["units"] if u.name in names]
    assert len(got) == len(names), (prop, names)
    PROPS[prop]["units"] += got
_share("C10", "C16", "pkey_size")
_share("C15", "C16", "param_decode", "param_encode")
_share("C17", "C11", "pkey_ctx")
