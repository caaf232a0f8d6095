/* Force-included first: loop-head markers a unit does not define are empty. */
#ifndef VERIF_HOOKS_DEFAULT_H
#define VERIF_HOOKS_DEFAULT_H
#define DSTU_LOOP_HEAD_gost_enc
#define DSTU_LOOP_HEAD_gost_dec
#define DSTU_LOOP_HEAD_gost_enc_cfb
#define DSTU_LOOP_HEAD_gost_dec_cfb
#define DSTU_LOOP_HEAD_gost_mac
#define DSTU_LOOP_HEAD_gost_mac_iv
#define DSTU_LOOP_HEAD_hash_block
#define DSTU_LOOP_HEAD_bn_truncate_bits
#define DSTU_LOOP_HEAD_dstu_do_sign
#define DSTU_LOOP_HEAD_dstu_generate_key
#define DSTU_LOOP_HEAD_reverse_bytes
#define DSTU_LOOP_HEAD_reverse_bytes_copy
#define DSTU_LOOP_HEAD_bn_trace
#define DSTU_LOOP_HEAD_dstu_rbg_bytes
#define DSTU_LOOP_HEAD_ks_new_keys
#define DSTU_LOOP_HEAD_ks_new_certs
#define DSTU_LOOP_HEAD_ks_append_keys
#define DSTU_LOOP_HEAD_ks_append_certs
#define DSTU_LOOP_HEAD_ks_free_keys
#define DSTU_LOOP_HEAD_ks_free_certs
#define DSTU_LOOP_HEAD_utf16_convert
#define DSTU_LOOP_HEAD_utf16_flush
#define DSTU_LOOP_HEAD_key_protector
#define DSTU_LOOP_HEAD_key_protector_block
#define DSTU_LOOP_HEAD_jks_certs
#define DSTU_LOOP_HEAD_jks_entries
#define DSTU_LOOP_HEAD_read_jks
#define DSTU_LOOP_HEAD_pkdf
#define DSTU_LOOP_HEAD_read_key6
#define DSTU_LOOP_HEAD_p12_count_bags
#define DSTU_LOOP_HEAD_p12_count_safes
#define DSTU_LOOP_HEAD_p12_bags
#define DSTU_LOOP_HEAD_p12_safes
#define DSTU_LOOP_HEAD_read_pkcs12
#define DSTU_LOOP_HEAD_attr_scalar
#define DSTU_LOOP_HEAD_attr_reverse
#define DSTU_LOOP_HEAD_attr_curve
#define DSTU_LOOP_HEAD_attr_find
#endif
