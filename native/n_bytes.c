/* bn_encode, reverse_bytes, reverse_bytes_copy on exact-size buffers. */
#include "nat.h"
#include <openssl/bn.h>
#include "params.h"
#define B(x) do { fail x; DIE(); } while (0)
int main(int argc, char **argv)
{
    nat_init(argc, argv);
    while (more()) {
        int n = rn(3) ? rn(80) : rn(50) ? rn(3000) : 65530 + rn(5000); uint8_t *a = malloc(n), *b = malloc(n), *c = malloc(n); for (int i = 0; i < n; i++) a[i] = rnd() >> 40; memcpy(b, a, n); memset(c, 0xA5, n);
        reverse_bytes(b, n); reverse_bytes_copy(c, a, n);
        for (int i = 0; i < n; i++) if (b[i] != a[n - 1 - i]) B(("reverse_bytes of %d bytes, position %d", n, i)); else if (c[i] != a[n - 1 - i]) B(("reverse_bytes_copy of %d bytes, position %d", n, i));
        reverse_bytes(b, n); if (n && memcmp(a, b, n)) B(("reversing twice"));
        free(b); free(c);
        int len = rn(6) ? rn(90) : rn(400), vl = rn(90); uint8_t v[90], w[400]; rbytes(v, vl); if (vl && rn(2)) v[0] = 1 + rn(255); BIGNUM *x = BN_bin2bn(v, vl, NULL); int nb = BN_num_bytes(x); uint8_t *o = malloc(len); memset(o, 0x5C, len);
        int r = bn_encode(x, o, len);
        if (nb > len) { if (r) B(("a number of %d bytes is encoded in %d", nb, len)); for (int i = 0; i < len; i++) if (o[i] != 0x5C) B(("a refused encoding wrote")); }
        else { if (!r && !BN_is_zero(x)) B(("a number of %d bytes is not encoded in %d", nb, len)); BN_bn2binpad(x, w, len); if (len && memcmp(w, o, len)) { hexs("got", o, len); hexs("want", w, len); B(("encoding of a %d byte number in %d bytes", nb, len)); } }
        free(o); BN_free(x); free(a);
    }
    return nat_done();
}
