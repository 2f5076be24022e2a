/* uses the public prototypes the way a caller does; compiled, never run */
#include "crypto_aead.h"
typedef unsigned char B; typedef unsigned long long L;
int use_enc(B *c, L *l, const B *p, L n) { return crypto_aead_encrypt(c, l, p, n, p, n, p, p, p); }
int use_dec(B *m, L *l, const B *p, L n) { return crypto_aead_decrypt(m, l, m, p, n, p, n, p, p); }
#ifdef CRYPTO_HASH
#include "crypto_hash.h"
int use_hash(B *o, const B *p, L n) { return crypto_hash(o, p, n); }
#endif
