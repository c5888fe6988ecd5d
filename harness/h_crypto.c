/* Digests, HMACs, ciphers, checksums and hashes against OpenSSL, zlib,
 * glibc's crypt and plain implementations. */
#include <lib-common/core.h>
#include <lib-common/hash.h>
#include <lib-common/ssl.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/des.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <zlib.h>
#include <crypt.h>
#include "pt.h"

const char pt_rule[] =
    "digest, hmac: messages of any length around the block sizes, given whole "
    "or in pieces, at any alignment, from memory or a file; cipher: AES-ECB, "
    "CBC, CFB and DES, 3DES-ECB and CBC, 128 to 256-bit keys, in pieces, in "
    "place or not; checksum: CRC-32 and CRC-64 in pieces and any alignment; "
    "hash: jenkins, murmur3, hsieh in pieces; ssl: AES-256 by password or "
    "key, streams, RSA with short and long messages, signatures; crypt: "
    "SHA-256 password hashes; huge: messages of more than 4 GiB. "
    "non-trivial: at least one whole block of data";

static uint8_t msg[70000];
static size_t  mlen;
static uint8_t *m;      /* exact copy at the chosen alignment */
static uint8_t *mbase;

static void gen_msg(pt_t *t, size_t max)
{
    int al = pt_u(t, 8);

    switch (pt_u(t, 4)) {
      case 0: mlen = pt_u(t, 20); break;
      case 1: mlen = 64 * pt_u(t, 8) + pt_u(t, 20); break;
      case 2: mlen = 128 * (1 + pt_u(t, 6)) - pt_u(t, 20); break;
      case 3: mlen = pt_u(t, 1500); break;
      default: mlen = pt_u(t, 66000); break;
    }
    if (mlen > max) {
        mlen = max;
    }
    mbase = (malloc)(mlen + al + !(mlen + al));
    m = mbase + al;
    pt_fill(t, m, mlen);
    memcpy(msg, m, mlen);
    pt_note(t, "%zu bytes at offset %d", mlen, al);
    pt_note_hex(t, "message", m, mlen < 200 ? mlen : 200);
}
static void free_msg(void)
{
    (free)(mbase);
}
/* next piece of what is left */
static size_t piece(pt_t *t, size_t left)
{
    size_t n;

    switch (pt_u(t, 4)) {
      case 0: n = pt_u(t, 3); break;
      case 1: n = 64; break;
      case 2: n = 128; break;
      case 3: n = pt_u(t, 200); break;
      default: n = left; break;
    }
    return n < left ? n : left;
}
static void eq(pt_t *t, const void *a, const void *b, size_t n,
               const char *what)
{
    if (memcmp(a, b, n)) {
        pt_note_hex(t, "got", a, n);
        pt_note_hex(t, "expected", b, n);
        PT_FAIL(t, "%s differs", what);
    }
}
static void tohex(const uint8_t *b, int n, char *o)
{
    for (int i = 0; i < n; i++) {
        (sprintf)(o + 2 * i, "%02x", b[i]);
    }
}
static const char *wfile(pt_t *t)
{
    static char path[PATH_MAX];
    FILE *f;

    (snprintf)(path, sizeof(path), "%s/digest", pt_tmpdir());
    f = fopen(path, "wb");
    PT_CHECK(t, f && fwrite(m, 1, mlen, f) == mlen, "cannot write");
    fclose(f);
    return path;
}

/* {{{ digests */

static const char * const dname[] = {
    "MD5", "SHA-1", "SHA-256", "SHA-224", "SHA-512", "SHA-384",
};
static const EVP_MD *dmd(int k)
{
    switch (k) {
      case 0: return EVP_md5();
      case 1: return EVP_sha1();
      case 2: return EVP_sha256();
      case 3: return EVP_sha224();
      case 4: return EVP_sha512();
      default: return EVP_sha384();
    }
}

#define PIECES(...) \
    do {                                                                     \
        size_t off = 0;                                                      \
        int guard = 0;                                                       \
        while (off < mlen) {                                                 \
            size_t n = guard++ > 60 ? mlen - off : piece(t, mlen - off);     \
            const uint8_t *p = m + off;                                      \
            __VA_ARGS__;                                                     \
            off += n;                                                        \
        }                                                                    \
    } while (0)

static void run_digest(pt_t *t)
{
    int k = pt_u(t, 5);
    uint8_t ref[64], out[64];
    char hex[129], rhex[129] = "";
    unsigned rlen;
    uint64_t h64;
    bool strl = false;

    gen_msg(t, SIZE_MAX);
    pt_note(t, "%s", dname[k]);
    if (mlen >= 64) {
        pt_nontrivial(t);
    }
    EVP_Digest(m, mlen, ref, &rlen, dmd(k), NULL);
    tohex(ref, rlen, rhex);

#define DIGEST(one, starts, ctx_t, pfx, finish_hex, one_hex, file_) \
    do {                                                                     \
        ctx_t ctx;                                                           \
        one;                                                                 \
        eq(t, out, ref, rlen, "one-shot digest");                            \
        memset(&ctx, 0x5a, sizeof(ctx));                                     \
        starts;                                                              \
        PIECES(pfx##_update(&ctx, p, n));                                    \
        memset(out, 0, sizeof(out));                                         \
        pfx##_finish(&ctx, out);                                             \
        eq(t, out, ref, rlen, "digest in pieces");                           \
        starts;                                                              \
        PIECES(pfx##_update(&ctx, p, n));                                    \
        finish_hex;                                                          \
        one_hex;                                                             \
        if (pt_p(t, 1, 8)) {                                                 \
            const char *path = wfile(t);                                     \
            int r;                                                           \
            memset(out, 0, sizeof(out));                                     \
            r = file_;                                                       \
            PT_CHECK(t, r == 0, "digest of a file: %d", r);                  \
            eq(t, out, ref, rlen, "digest of a file");                       \
        }                                                                    \
    } while (0)
#define HEX(call)  do { memset(hex, 'x', sizeof(hex)); call; \
        eq(t, hex, rhex, 2 * rlen + 1, "hexadecimal digest"); } while (0)
    memset(out, 0, sizeof(out));
    IGNORE(strl);
    switch (k) {
      case 0:
        DIGEST(md5(m, mlen, out), md5_starts(&ctx), md5_ctx, md5,
               HEX(md5_finish_hex(&ctx, hex)), HEX(md5_hex(m, mlen, hex)),
               md5_file((char *)path, out));
        h64 = md5_hash_64(m, mlen);
        break;
      case 1:
        DIGEST(sha1(m, mlen, out), sha1_starts(&ctx), sha1_ctx, sha1,
               HEX(sha1_finish_hex(&ctx, hex)), HEX(sha1_hex(m, mlen, hex)),
               sha1_file((char *)path, out));
        h64 = sha1_hash_64(m, mlen);
        break;
      case 2: case 3:
        DIGEST(sha2(m, mlen, out, k == 3), sha2_starts(&ctx, k == 3),
               sha2_ctx, sha2,
               if (k == 2) HEX(sha2_finish_hex(&ctx, hex)),
               if (k == 2) HEX(sha2_hex(m, mlen, hex, 0)),
               sha2_file(path, out, k == 3));
        h64 = sha2_hash_64(m, mlen);
        break;
      default:
        DIGEST(sha4(m, mlen, out, k == 5), sha4_starts(&ctx, k == 5),
               sha4_ctx, sha4, , , sha4_file(path, out, k == 5));
        h64 = 0;
        break;
    }
    if (k <= 2) {
        uint8_t d[64];
        uint64_t again;

        /* a function of the bytes alone */
        memcpy(msg, m, mlen);
        again = k == 0 ? md5_hash_64(msg, mlen)
              : k == 1 ? sha1_hash_64(msg, mlen) : sha2_hash_64(msg, mlen);
        PT_CHECK(t, h64 == again, "64-bit hash");
        IGNORE(d);
    }
    free_msg();
}

static void run_hmac(pt_t *t)
{
    int k = pt_u(t, 5);
    uint8_t ref[64], out[64];
    unsigned rlen;
    uint8_t keybuf[300];
    int klen;
    uint8_t *key;

    gen_msg(t, 3000);
    klen = pt_bool(t) ? pt_u(t, 299) : (pt_bool(t) ? 64 : 128) + pt_u(t, 4) - 2;
    pt_fill(t, keybuf, klen);
    key = (malloc)(klen ?: 1);
    memcpy(key, keybuf, klen);
    pt_note(t, "HMAC-%s, key of %d bytes", dname[k], klen);
    if (mlen >= 64) {
        pt_nontrivial(t);
    }
    HMAC(dmd(k), key, klen, m, mlen, ref, &rlen);
    memset(out, 0, sizeof(out));
#define MAC(one, starts, ctx_t, pfx) \
    do {                                                                     \
        ctx_t ctx;                                                           \
        one;                                                                 \
        eq(t, out, ref, rlen, "one-shot HMAC");                              \
        memset(&ctx, 0x5a, sizeof(ctx));                                     \
        starts;                                                              \
        PIECES(pfx##_hmac_update(&ctx, p, n));                               \
        memset(out, 0, sizeof(out));                                         \
        pfx##_hmac_finish(&ctx, out);                                        \
        eq(t, out, ref, rlen, "HMAC in pieces");                             \
    } while (0)
    switch (k) {
      case 0: MAC(md5_hmac(key, klen, m, mlen, out),
                  md5_hmac_starts(&ctx, key, klen), md5_ctx, md5); break;
      case 1: MAC(sha1_hmac(key, klen, m, mlen, out),
                  sha1_hmac_starts(&ctx, key, klen), sha1_ctx, sha1); break;
      case 2: case 3:
        MAC(sha2_hmac(key, klen, m, mlen, out, k == 3),
            sha2_hmac_starts(&ctx, key, klen, k == 3), sha2_ctx, sha2); break;
      default:
        MAC(sha4_hmac(key, klen, m, mlen, out, k == 5),
            sha4_hmac_starts(&ctx, key, klen, k == 5), sha4_ctx, sha4); break;
    }
    (free)(key);
    free_msg();
}

/* }}} */
/* {{{ ciphers */

static void ref_cipher(pt_t *t, const EVP_CIPHER *c, const uint8_t *key,
                       const uint8_t *iv, bool enc, const uint8_t *in,
                       size_t n, uint8_t *out)
{
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    int l = 0, l2 = 0;

    PT_CHECK(t, EVP_CipherInit_ex(x, c, NULL, key, iv, enc), "reference");
    EVP_CIPHER_CTX_set_padding(x, 0);
    PT_CHECK(t, EVP_CipherUpdate(x, out, &l, in, n)
             && EVP_CipherFinal_ex(x, out + l, &l2) && l + l2 == (int)n,
             "reference");
    EVP_CIPHER_CTX_free(x);
}

static void run_cipher(pt_t *t)
{
    uint8_t key[32], iv[16], iv2[16];
    uint8_t *ref, *out;
    bool enc = pt_bool(t), inplace = pt_bool(t);
    int k = pt_u(t, 4);

    gen_msg(t, 2000);
    pt_fill(t, key, 32);
    pt_fill(t, iv, 16);
    memcpy(iv2, iv, 16);
    if (k != 2) {
        mlen -= mlen % (k < 2 ? 16 : 8);
    }
    ref = (malloc)(mlen + 32);
    out = (malloc)(mlen ?: 1);
    if (mlen >= 16) {
        pt_nontrivial(t);
    }
    if (k <= 2) {
        static const int bits[] = { 128, 192, 256 };
        int ks = pt_pick(t, bits);
        aes_ctx ctx;
        const EVP_CIPHER *c;

        pt_note(t, "AES-%d-%s, %s%s", ks, k == 0 ? "ECB" : k == 1 ? "CBC"
                : "CFB", enc ? "encryption" : "decryption",
                inplace ? " in place" : "");
        c = k == 0 ? (ks == 128 ? EVP_aes_128_ecb() : ks == 192
                      ? EVP_aes_192_ecb() : EVP_aes_256_ecb())
          : k == 1 ? (ks == 128 ? EVP_aes_128_cbc() : ks == 192
                      ? EVP_aes_192_cbc() : EVP_aes_256_cbc())
          : (ks == 128 ? EVP_aes_128_cfb128() : ks == 192
             ? EVP_aes_192_cfb128() : EVP_aes_256_cfb128());
        ref_cipher(t, c, key, iv, enc, m, mlen, ref);
        memset(&ctx, 0x5a, sizeof(ctx));
        if (enc || k == 2) {
            aes_setkey_enc(&ctx, key, ks);
        } else {
            aes_setkey_dec(&ctx, key, ks);
        }
        if (inplace) {
            memcpy(out, m, mlen);
        }
        if (k == 0) {
            for (size_t i = 0; i < mlen; i += 16) {
                aes_crypt_ecb(&ctx, enc, (inplace ? out : m) + i, out + i);
            }
        } else if (k == 1) {
            size_t off = 0;
            while (off < mlen) {
                size_t n = 16 * (1 + pt_u(t, 6));
                n = n < mlen - off ? n : mlen - off;
                aes_crypt_cbc(&ctx, enc, n, iv2, (inplace ? out : m) + off,
                              out + off);
                off += n;
            }
            if (mlen) {
                eq(t, iv2, (enc ? ref : msg) + mlen - 16, 16, "CBC vector");
            }
        } else {
            int ivoff = 0;
            PIECES(aes_crypt_cfb(&ctx, enc, n, &ivoff, iv2,
                                 inplace ? out + off : p, out + off));
            PT_CHECK(t, ivoff == (int)(mlen % 16), "CFB offset");
        }
    } else {
        bool cbc = pt_bool(t);
        int nk = 1 + pt_u(t, 2);
        uint8_t k3[24];
        size_t off = 0;
        des_ctx d;
        des3_ctx d3;

        pt_note(t, "DES, %d key(s), %s, %s%s", nk, cbc ? "CBC" : "ECB",
                enc ? "encryption" : "decryption",
                inplace ? " in place" : "");
        /* DES is 3DES with three times the same key */
        memcpy(k3, key, 24);
        if (nk == 1) {
            memcpy(k3 + 8, key, 8);
        }
        if (nk < 3) {
            memcpy(k3 + 16, key, 8);
        }
        ref_cipher(t, cbc ? EVP_des_ede3_cbc() : EVP_des_ede3_ecb(), k3, iv,
                   enc, m, mlen, ref);
        memset(&d, 0x5a, sizeof(d));
        memset(&d3, 0x5a, sizeof(d3));
        if (nk == 1) {
            (enc ? des_setkey_enc : des_setkey_dec)(&d, key);
        } else if (nk == 2) {
            (enc ? des3_set2key_enc : des3_set2key_dec)(&d3, key);
        } else {
            (enc ? des3_set3key_enc : des3_set3key_dec)(&d3, key);
        }
        if (inplace) {
            memcpy(out, m, mlen);
        }
        while (off < mlen) {
            const uint8_t *in = (inplace ? out : m) + off;
            size_t n = cbc ? 8 * (1 + pt_u(t, 6)) : 8;

            n = n < mlen - off ? n : mlen - off;
            if (nk == 1) {
                if (cbc) {
                    des_crypt_cbc(&d, enc, n, iv2, in, out + off);
                } else {
                    des_crypt_ecb(&d, in, out + off);
                }
            } else {
                if (cbc) {
                    des3_crypt_cbc(&d3, enc, n, iv2, in, out + off);
                } else {
                    des3_crypt_ecb(&d3, in, out + off);
                }
            }
            off += n;
        }
    }
    eq(t, out, ref, mlen, "cipher");
    (free)(out);
    (free)(ref);
    free_msg();
}

/* }}} */
/* {{{ checksums and hashes */

static uint64_t ref_crc64(uint64_t crc, const uint8_t *p, size_t n)
{
    crc = ~crc;
    while (n--) {
        crc ^= *p++;
        for (int i = 0; i < 8; i++) {
            crc = crc & 1 ? (crc >> 1) ^ 0xC96C5795D7870F42ull : crc >> 1;
        }
    }
    return ~crc;
}

static void run_checksum(pt_t *t)
{
    uint32_t r32, c32;
    uint64_t r64, c64;

    gen_msg(t, 3000);
    if (mlen >= 64) {
        pt_nontrivial(t);
    }
    c32 = r32 = pt_bool(t) ? 0 : pt_u(t, UINT32_MAX);
    c64 = r64 = pt_bool(t) ? 0 : pt_bits(t, 64);
    r32 = crc32(r32, m, mlen);
    r64 = ref_crc64(r64, m, mlen);
    PT_CHECK(t, icrc32(c32, m, mlen) == r32, "CRC-32");
    PT_CHECK(t, icrc64(c64, m, mlen) == r64, "CRC-64");
    PIECES(c32 = icrc32(c32, p, n); c64 = icrc64(c64, p, n));
    PT_CHECK(t, c32 == r32, "CRC-32 in pieces");
    PT_CHECK(t, c64 == r64, "CRC-64 in pieces");
    free_msg();
}

static uint32_t ref_jenkins(const uint8_t *p, size_t n, bool lower)
{
    uint32_t h = 0;

    for (size_t i = 0; i < n; i++) {
        uint8_t c = p[i];
        if (lower && c >= 'A' && c <= 'Z') {
            c += 32;
        }
        h += c;
        h += h << 10;
        h ^= h >> 6;
    }
    h += h << 3;
    h ^= h >> 11;
    h += h << 15;
    return h;
}
static uint32_t rol(uint32_t x, int r) { return x << r | x >> (32 - r); }
static uint64_t rol64(uint64_t x, int r) { return x << r | x >> (64 - r); }
static uint32_t fm32(uint32_t h)
{
    h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35;
    return h ^ h >> 16;
}
static uint64_t fm64(uint64_t k)
{
    k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33;
    k *= 0xc4ceb9fe1a85ec53ull;
    return k ^ k >> 33;
}
static uint64_t le(const uint8_t *p, size_t n)
{
    uint64_t v = 0;
    while (n--) {
        v = v << 8 | p[n];
    }
    return v;
}
static uint32_t ref_mm32(const uint8_t *p, size_t n, uint32_t seed)
{
    uint32_t h = seed;
    size_t i;

    for (i = 0; i + 4 <= n; i += 4) {
        h ^= rol((uint32_t)le(p + i, 4) * 0xcc9e2d51u, 15) * 0x1b873593u;
        h = rol(h, 13) * 5 + 0xe6546b64;
    }
    if (i < n) {
        h ^= rol((uint32_t)le(p + i, n - i) * 0xcc9e2d51u, 15) * 0x1b873593u;
    }
    return fm32(h ^ (uint32_t)n);
}
static void ref_mm128_64(const uint8_t *p, size_t n, uint32_t seed,
                         uint64_t o[2])
{
    uint64_t h1 = seed, h2 = seed;
    const uint64_t c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
    size_t i;

    for (i = 0; i + 16 <= n; i += 16) {
        h1 ^= rol64(le(p + i, 8) * c1, 31) * c2;
        h1 = (rol64(h1, 27) + h2) * 5 + 0x52dce729;
        h2 ^= rol64(le(p + i + 8, 8) * c2, 33) * c1;
        h2 = (rol64(h2, 31) + h1) * 5 + 0x38495ab5;
    }
    n -= i;
    if (n > 8) {
        h2 ^= rol64(le(p + i + 8, n - 8) * c2, 33) * c1;
    }
    if (n) {
        h1 ^= rol64(le(p + i, n < 8 ? n : 8) * c1, 31) * c2;
    }
    n += i;
    h1 ^= n; h2 ^= n;
    h1 += h2; h2 += h1;
    h1 = fm64(h1); h2 = fm64(h2);
    h1 += h2; h2 += h1;
    o[0] = h1;
    o[1] = h2;
}
static void ref_mm128_32(const uint8_t *p, size_t n, uint32_t seed,
                         uint32_t o[4])
{
    static const uint32_t c[4] = {
        0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93,
    };
    static const int r1[4] = { 15, 16, 17, 18 };
    static const int r2[4] = { 19, 17, 15, 13 };
    static const uint32_t add[4] = {
        0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17,
    };
    uint32_t h[4] = { seed, seed, seed, seed };
    size_t i, rem;

    for (i = 0; i + 16 <= n; i += 16) {
        for (int j = 0; j < 4; j++) {
            h[j] ^= rol((uint32_t)le(p + i + 4 * j, 4) * c[j], r1[j])
                  * c[(j + 1) % 4];
            h[j] = (rol(h[j], r2[j]) + h[(j + 1) % 4]) * 5 + add[j];
        }
    }
    rem = n - i;
    for (int j = 3; j >= 0; j--) {
        if (rem > (size_t)4 * j) {
            size_t k = rem - 4 * j;
            h[j] ^= rol((uint32_t)le(p + i + 4 * j, k < 4 ? k : 4) * c[j],
                        r1[j]) * c[(j + 1) % 4];
        }
    }
    for (int j = 0; j < 4; j++) {
        h[j] ^= (uint32_t)n;
    }
    for (int k = 0; k < 2; k++) {
        h[0] += h[1]; h[0] += h[2]; h[0] += h[3];
        h[1] += h[0]; h[2] += h[0]; h[3] += h[0];
        if (k == 0) {
            for (int j = 0; j < 4; j++) {
                h[j] = fm32(h[j]);
            }
        }
    }
    memcpy(o, h, 16);
}

static void run_hash(pt_t *t)
{
    uint32_t seed = pt_bits(t, 32), r;
    uint64_t o2[2];
    uint32_t o4[4];
    uint8_t out[16], b4[4];
    jenkins_ctx j;
    murmur_hash3_x86_32_ctx mm;
    murmur_hash3_x64_128_ctx_t m2;

    gen_msg(t, 600);
    if (mlen >= 4) {
        pt_nontrivial(t);
    }
    PT_CHECK(t, jenkins_hash(m, mlen) == ref_jenkins(m, mlen, false),
             "jenkins");
    PT_CHECK(t, jenkins_hash_ascii_lower(m, mlen)
             == ref_jenkins(m, mlen, true), "jenkins, lower case");
    memset(&j, 0x5a, sizeof(j));
    jenkins_starts(&j);
    PIECES(jenkins_update(&j, p, n));
    jenkins_finish(&j, b4);
    PT_CHECK(t, get_unaligned_cpu32(b4) == ref_jenkins(m, mlen, false),
             "jenkins in pieces");
    jenkins_starts(&j);
    PIECES(jenkins_update_ascii_lower(&j, p, n));
    jenkins_finish(&j, b4);
    PT_CHECK(t, get_unaligned_cpu32(b4) == ref_jenkins(m, mlen, true),
             "jenkins in pieces, lower case");

    r = ref_mm32(m, mlen, seed);
    PT_CHECK(t, murmur_hash3_x86_32(m, mlen, seed) == r, "murmur3 32");
    memset(&mm, 0x5a, sizeof(mm));
    murmur_hash3_x86_32_starts(&mm, seed);
    PIECES(murmur_hash3_x86_32_update(&mm, p, n));
    murmur_hash3_x86_32_finish(&mm, b4);
    PT_CHECK(t, get_unaligned_cpu32(b4) == r, "murmur3 32 in pieces");
    PT_CHECK(t, mem_hash32(m, mlen)
             == ref_mm32(m, mlen, MEM_HASH32_MURMUR_SEED), "mem_hash32");

    ref_mm128_64(m, mlen, seed, o2);
    memset(out, 0, 16);
    murmur_hash3_x64_128(m, mlen, seed, out);
    eq(t, out, o2, 16, "murmur3 128 (64 bits)");
    murmur_hash3_x64_128_starts(&m2, seed);
    PIECES(murmur_hash3_x64_128_update(&m2, p, n));
    memset(out, 0, 16);
    murmur_hash3_x64_128_finish(&m2, out);
    eq(t, out, o2, 16, "murmur3 128 (64 bits) in pieces");
    ref_mm128_32(m, mlen, seed, o4);
    memset(out, 0, 16);
    murmur_hash3_x86_128(m, mlen, seed, out);
    eq(t, out, o4, 16, "murmur3 128 (32 bits)");

    /* terminated strings */
    {
        char *s = (malloc)(mlen + 1);
        size_t sl;

        memcpy(s, m, mlen);
        s[mlen] = 0;
        sl = strlen(s);
        PT_CHECK(t, hsieh_hash(s, -1) == hsieh_hash(m, sl), "hsieh, string");
        PT_CHECK(t, jenkins_hash(s, -1) == ref_jenkins(m, sl, false),
                 "jenkins, string");
        PT_CHECK(t, mem_hash32(s, -1)
                 == ref_mm32(m, sl, MEM_HASH32_MURMUR_SEED),
                 "mem_hash32, string");
        PT_CHECK(t, hsieh_hash(m, mlen) == hsieh_hash(msg, mlen), "hsieh");
        (free)(s);
    }
    free_msg();
}

/* }}} */
/* {{{ SHA-crypt */

static void run_crypt(pt_t *t)
{
    char salt[40], setting[100], pass[200];
    int plen, slen;
    uint32_t rounds = pt_bool(t) ? 1000 + pt_u(t, 30) : 5000;
    SB_1k(sb);
    struct crypt_data *cd = (calloc)(1, sizeof(*cd));
    const char *ref;
    static const char b64[] =
        "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

    plen = pt_bool(t) ? pt_u(t, 70) : pt_u(t, 190);
    for (int i = 0; i < plen; i++) {
        pass[i] = pt_range(t, 1, 126);
    }
    pass[plen] = 0;
    slen = 1 + pt_u(t, 19);
    for (int i = 0; i < slen; i++) {
        salt[i] = b64[pt_u(t, 63)];
    }
    salt[slen] = 0;
    pt_note(t, "password \"%s\", salt %s, %u rounds", pass, salt, rounds);
    if (plen >= 16) {
        pt_nontrivial(t);
    }
    (snprintf)(setting, sizeof(setting), "$5$rounds=%u$%s", rounds, salt);
    ref = crypt_r(pass, setting, cd);
    if (!ref || ref[0] != '$') {
        pt_discard(t);
        (free)(cd);
        return;
    }
    sha2_crypt(pass, plen, salt, slen, rounds, &sb);
    pt_note(t, "%s\n%s", sb.data, ref);
    /* the hash itself */
    PT_CHECK(t, strrchr(sb.data, '$')
             && !strcmp(strrchr(sb.data, '$'), strrchr(ref, '$')),
             "SHA-crypt: %s instead of %s", sb.data, ref);
    sb_wipe(&sb);
    (free)(cd);
}

/* }}} */
/* {{{ ssl.h */

static char pem_priv[5000], pem_pub[2000];
static int  pem_priv_len, pem_pub_len;

static void run_ssl(pt_t *t)
{
    ssl_ctx_t ctx;
    uint8_t key[32], iv[16];
    int k = pt_u(t, 3), nmsgs = 1 + pt_u(t, 2);
    const EVP_CIPHER *c;
    bool has_iv = true;

    pt_fill(t, key, 32);
    pt_fill(t, iv, 16);
    switch (k) {
      case 0: {
        char pw[40];
        int n = pt_u(t, 39);
        uint64_t salt = pt_bits(t, 64);
        int rounds = 1 + pt_u(t, 20);

        pt_fill(t, pw, n);
        c = EVP_aes_256_cbc();
        PT_CHECK(t, ssl_ctx_init_aes256(&ctx, LSTR_INIT_V(pw, n), salt,
                                        rounds), "init");
        EVP_BytesToKey(c, EVP_sha256(), (const uint8_t *)&salt,
                       (const uint8_t *)pw, n, rounds, key, iv);
        if (pt_p(t, 1, 3)) {
            salt ^= 1;
            PT_CHECK(t, ssl_ctx_reset(&ctx, LSTR_INIT_V(pw, n), salt, rounds)
                     == 0, "reset");
            EVP_BytesToKey(c, EVP_sha256(), (const uint8_t *)&salt,
                           (const uint8_t *)pw, n, rounds, key, iv);
        }
      } break;
      case 1:
        c = EVP_aes_256_cbc();
        PT_CHECK(t, ssl_ctx_init_aes256_by_key(
                &ctx, LSTR_INIT_V((char *)key, 32),
                LSTR_INIT_V((char *)iv, 16)), "init");
        break;
      case 2:
        c = EVP_aes_128_ecb();
        has_iv = false;
        PT_CHECK(t, ssl_ctx_init_aes128_ecb_by_key(
                &ctx, LSTR_INIT_V((char *)key, 16)), "init");
        break;
      default:
        c = EVP_des_ede3_ecb();
        has_iv = false;
        PT_CHECK(t, ssl_ctx_init_3des_by_key(
                &ctx, LSTR_INIT_V((char *)key, 24)), "init");
        break;
    }
    for (int i = 0; i < nmsgs; i++) {
        SB_1k(enc);
        SB_1k(dec);
        uint8_t *ref;
        int l = 0, l2 = 0;
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        size_t off;

        gen_msg(t, 2000);
        if (mlen >= 16) {
            pt_nontrivial(t);
        }
        ref = (malloc)(mlen + 64);
        EVP_EncryptInit_ex(x, c, NULL, key, has_iv ? iv : NULL);
        EVP_EncryptUpdate(x, ref, &l, m, mlen);
        EVP_EncryptFinal_ex(x, ref + l, &l2);
        l += l2;
        EVP_CIPHER_CTX_free(x);
        sb_adds(&enc, "pre");
        if (pt_bool(t)) {
            PT_CHECK(t, ssl_encrypt(&ctx, LSTR_INIT_V((char *)m, mlen), &enc)
                     == 0, "encrypt");
        } else {
            if (!mlen) {
                PT_CHECK(t, !ssl_encrypt_update(&ctx, LSTR_EMPTY_V, &enc), "");
            }
            PIECES(PT_CHECK(t, !ssl_encrypt_update(
                        &ctx, LSTR_INIT_V((char *)p, n), &enc), "update"));
            if (pt_bool(t)) {
                PT_CHECK(t, !ssl_encrypt_finish(&ctx, &enc), "finish");
            }
            PT_CHECK(t, !ssl_encrypt_reset(&ctx, &enc), "reset");
        }
        PT_CHECK(t, enc.len == l + 3, "%d bytes for %d", enc.len - 3, l);
        eq(t, enc.data + 3, ref, l, "encrypted data");
        sb_adds(&dec, "pre");
        if (pt_bool(t)) {
            PT_CHECK(t, ssl_decrypt(&ctx, LSTR_INIT_V((char *)ref, l), &dec)
                     == 0, "decrypt");
        } else {
            off = 0;
            while (off < (size_t)l) {
                size_t n = 1 + pt_u(t, 60);
                n = n < l - off ? n : l - off;
                PT_CHECK(t, !ssl_decrypt_update(
                        &ctx, LSTR_INIT_V((char *)ref + off, n), &dec),
                         "update");
                off += n;
            }
            if (pt_bool(t)) {
                PT_CHECK(t, !ssl_decrypt_finish(&ctx, &dec), "finish");
            }
            PT_CHECK(t, !ssl_decrypt_reset(&ctx, &dec), "reset");
        }
        PT_CHECK(t, dec.len == (int)mlen + 3, "%d bytes for %zu",
                 dec.len - 3, mlen);
        eq(t, dec.data + 3, m, mlen, "decrypted data");
        (free)(ref);
        sb_wipe(&enc);
        sb_wipe(&dec);
        free_msg();
    }
    ssl_ctx_wipe(&ctx);
}

static void run_rsa(pt_t *t)
{
    lstr_t priv = LSTR_INIT_V(pem_priv, pem_priv_len);
    lstr_t pub = LSTR_INIT_V(pem_pub, pem_pub_len);

    gen_msg(t, 2000);
    if (mlen >= 64) {
        pt_nontrivial(t);
    }
    if (pt_bool(t)) {
        t_scope;
        ssl_ctx_t e, d;
        SB_1k(enc);
        SB_1k(dec);
        lstr_t s;

        PT_CHECK(t, pt_bool(t) ? ssl_ctx_init_pkey_pub(&e, pub)
                 : ssl_ctx_init_pkey(&e, priv, pub, LSTR_EMPTY_V), "init");
        PT_CHECK(t, ssl_ctx_init_pkey_priv(&d, priv, LSTR_EMPTY_V), "init");
        PT_CHECK(t, !ssl_encrypt(&e, LSTR_INIT_V((char *)m, mlen), &enc),
                 "encrypt %zu bytes: %s", mlen, ssl_get_error());
        PT_CHECK(t, !ssl_decrypt(&d, LSTR_SB_V(&enc), &dec),
                 "decrypt %zu bytes: %s", mlen, ssl_get_error());
        PT_CHECK(t, dec.len == (int)mlen, "%d bytes for %zu", dec.len, mlen);
        eq(t, dec.data, m, mlen, "decrypted data");
        s = t_ssl_encrypt_pkey_lstr(&e, LSTR_INIT_V((char *)m, mlen));
        PT_CHECK(t, s.s, "encrypt");
        s = t_ssl_decrypt_pkey_lstr(&d, s);
        PT_CHECK(t, s.s && s.len == (int)mlen, "decrypt");
        eq(t, s.s, m, mlen, "decrypted data");
        /* cut, it is refused or at least not taken for the same message */
        if (enc.len) {
            int cut = pt_u(t, enc.len - 1);
            sb_reset(&dec);
            if (ssl_decrypt(&d, LSTR_INIT_V(enc.data, cut), &dec) >= 0) {
                PT_CHECK(t, dec.len != (int)mlen || memcmp(dec.data, m, mlen),
                         "a cut message is accepted");
            }
        }
        ssl_ctx_wipe(&e);
        ssl_ctx_wipe(&d);
        sb_wipe(&enc);
        sb_wipe(&dec);
    } else {
        rsa_sign_t *s = rsa_sign_new(priv, RSA_HASH_SHA256, NULL);
        rsa_verif_t *v;
        bool hex = pt_bool(t), bad = pt_bool(t);
        SB_1k(sig);

        PT_CHECK(t, s, "sign");
        PIECES(rsa_sign_update(s, p, n));
        PT_CHECK(t, !(hex ? rsa_sign_finish_hex(&s, &sig)
                      : rsa_sign_finish(&s, &sig)), "sign");
        PT_CHECK(t, sig.len == (hex ? 256 : 128), "%d bytes", sig.len);
        v = hex ? rsa_verif_hex_new(pub, RSA_HASH_SHA256, LSTR_SB_V(&sig),
                                    NULL)
                : rsa_verif_new(pub, RSA_HASH_SHA256, LSTR_SB_V(&sig), NULL);
        PT_CHECK(t, v, "verif");
        if (bad && mlen) {
            m[pt_u(t, mlen - 1)] ^= 1 << pt_u(t, 7);
        }
        PIECES(rsa_verif_update(v, p, n));
        PT_CHECK(t, (rsa_verif_finish(&v) >= 0) == !(bad && mlen),
                 "signature %s", bad ? "of another message accepted"
                 : "refused");
        sb_wipe(&sig);
    }
    free_msg();
}

/* }}} */

void pt_setup(void)
{
    BIO *b = BIO_new(BIO_s_mem());
    EVP_PKEY *k;

    k = EVP_RSA_gen(1024);
    PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL);
    pem_priv_len = BIO_read(b, pem_priv, sizeof(pem_priv));
    PEM_write_bio_PUBKEY(b, k);
    pem_pub_len = BIO_read(b, pem_pub, sizeof(pem_pub));
    BIO_free(b);
    EVP_PKEY_free(k);
    MODULE_REQUIRE(ssl);
}

/* {{{ more than 4 GiB */

static uint8_t *big;
static const size_t bl = 64 << 20;
static uint64_t total;

static void *huge_one(void *arg)
{
    int k = (intptr_t)arg;
    uint64_t left = total;
    uint8_t ref[64], out[64];
    unsigned rlen = 0;
    EVP_MD_CTX *x;
    md5_ctx c0;
    sha1_ctx c1;
    sha2_ctx c2;

    if (k == 3) {
        uint32_t a = 0, b = 0;
        while (left) {
            size_t n = left < bl ? left : bl;
            a = icrc32(a, big, n);
            b = crc32(b, big, n);
            left -= n;
        }
        return a == b ? NULL : (void *)"CRC-32";
    }
    x = EVP_MD_CTX_new();
    EVP_DigestInit_ex(x, dmd(k), NULL);
    md5_starts(&c0);
    sha1_starts(&c1);
    sha2_starts(&c2, 0);
    while (left) {
        size_t n = left < bl ? left : bl;

        EVP_DigestUpdate(x, big, n);
        if (k == 0) {
            md5_update(&c0, big, n);
        } else if (k == 1) {
            sha1_update(&c1, big, n);
        } else {
            sha2_update(&c2, big, n);
        }
        left -= n;
    }
    EVP_DigestFinal_ex(x, ref, &rlen);
    EVP_MD_CTX_free(x);
    if (k == 0) {
        md5_finish(&c0, out);
    } else if (k == 1) {
        sha1_finish(&c1, out);
    } else {
        sha2_finish(&c2, out);
    }
    return memcmp(out, ref, rlen) ? (void *)dname[k] : NULL;
}

static void run_huge(pt_t *t)
{
    pthread_t th[4];
    void *res;

    total = (1ull << 32) + pt_u(t, 1000) - 100;
    pt_note(t, "messages of %ju bytes", (uintmax_t)total);
    pt_nontrivial(t);
    if (!big) {
        uint64_t s = 5;

        big = (malloc)(bl);
        for (size_t i = 0; i < bl; i += 8) {
            uint64_t v = pt_splitmix(&s);
            memcpy(big + i, &v, 8);
        }
    }
    for (intptr_t i = 0; i < 4; i++) {
        (pthread_create)(&th[i], NULL, &huge_one, (void *)i);
    }
    for (int i = 0; i < 4; i++) {
        pthread_join(th[i], &res);
        PT_CHECK(t, !res, "%s of a huge message", (const char *)res);
    }
}

/* }}} */

#ifdef VERIF_HUGE
const pt_target_t pt_targets[] = {
    { "huge", run_huge, 1, 8, 0, 0, NULL, 250, 1 },
};
const int pt_targets_len = 1;
#else
const pt_target_t pt_targets[] = {
    { "digest", run_digest, 60000, 2000000, 0 },
    { "hmac", run_hmac, 60000, 2000000, 0 },
    { "cipher", run_cipher, 60000, 2000000, 0 },
    { "checksum", run_checksum, 60000, 2000000, 0 },
    { "hash", run_hash, 60000, 2000000, 0 },
    { "crypt", run_crypt, 600, 20000, 0 },
    { "ssl", run_ssl, 20000, 500000, 0 },
    { "rsa", run_rsa, 4000, 100000, 0 },
};
const int pt_targets_len = 8;
#endif
