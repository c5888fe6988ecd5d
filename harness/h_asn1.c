/* ASN.1: BER and aligned PER, over generated type descriptions. */
#include <lib-common/core.h>
#include <lib-common/asn1.h>
#include <lib-common/asn1-per.h>
#include <lib-common/asn1/per-priv.h>
#include "pt.h"

const char pt_rule[] =
    "random type descriptions (scalars of each C type with root and extension "
    "constraints, enumerations, strings, bit strings, sequences with optional "
    "and extension fields, choices, sequences of, open types, untagged "
    "choices), random values of them. per/ber: encoding compared with an "
    "independent encoder, decoded back, decoded by an older or newer version "
    "of the type, values breaking a constraint; per_bad/ber_bad: cut and "
    "corrupted encodings: refused, or decoded to a value that satisfies the "
    "constraints and survives another round trip. non-trivial: at least 4 "
    "fields; bad: at least 3 bytes of input";

typedef __int128 i128;

enum kind {
    K_BOOL, K_INT, K_ENUM, K_NULL, K_STR, K_BITS, K_SEQ, K_CHOICE, K_SEQOF,
    /* BER only */
    K_UCHOICE, K_OPEN, K_EXT, K_SKIP,
};

typedef struct ty {
    enum kind kind;
    enum obj_type type;
    int bits;
    bool is_signed;

    bool has_min, has_max, extended, has_emin, has_emax;
    i128 min, max, emin, emax;           /* also sizes */

    asn1_enum_info_t *en;
    bool optional, pointed, is_open, is_ext;
    int tag;

    struct ty *sub[40];
    int nsub;
    int ext_pos;                          /* index in sub; -1: none */
    asn1_desc_t *desc;
    size_t size;                          /* struct size */
    size_t off;
    int weight;
} ty_t;

typedef struct val {
    bool present;
    uint64_t u;
    uint8_t *s;
    size_t len;                           /* bits for K_BITS */
    int idx;
    struct val *sub;
    size_t nsub;
} val_t;

static bool ber_g;
static int budget;
static int nfields;
static qv_t(asn1_desc) descs_g;
static qv_t(asn1_choice_desc) cdescs_g;
static qv_t(asn1_enum_info) enums_g;

static void wipe_g(void)
{
    qv_deep_clear(&descs_g, asn1_desc_delete);
    qv_deep_clear(&cdescs_g, asn1_choice_desc_delete);
    qv_deep_clear(&enums_g, asn1_enum_info_delete);
}

/* {{{ types */

static i128 tmin(const ty_t *y)
{
    return y->is_signed ? -((i128)1 << (y->bits - 1)) : 0;
}
static i128 tmax(const ty_t *y)
{
    return ((i128)1 << (y->bits - y->is_signed)) - 1;
}

static i128 clamp(i128 v, i128 lo, i128 hi)
{
    return v < lo ? lo : v > hi ? hi : v;
}

static i128 gen_int(pt_t *t, const ty_t *y)
{
    uint64_t u = pt_bits(t, y->bits);

    if (y->is_signed) {
        int64_t i = (int64_t)(u << (64 - y->bits)) >> (64 - y->bits);

        return i;
    }
    return u;
}

static void gen_bounds(pt_t *t, ty_t *y)
{
    static const uint64_t spans[] = {
        0, 1, 2, 3, 6, 7, 8, 126, 127, 128, 254, 255, 256, 511, 65534, 65535,
        65536, 65537, 0xffffff, 0x1000000, 0xffffffff, 0x100000000,
        0xffffffffff, 0x7fffffffffffffff, 0xffffffffffffffff,
    };
    int form = pt_u(t, 5);

    if (form == 0) {
        return;
    }
    if (form != 1) {
        y->has_min = true;
        y->min = gen_int(t, y);
    }
    if (form == 1) {
        y->has_max = true;
        y->max = gen_int(t, y);
    } else
    if (form != 2) {
        y->has_max = true;
        y->max = clamp(y->min + pt_pick(t, spans), y->min, tmax(y));
    }
    if (pt_p(t, 1, 3)) {
        y->extended = true;
        if (pt_p(t, 1, 3)) {
            y->has_emin = true;
            y->emin = gen_int(t, y);
        }
        if (pt_p(t, 1, 3)) {
            y->has_emax = true;
            y->emax = gen_int(t, y);
            if (y->has_emin && y->emax < y->emin) {
                y->emax = y->emin;
            }
        }
    }
}

/* size constraints */
static void gen_sizes(pt_t *t, ty_t *y, bool big)
{
    static const uint64_t lim[] = {
        0, 0, 1, 1, 2, 3, 4, 15, 16, 17, 127, 128, 255, 256, 257,
    };
    static const uint64_t biglim[] = {
        16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000,
    };
    int form = pt_u(t, 3);

    y->min = 0;
    y->max = SIZE_MAX;
    y->emin = 0;
    y->emax = SIZE_MAX;
    if (form == 0) {
        return;
    }
    if (form >= 1) {
        y->min = big && pt_bool(t) ? pt_pick(t, biglim)
               : pt_p(t, 1, 3) ? pt_pick(t, lim) : pt_u(t, 3);
    }
    if (form >= 2) {
        y->max = form == 3 && pt_bool(t) ? y->min
               : y->min + (big ? pt_pick(t, biglim) : pt_pick(t, lim));
        if (y->max != y->min && pt_p(t, 1, 20)) {
            y->max += (uint64_t)1 << 32;
        }
    }
    if (pt_p(t, 1, 3)) {
        y->extended = true;
        if (pt_p(t, 1, 3)) {
            y->emin = pt_u(t, 4);
            y->emax = pt_bool(t) ? SIZE_MAX
                    : y->emin + pt_pick(t, lim) + (big ? 66000 : 0);
        }
    }
}

static void cnt_info(const ty_t *y, asn1_cnt_info_t *info)
{
    info->min = y->min;
    info->max = y->max;
    info->extended = y->extended;
    info->ext_min = y->emin;
    info->ext_max = y->emax;
}

static size_t slot_size(const ty_t *y)
{
    switch (y->kind) {
      case K_BOOL: case K_NULL: return 2;
      case K_INT:   return y->optional ? (y->bits / 8) * 2 : y->bits / 8;
      case K_ENUM:  return y->optional ? 8 : 4;
      case K_STR: case K_OPEN: return sizeof(lstr_t);
      case K_BITS:  return sizeof(lstr_t);
      case K_EXT:   return sizeof(asn1_ext_t);
      case K_SEQ: case K_CHOICE: case K_SEQOF: case K_UCHOICE:
        return y->size;
      case K_SKIP:  return 0;
    }
    return 0;
}

static int tag_g;

static int gen_tag(void)
{
    for (;;) {
        int tag = tag_g++ & 0xff;

        if (tag && (tag & 0x1f) != 0x1f) {
            return tag;
        }
    }
}

/* registers y in desc, with off, tag and mode */
static void reg(asn1_desc_t *desc, const ty_t *y, enum obj_mode mode)
{
    asn1_field_t f;
    asn1_field_t *p;

    p_clear(&f, 1);
    f.name = "field";
    f.oc_t_name = "type";
    f.tag = y->kind == K_UCHOICE || y->kind == K_OPEN ? 0 : y->tag;
    f.tag_len = 1;
    f.mode = mode;
    f.pointed = y->pointed;
    f.offset = y->off;
    f.type = y->type;
    switch (y->kind) {
      case K_BOOL: f.size = 1; break;
      case K_INT: f.size = y->bits / 8; break;
      case K_ENUM: f.size = 4; break;
      case K_BITS: f.size = sizeof(asn1_bit_string_t); break;
      case K_NULL: f.size = 1; break;
      default: f.size = slot_size(y); break;
    }
    if (y->desc) {
        f.u.comp = y->desc;
    }
    asn1_reg_field(desc, &f);
    p = &desc->fields.tab[desc->fields.len - 1];

    switch (y->kind) {
      case K_INT:
        if (y->has_min) {
            asn1_int_info_set_min(&p->int_info, (int64_t)y->min);
        }
        if (y->has_max) {
            asn1_int_info_set_max(&p->int_info, (int64_t)y->max);
        }
        asn1_int_info_update(&p->int_info, y->is_signed);
        p->int_info.extended = y->extended;
        if (y->has_emin) {
            p->int_info.has_ext_min = true;
            p->int_info.ext_min.i = (int64_t)y->emin;
        }
        if (y->has_emax) {
            p->int_info.has_ext_max = true;
            p->int_info.ext_max.i = (int64_t)y->emax;
        }
        break;
      case K_ENUM:
        p->enum_info = y->en;
        break;
      case K_STR: case K_BITS:
        cnt_info(y, &p->str_info);
        break;
      case K_SEQOF:
        cnt_info(y, &p->seq_of_info);
        break;
      default:
        break;
    }
    if (y->is_open) {
        p->is_open_type = true;
        p->open_type_buf_len = 16;
    }
}

enum { IN_SEQ, IN_CHOICE, IN_SEQOF, IN_ROOT };

static ty_t *gen_ty(pt_t *t, int depth, int in, int forced);

static asn1_desc_t *build_seq(const ty_t *y, int nsub)
{
    asn1_desc_t *d = asn1_desc_new();

    qv_append(&descs_g, d);
    d->type = ASN1_CSTD_TYPE_SEQUENCE;
    d->size = y->size;
    for (int i = 0; i <= nsub; i++) {
        if (i == y->ext_pos) {
            d->is_extended = true;
            d->ext_pos = d->fields.len;
        }
        if (i < nsub) {
            reg(d, y->sub[i], y->sub[i]->optional ? ASN1_OBJ_MODE(OPTIONAL)
                                                  : ASN1_OBJ_MODE(MANDATORY));
        }
    }
    return d;
}

static asn1_desc_t *build_choice(const ty_t *y, int nsub)
{
    asn1_choice_desc_t *c = asn1_choice_desc_new();
    asn1_desc_t *d = &c->desc;
    asn1_field_t f;

    qv_append(&cdescs_g, c);
    d->type = ASN1_CSTD_TYPE_CHOICE;
    d->size = y->size;
    p_clear(&f, 1);
    f.name = "type";
    f.oc_t_name = "enum";
    f.type = ASN1_OBJ_TYPE(enum);
    f.mode = ASN1_OBJ_MODE(MANDATORY);
    f.tag = ASN1_TAG_INVALID;
    f.tag_len = 1;
    f.size = 4;
    asn1_reg_field(d, &f);
    for (int i = 0; i <= nsub; i++) {
        if (i == y->ext_pos) {
            d->is_extended = true;
            d->ext_pos = d->fields.len;
        }
        if (i < nsub) {
            reg(d, y->sub[i], ASN1_OBJ_MODE(MANDATORY));
        }
    }
    asn1_int_info_set_min(&d->choice_info, 0);
    asn1_int_info_set_max(&d->choice_info,
                          (d->is_extended ? d->ext_pos : d->fields.len) - 2);
    asn1_int_info_update(&d->choice_info, false);
    asn1_build_choice_table(c);
    return d;
}

static ty_t *gen_ty(pt_t *t, int depth, int in, int forced)
{
    ty_t *y = t_new(ty_t, 1);
    int k;

    y->ext_pos = -1;
    y->weight = 1;
    nfields++;
    budget--;
    if (forced >= 0) {
        k = forced;
    } else
    if (depth >= 4 || budget <= 0) {
        k = pt_u(t, K_BITS);
    } else {
        k = pt_u(t, ber_g ? K_SKIP : K_SEQOF);
    }
    if ((in != IN_SEQ && (k == K_SKIP || k == K_OPEN)) || k == K_OPEN) {
        k = K_STR;
    }
    if (k == K_EXT && in == IN_CHOICE) {
        k = K_SEQ;
    }
    if (k == K_UCHOICE && in == IN_SEQOF && pt_bool(t)) {
        k = K_CHOICE;
    }
    y->kind = k;
    if (in == IN_SEQ) {
        y->optional = pt_p(t, 2, 5);
    }

    switch (y->kind) {
      case K_BOOL:
        y->type = ASN1_OBJ_TYPE(bool);
        break;

      case K_INT: {
        static const struct {
            enum obj_type type; int bits; bool s;
        } ints[] = {
            { ASN1_OBJ_TYPE(int8_t), 8, true },
            { ASN1_OBJ_TYPE(uint8_t), 8, false },
            { ASN1_OBJ_TYPE(int16_t), 16, true },
            { ASN1_OBJ_TYPE(uint16_t), 16, false },
            { ASN1_OBJ_TYPE(int32_t), 32, true },
            { ASN1_OBJ_TYPE(uint32_t), 32, false },
            { ASN1_OBJ_TYPE(int64_t), 64, true },
            { ASN1_OBJ_TYPE(uint64_t), 64, false },
        };
        int i = pt_u(t, countof(ints) - 1);

        y->type = ints[i].type;
        y->bits = ints[i].bits;
        y->is_signed = ints[i].s;
        if (!ber_g) {
            gen_bounds(t, y);
        }
      } break;

      case K_ENUM: {
        int32_t v = (int32_t)pt_sbits(t, 32);
        int n = pt_p(t, 1, 8) ? 200 + (int)pt_u(t, 80) : 1 + (int)pt_u(t, 8);

        y->type = ASN1_OBJ_TYPE(enum);
        y->en = asn1_enum_info_new();
        qv_append(&enums_g, y->en);
        for (int i = 0; i < n && v < INT32_MAX - 1000; i++) {
            asn1_enum_append(y->en, v);
            v += 1 + pt_u(t, 3);
        }
        if (!y->en->values.len) {
            asn1_enum_append(y->en, 7);
        }
        if (pt_p(t, 1, 3)) {
            y->en->extended = true;
            y->extended = true;
            n = pt_p(t, 1, 4) ? 60 + (int)pt_u(t, 10) : (int)pt_u(t, 4);
            v = 1 + *tab_last(&y->en->values);
            if (v < INT32_MAX - 2000) {
                for (int i = 0; i < n; i++) {
                    asn1_enum_append(y->en, v);
                    v += 1 + pt_u(t, 3);
                }
            }
        }
        asn1_enum_info_done(y->en);
      } break;

      case K_NULL:
        y->type = y->optional ? ASN1_OBJ_TYPE(OPT_NULL) : ASN1_OBJ_TYPE(NULL);
        break;

      case K_STR:
      case K_BITS:
        y->type = y->kind == K_STR ? ASN1_OBJ_TYPE(lstr_t)
                                   : ASN1_OBJ_TYPE(asn1_bit_string_t);
        y->min = 0;
        y->max = SIZE_MAX;
        if (!ber_g) {
            gen_sizes(t, y, pt_p(t, 1, 30));
        }
        break;

      case K_SEQ: {
        size_t off = 0;
        int tag0 = tag_g;
        int n = pt_p(t, 1, 20) ? 12 + (int)pt_u(t, 20) : (int)pt_u(t, 5);
        int ext = !ber_g && pt_p(t, 1, 3) ? (int)pt_u(t, n) : -1;

        y->type = ASN1_OBJ_TYPE(SEQUENCE);
        tag_g = 1 + pt_u(t, 50);
        for (int i = 0; i < n; i++) {
            ty_t *s = gen_ty(t, depth + 1, IN_SEQ, -1);

            if (ext >= 0 && i >= ext) {
                s->is_ext = true;
                if (!s->optional) {
                    s->optional = true;
                    if (s->kind == K_NULL) {
                        s->type = ASN1_OBJ_TYPE(OPT_NULL);
                    }
                }
            }
            if (s->kind == K_SKIP) {
                s->optional = true;
            }
            if (s->desc && s->optional && s->kind != K_EXT) {
                s->pointed = true;
            } else
            if (!s->optional && s->desc && s->kind != K_EXT) {
                s->pointed = pt_p(t, 1, 4);
            }
            if (!ber_g && !s->is_ext && pt_p(t, 1, 8)) {
                s->is_open = true;
            }
            s->off = off;
            off += ROUND_UP(s->pointed ? 8 : slot_size(s), 8);
            y->sub[y->nsub++] = s;
        }
        if (ber_g && pt_p(t, 1, 12)) {
            ty_t *s = t_new(ty_t, 1);

            s->kind = K_OPEN;
            s->type = ASN1_OBJ_TYPE(OPEN_TYPE);
            s->ext_pos = -1;
            s->weight = 1;
            s->off = off;
            s->optional = pt_bool(t);
            off += sizeof(lstr_t);
            y->sub[y->nsub++] = s;
        }
        y->ext_pos = ext;
        y->size = MAX(off, 8u);
        y->desc = build_seq(y, y->nsub);
        tag_g = tag0;
      } break;

      case K_CHOICE:
      case K_UCHOICE: {
        size_t msz = 0;
        int tag0 = tag_g;
        int n = pt_p(t, 1, 10) ? 8 + (int)pt_u(t, 20) : 1 + (int)pt_u(t, 5);
        int ext = !ber_g && pt_p(t, 1, 3) ? 1 + (int)pt_u(t, n - 1) : -1;

        y->type = y->kind == K_CHOICE ? ASN1_OBJ_TYPE(CHOICE)
                                      : ASN1_OBJ_TYPE(UNTAGGED_CHOICE);
        if (y->kind == K_CHOICE) {
            tag_g = 1 + pt_u(t, 50);
        }
        if (tag_g > 150) {
            n = 1;
        }
        for (int i = 0; i < n; i++) {
            ty_t *s = gen_ty(t, depth + 1, IN_CHOICE, -1);
            size_t sz;

            s->is_ext = ext >= 0 && i >= ext;
            if (s->desc) {
                s->pointed = pt_p(t, 1, 3);
            }
            if (!ber_g && !s->is_ext && pt_p(t, 1, 8)) {
                s->is_open = true;
            }
            s->off = 8;
            sz = s->pointed ? 8 : slot_size(s);
            msz = MAX(sz, msz);
            y->sub[y->nsub++] = s;
        }
        y->ext_pos = ext;
        y->size = 8 + ROUND_UP(msz, 8);
        y->desc = build_choice(y, y->nsub);
        if (y->kind == K_CHOICE) {
            tag_g = tag0;
        }
      } break;

      case K_SEQOF: {
        ty_t *s;
        asn1_desc_t *d;
        int tag0 = tag_g;

        y->type = ASN1_OBJ_TYPE(SEQUENCE);
        tag_g = 1 + pt_u(t, 50);
        s = gen_ty(t, depth + 1, IN_SEQOF, -1);
        if (s->desc && s->kind != K_EXT) {
            s->pointed = pt_p(t, 1, 3);
        }
        s->off = 0;
        y->sub[y->nsub++] = s;
        y->size = 16;
        y->weight = s->weight;
        if (ber_g) {
            y->max = SIZE_MAX;
        } else {
            gen_sizes(t, y, s->weight < 3 && !s->desc && s->kind != K_STR
                      && s->kind != K_BITS && pt_p(t, 1, 40));
        }
        y->desc = d = asn1_desc_new();
        qv_append(&descs_g, d);
        d->type = ASN1_CSTD_TYPE_SEQUENCE;
        d->size = y->size;
        d->is_seq_of = true;
        reg(d, s, ASN1_OBJ_MODE(SEQ_OF));
        tag_g = tag0;
      } break;

      case K_EXT:
        y->type = ASN1_OBJ_TYPE(asn1_ext_t);
        y->sub[0] = gen_ty(t, depth + 1, IN_ROOT, K_SEQ);
        y->nsub = 1;
        break;

      case K_SKIP:
        y->type = ASN1_OBJ_TYPE(SKIP);
        break;

      case K_OPEN:
        break;
    }
    for (int i = 0; i < y->nsub; i++) {
        y->weight += y->sub[i]->weight;
    }
    if (y->kind != K_UCHOICE) {
        y->tag = gen_tag();
    }
    return y;
}

/* }}} */
/* {{{ values */

static bool violated;
static int  violate_at;   /* leaf number that breaks its constraint */
static bool unknown_enum;

static bool want_violation(void)
{
    return violate_at >= 0 && violate_at-- == 0;
}

static bool int_root_ok(const ty_t *y, i128 v)
{
    return (!y->has_min || v >= y->min) && (!y->has_max || v <= y->max);
}
static bool int_ok(const ty_t *y, i128 v)
{
    return int_root_ok(y, v)
        || (y->extended && (!y->has_emin || v >= y->emin)
            && (!y->has_emax || v <= y->emax));
}

static bool size_ok(const ty_t *y, size_t n)
{
    return (n >= (size_t)y->min && n <= (size_t)y->max)
        || (y->extended && n >= (size_t)y->emin && n <= (size_t)y->emax);
}

static size_t gen_len(pt_t *t, const ty_t *y)
{
    static const uint32_t bigs[] = {
        16383, 16384, 16385, 32767, 32768, 49152, 65535, 65536, 65537,
        81920, 98304, 131072, 131073, 16384 * 9, 150000,
    };
    bool viol = want_violation();
    bool big = y->kind != K_SEQOF ? pt_p(t, 1, 60)
             : y->weight <= 2 && pt_p(t, 1, 100);

    for (int i = 0; i < 40; i++) {
        size_t n;

        switch (pt_u(t, 4)) {
          case 0: case 1: n = pt_u(t, 5); break;
          case 2: n = (size_t)y->min + pt_u(t, 3) - 1; break;
          case 3: n = y->max == SIZE_MAX ? pt_u(t, 300)
                    : (size_t)y->max + pt_u(t, 3) - 1; break;
          default:
            n = (big ? pt_pick(t, bigs) : pt_u(t, 300));
            break;
        }
        if (n > 200000 || (y->kind == K_SEQOF && y->weight > 2 && n > 400)) {
            continue;
        }
        if (size_ok(y, n) != viol) {
            if (viol) {
                violated = true;
            }
            return n;
        }
    }
    return y->min;
}

static void ber_len(sb_t *out, size_t len, int form)
{
    if (len < 128 && !form) {
        sb_addc(out, len);
    } else {
        int n = len < 0x100 ? 1 : len < 0x10000 ? 2 : len < 0x1000000 ? 3 : 4;

        n = MAX(n, form);
        sb_addc(out, 0x80 | n);
        while (n--) {
            sb_addc(out, len >> (8 * n));
        }
    }
}

static void gen_tlv(pt_t *t, sb_t *out, int depth)
{
    static const int tags[] = { 0x02, 0x04, 0x30, 0xa1, 0xdf, 0x1f, 0xbf };
    /* at depth -1, only tags that gen_tag() does not use */
    int tag = depth < 0 ? tags[4 + pt_u(t, 2)] : pt_pick(t, tags);
    bool indef = (tag & 0x20) && depth < 3 && pt_bool(t);

    sb_addc(out, tag);
    if ((tag & 0x1f) == 0x1f) {
        int n = pt_u(t, 2);

        while (n--) {
            sb_addc(out, 0x80 | pt_u(t, 127));
        }
        sb_addc(out, pt_u(t, 127));
    }
    {
        SB_1k(sub);

        if (tag & 0x20) {
            while (depth < 3 && pt_more(t, 2)) {
                gen_tlv(t, &sub, depth + 1);
            }
        } else {
            int n = pt_p(t, 1, 10) ? (int)pt_u(t, 300) : (int)pt_u(t, 6);

            pt_fill(t, sb_growlen(&sub, n), n);
        }
        if (indef) {
            sb_addc(out, 0x80);
        } else {
            ber_len(out, sub.len, pt_p(t, 1, 5) ? (int)pt_u(t, 4) : 0);
        }
        sb_add(out, sub.data, sub.len);
        if (indef) {
            sb_addc(out, 0);
            sb_addc(out, 0);
        }
    }
}

static void gen_val(pt_t *t, const ty_t *y, val_t *v)
{
    p_clear(v, 1);
    v->present = !y->optional || pt_bool(t);
    if (!v->present) {
        return;
    }
    switch (y->kind) {
      case K_BOOL:
        v->u = pt_bool(t);
        break;

      case K_INT: {
        bool viol = want_violation();
        i128 r = 0;

        for (int i = 0; ; i++) {
            switch (i >= 40 ? 9 : pt_u(t, 5)) {
              case 0: r = (y->has_min ? y->min : 0) + pt_u(t, 3) - 1; break;
              case 1: r = (y->has_max ? y->max : 0) + pt_u(t, 3) - 1; break;
              case 2: r = (y->has_emin ? y->emin : 0) + pt_u(t, 3) - 1; break;
              case 3: r = (y->has_emax ? y->emax : 0) + pt_u(t, 3) - 1; break;
              case 9:
                r = y->has_min ? y->min : y->has_max ? y->max : 0;
                break;
              default: r = gen_int(t, y); break;
            }
            if (i < 40 && (r < tmin(y) || r > tmax(y))) {
                continue;
            }
            if (i >= 40 || int_ok(y, r) != viol) {
                break;
            }
        }
        if (!int_ok(y, r)) {
            violated = true;
        }
        v->u = (uint64_t)r;
      } break;

      case K_ENUM: {
        int n = y->en->values.len;

        if (want_violation()) {
            v->u = (uint32_t)(y->en->values.tab[0] - 1);
            if (!ber_g) {
                violated = true;
            }
        } else
        if (y->en->ext_values.len && pt_bool(t)) {
            v->u = (uint32_t)y->en->ext_values.tab[
                pt_u(t, y->en->ext_values.len - 1)];
        } else {
            v->u = (uint32_t)y->en->values.tab[pt_u(t, n - 1)];
        }
      } break;

      case K_NULL:
        break;

      case K_STR:
        v->len = gen_len(t, y);
        v->s = t_new(uint8_t, v->len + 1);
        pt_fill(t, v->s, v->len);
        break;

      case K_BITS:
        v->len = gen_len(t, y);
        v->s = t_new(uint8_t, DIV_ROUND_UP(v->len, 8) + 1);
        pt_fill(t, v->s, DIV_ROUND_UP(v->len, 8));
        break;

      case K_SEQ:
        v->nsub = y->nsub;
        v->sub = t_new(val_t, MAX(1, y->nsub));
        for (int i = 0; i < y->nsub; i++) {
            gen_val(t, y->sub[i], &v->sub[i]);
        }
        break;

      case K_CHOICE:
      case K_UCHOICE:
        v->idx = pt_u(t, y->nsub - 1);
        v->nsub = 1;
        v->sub = t_new(val_t, 1);
        gen_val(t, y->sub[v->idx], v->sub);
        break;

      case K_SEQOF:
        v->nsub = gen_len(t, y);
        v->sub = t_new(val_t, MAX(1u, v->nsub));
        for (size_t i = 0; i < v->nsub; i++) {
            if (i >= 500 && !y->sub[0]->desc) {
                v->sub[i] = v->sub[i % 499];
            } else {
                gen_val(t, y->sub[0], &v->sub[i]);
            }
        }
        break;

      case K_EXT:
        v->nsub = 1;
        v->sub = t_new(val_t, 1);
        gen_val(t, y->sub[0], v->sub);
        break;

      case K_OPEN: {
        SB_1k(sb);

        gen_tlv(t, &sb, -1);
        v->len = sb.len;
        v->s = t_dup((uint8_t *)sb.data, sb.len);
      } break;

      case K_SKIP:
        v->present = false;
        break;
    }
}

/* writes the value in the C structure */
static void store(const ty_t *y, const val_t *v, char *base)
{
    char *p = base + y->off;

    if (!v->present) {
        return;  /* memory is zeroed */
    }
    if (y->pointed) {
        char *q = t_new(char, MAX(8u, slot_size(y)));

        *(char **)p = q;
        p = q;
    }
    switch (y->kind) {
      case K_BOOL:
        *(bool *)p = v->u;
        if (y->optional) {
            ((opt_bool_t *)p)->has_field = true;
        }
        break;
      case K_INT:
        memcpy(p, &v->u, y->bits / 8);
        if (y->optional) {
            p[y->bits / 8] = true;
        }
        break;
      case K_ENUM:
        *(int32_t *)p = (int32_t)v->u;
        if (y->optional) {
            p[4] = true;
        }
        break;
      case K_NULL:
        *p = true;
        break;
      case K_STR: case K_OPEN:
        *(lstr_t *)p = LSTR_INIT_V((const char *)v->s, v->len);
        break;
      case K_BITS:
        *(asn1_bit_string_t *)p = ASN1_BIT_STRING(v->s, v->len);
        break;
      case K_SEQ:
        for (int i = 0; i < y->nsub; i++) {
            store(y->sub[i], &v->sub[i], p);
        }
        break;
      case K_CHOICE: case K_UCHOICE:
        *(int *)p = v->idx + 1;
        store(y->sub[v->idx], v->sub, p);
        break;
      case K_SEQOF: {
        asn1_void_vector_t *vec = (asn1_void_vector_t *)p;
        const ty_t *s = y->sub[0];
        size_t esz = s->pointed ? 8 : s->kind == K_NULL ? 1
                   : s->kind == K_BOOL ? 1
                   : s->kind == K_BITS ? sizeof(asn1_bit_string_t)
                   : slot_size(s);

        vec->len = v->nsub;
        vec->data = t_new(char, MAX(1u, v->nsub * esz) + 8);
        for (size_t i = 0; i < v->nsub; i++) {
            store(s, &v->sub[i], (char *)vec->data + i * esz);
        }
      } break;
      case K_EXT: {
        asn1_ext_t *e = (asn1_ext_t *)p;
        char *q = t_new(char, y->sub[0]->size);
        ty_t tmp = *y->sub[0];

        tmp.off = 0;
        tmp.pointed = false;
        store(&tmp, v->sub, q);
        e->data = q;
        e->desc = y->sub[0]->desc;
      } break;
      case K_SKIP:
        break;
    }
}

static void ref_ber(const ty_t *y, const val_t *v, sb_t *out);

/* reads the structure; returns NULL or what is wrong */
static const char *load(const ty_t *y, val_t *v, const char *base)
{
    const char *p = base + y->off;

    p_clear(v, 1);
    v->present = true;
    if (y->kind == K_SKIP) {
        v->present = false;
        return NULL;
    }
    if (y->pointed) {
        p = *(const char **)p;
        if (!p) {
            v->present = false;
            return y->optional ? NULL : "missing mandatory pointed field";
        }
    }
    switch (y->kind) {
      case K_BOOL:
        v->present = !y->optional || ((const opt_bool_t *)p)->has_field;
        if (v->present) {
            v->u = *(const uint8_t *)p;
            if (v->u > 1) {
                return "bool neither true nor false";
            }
        }
        break;
      case K_INT:
        v->present = !y->optional || p[y->bits / 8];
        if (v->present) {
            memcpy(&v->u, p, y->bits / 8);
            if (y->is_signed) {
                v->u = (int64_t)(v->u << (64 - y->bits)) >> (64 - y->bits);
                if (!ber_g && !int_ok(y, (int64_t)v->u)) {
                    return "integer out of its constraints";
                }
            } else
            if (!ber_g && !int_ok(y, v->u)) {
                return "integer out of its constraints";
            }
        }
        break;
      case K_ENUM:
        v->present = !y->optional || p[4];
        if (v->present) {
            bool ext;

            v->u = *(const uint32_t *)p;
            if (!ber_g && asn1_enum_find_val(y->en, (int32_t)v->u, &ext) < 0)
            {
                return "undeclared enumerated value";
            }
        }
        break;
      case K_NULL:
        v->present = !y->optional || *p;
        break;
      case K_STR: case K_OPEN:
        v->s = (uint8_t *)((const lstr_t *)p)->data;
        v->len = ((const lstr_t *)p)->len;
        v->present = !y->optional || v->s;
        if (v->present && y->kind == K_STR && !size_ok(y, v->len)) {
            return "string length out of its constraints";
        }
        if (v->present && !v->s) {
            return "mandatory string without data";
        }
        break;
      case K_BITS:
        v->s = (uint8_t *)((const asn1_bit_string_t *)p)->data;
        v->present = !y->optional || v->s;
        if (v->present) {
            if (((const asn1_bit_string_t *)p)->bit_len < 0) {
                return "negative bit string length";
            }
            v->len = ((const asn1_bit_string_t *)p)->bit_len;
            if (!size_ok(y, v->len)) {
                return "bit string length out of its constraints";
            }
            if (!v->s) {
                return "mandatory bit string without data";
            }
        }
        break;
      case K_SEQ:
        v->nsub = y->nsub;
        v->sub = t_new(val_t, MAX(1, y->nsub));
        for (int i = 0; i < y->nsub; i++) {
            const char *err = load(y->sub[i], &v->sub[i], p);

            if (err) {
                return err;
            }
        }
        break;
      case K_CHOICE: case K_UCHOICE:
        v->idx = *(const int *)p - 1;
        if (v->idx < 0 || v->idx >= y->nsub) {
            return "no such alternative in the choice";
        }
        v->nsub = 1;
        v->sub = t_new(val_t, 1);
        return load(y->sub[v->idx], v->sub, p);
      case K_SEQOF: {
        const asn1_void_vector_t *vec = (const asn1_void_vector_t *)p;
        const ty_t *s = y->sub[0];
        size_t esz = s->pointed ? 8 : s->kind == K_NULL ? 1
                   : s->kind == K_BOOL ? 1
                   : s->kind == K_BITS ? sizeof(asn1_bit_string_t)
                   : slot_size(s);

        if (vec->len < 0 || (vec->len && !vec->data)) {
            return "broken vector";
        }
        v->nsub = vec->len;
        if (!size_ok(y, v->nsub)) {
            return "number of elements out of its constraints";
        }
        v->sub = t_new(val_t, MAX(1u, v->nsub));
        for (size_t i = 0; i < v->nsub; i++) {
            const char *err = load(s, &v->sub[i],
                                   (const char *)vec->data + i * esz);
            if (err) {
                return err;
            }
        }
      } break;
      case K_EXT: {
        const asn1_ext_t *e = (const asn1_ext_t *)p;

        v->present = e->has_value;
        if (v->present) {
            v->s = (uint8_t *)e->value.b;
            v->len = ps_len(&e->value);
        } else
        if (!y->optional) {
            return "missing mandatory external field";
        }
      } break;
      case K_SKIP:
        break;
    }
    return NULL;
}

static bool bits_eq(const uint8_t *a, const uint8_t *b, size_t n)
{
    if (memcmp(a, b, n / 8)) {
        return false;
    }
    return !(n % 8) || !((a[n / 8] ^ b[n / 8]) >> (8 - n % 8));
}

/* a: expected value, b: loaded */
static const char *same(const ty_t *y, const val_t *a, const val_t *b,
                        bool b_loaded_a)
{
    if (a->present != b->present) {
        return "presence of an optional field";
    }
    if (!a->present) {
        return NULL;
    }
    switch (y->kind) {
      case K_BOOL: case K_INT:
        return a->u == b->u ? NULL : "integer or boolean";
      case K_ENUM:
        return (uint32_t)a->u == (uint32_t)b->u ? NULL : "enumerated";
      case K_NULL: case K_SKIP:
        return NULL;
      case K_STR: case K_OPEN:
        return a->len == b->len && !memcmp(a->s, b->s, a->len) ? NULL
             : "string";
      case K_BITS:
        return a->len == b->len && bits_eq(a->s, b->s, a->len) ? NULL
             : "bit string";
      case K_EXT:
        if (!b_loaded_a) {
            SB_8k(sb);

            ref_ber(y->sub[0], a->sub, &sb);
            return (size_t)sb.len == b->len && !memcmp(sb.data, b->s, b->len)
                 ? NULL : "external field";
        }
        return a->len == b->len && !memcmp(a->s, b->s, a->len) ? NULL
             : "external field";
      case K_CHOICE: case K_UCHOICE:
        if (a->idx != b->idx) {
            return "selected alternative of a choice";
        }
        return same(y->sub[a->idx], a->sub, b->sub, b_loaded_a);
      case K_SEQ: case K_SEQOF:
        if (a->nsub != b->nsub) {
            return "number of elements";
        }
        for (size_t i = 0; i < a->nsub; i++) {
            const ty_t *s = y->sub[y->kind == K_SEQ ? i : 0];
            const char *err = same(s, &a->sub[i], &b->sub[i], b_loaded_a);

            if (err) {
                return err;
            }
        }
        return NULL;
    }
    return NULL;
}

/* }}} */
/* {{{ PER reference encoder */

typedef struct {
    sb_t sb;
    size_t bits;
} bw_t;

static void w_bit(bw_t *w, int b)
{
    if (w->bits % 8 == 0) {
        sb_addc(&w->sb, 0);
    }
    if (b) {
        w->sb.data[w->bits / 8] |= 0x80 >> (w->bits % 8);
    }
    w->bits++;
}
static void w_bits(bw_t *w, uint64_t v, int n)
{
    while (n--) {
        w_bit(w, (v >> n) & 1);
    }
}
static void w_align(bw_t *w)
{
    while (w->bits % 8) {
        w_bit(w, 0);
    }
}
static void w_bytes(bw_t *w, const uint8_t *p, size_t n)
{
    if (w->bits % 8 == 0) {
        sb_add(&w->sb, p, n);
        w->bits += 8 * n;
    } else {
        for (size_t i = 0; i < n; i++) {
            w_bits(w, p[i], 8);
        }
    }
}

static int nbits(uint64_t v)
{
    int n = 0;

    while (v) {
        n++;
        v >>= 1;
    }
    return n;
}
static int nbytes(uint64_t v)
{
    int n = (nbits(v) + 7) / 8;

    return n ? n : 1;
}

/* X.691 11.5: constrained whole number */
static void w_cwn(bw_t *w, uint64_t v, uint64_t d)
{
    if (d == 0) {
        return;
    }
    if (d < 255) {
        w_bits(w, v, nbits(d));
    } else
    if (d == 255) {
        w_align(w);
        w_bits(w, v, 8);
    } else
    if (d < 65536) {
        w_align(w);
        w_bits(w, v, 16);
    } else {
        int n = nbytes(v);

        w_bits(w, n - 1, nbits(nbytes(d) - 1));
        w_align(w);
        w_bits(w, v, 8 * n);
    }
}

/* 11.9: short forms of an unconstrained length */
static void w_ulen(bw_t *w, size_t n)
{
    w_align(w);
    if (n < 128) {
        w_bits(w, n, 8);
    } else {
        w_bits(w, 0x8000 | n, 16);
    }
}

static void w_semi(bw_t *w, uint64_t v)
{
    int n = nbytes(v);

    w_ulen(w, n);
    w_bits(w, v, 8 * n);
}

static void w_2c(bw_t *w, i128 v)
{
    int n = 1;

    while (v < -((i128)1 << (8 * n - 1)) || v >= ((i128)1 << (8 * n - 1))) {
        n++;
    }
    w_ulen(w, n);
    if (n > 8) {
        w_bits(w, 0, 8);
        n = 8;
    }
    w_bits(w, (uint64_t)v, 8 * n);
}

static void w_nsnnwn(bw_t *w, size_t n)
{
    if (n < 64) {
        w_bits(w, n, 7);
    } else {
        w_bit(w, 1);
        w_semi(w, n);
    }
}

static void ref_per(const ty_t *y, const val_t *v, bw_t *w);

/* items [from, from + n[ */
static void w_items(const ty_t *y, const val_t *v, bw_t *w, size_t from,
                    size_t n)
{
    switch (y->kind) {
      case K_STR:
        w_bytes(w, v->s + from, n);
        break;
      case K_BITS:
        for (size_t i = from; i < from + n; i++) {
            w_bit(w, (v->s[i / 8] >> (7 - i % 8)) & 1);
        }
        break;
      default:
        for (size_t i = from; i < from + n; i++) {
            ref_per(y->sub[0], &v->sub[i], w);
        }
        break;
    }
}

/* strings and sequences of: 11.9, 16, 17, 20 */
static void w_counted(const ty_t *y, const val_t *v, size_t len, bw_t *w)
{
    bool root = len >= (size_t)y->min && len <= (size_t)y->max;
    bool align;

    if (y->extended) {
        w_bit(w, !root);
    }
    if (root && (size_t)y->max != SIZE_MAX && y->max - y->min < 65536) {
        /* the library keeps this form for large lower bounds too */
        w_cwn(w, len - (size_t)y->min, (size_t)(y->max - y->min));
        switch (y->kind) {
          case K_STR:
            align = !(y->min == y->max && y->max <= 2);
            break;
          case K_BITS:
            align = len && !(y->min == y->max && y->max <= 16);
            break;
          default:
            align = false;
            break;
        }
        if (align) {
            w_align(w);
        }
        w_items(y, v, w, 0, len);
    } else {
        size_t pos = 0;

        for (;;) {
            size_t left = len - pos;

            if (left < 16384) {
                w_ulen(w, left);
                w_items(y, v, w, pos, left);
                break;
            }
            left = MIN(left / 16384, 4u);
            w_align(w);
            w_bits(w, 0xc0 | left, 8);
            w_items(y, v, w, pos, left * 16384);
            pos += left * 16384;
        }
    }
}

static void ref_per_value(const ty_t *y, const val_t *v, bw_t *w)
{
    switch (y->kind) {
      case K_BOOL:
        w_bit(w, v->u);
        break;
      case K_INT: {
        i128 n = y->is_signed ? (i128)(int64_t)v->u : (i128)v->u;
        bool root = int_root_ok(y, n);

        if (y->extended) {
            w_bit(w, !root);
        }
        if (!root || !y->has_min) {
            w_2c(w, n);
        } else
        if (y->has_max) {
            w_cwn(w, (uint64_t)(n - y->min), (uint64_t)(y->max - y->min));
        } else {
            w_semi(w, (uint64_t)(n - y->min));
        }
      } break;
      case K_ENUM: {
        int pos = -1;

        tab_enumerate(i, e, &y->en->values) {
            if ((uint32_t)e == (uint32_t)v->u) {
                pos = i;
            }
        }
        if (y->extended) {
            w_bit(w, pos < 0);
        }
        if (pos >= 0) {
            w_cwn(w, pos, y->en->values.len - 1);
        } else {
            tab_enumerate(i, e, &y->en->ext_values) {
                if ((uint32_t)e == (uint32_t)v->u) {
                    pos = i;
                }
            }
            w_nsnnwn(w, pos);
        }
      } break;
      case K_STR: case K_BITS:
        w_counted(y, v, v->len, w);
        break;
      case K_SEQOF:
        w_counted(y, v, v->nsub, w);
        break;
      case K_SEQ: {
        bool ext = false;

        if (y->ext_pos >= 0) {
            for (int i = y->ext_pos; i < y->nsub; i++) {
                ext |= v->sub[i].present;
            }
            w_bit(w, ext);
        }
        for (int i = 0; i < y->nsub; i++) {
            if (y->sub[i]->optional && !y->sub[i]->is_ext) {
                w_bit(w, v->sub[i].present);
            }
        }
        for (int i = 0; i < y->nsub; i++) {
            if (i == y->ext_pos) {
                if (!ext) {
                    break;
                }
                w_nsnnwn(w, y->nsub - y->ext_pos - 1);
                for (int j = i; j < y->nsub; j++) {
                    w_bit(w, v->sub[j].present);
                }
            }
            if (v->sub[i].present) {
                ref_per(y->sub[i], &v->sub[i], w);
            }
        }
      } break;
      case K_CHOICE: {
        bool ext = y->ext_pos >= 0 && v->idx >= y->ext_pos;

        if (y->ext_pos >= 0) {
            w_bit(w, ext);
        }
        if (ext) {
            w_nsnnwn(w, v->idx - y->ext_pos);
        } else {
            w_cwn(w, v->idx, (y->ext_pos >= 0 ? y->ext_pos : y->nsub) - 1);
        }
        ref_per(y->sub[v->idx], v->sub, w);
      } break;
      default:
        break;
    }
}

static void ref_per(const ty_t *y, const val_t *v, bw_t *w)
{
    if (y->is_open || y->is_ext) {
        bw_t sub = { .bits = 0 };
        ty_t os = { .kind = K_STR, .min = 0, .max = SIZE_MAX };
        val_t vs = { .present = true };

        sb_init(&sub.sb);
        ref_per_value(y, v, &sub);
        if (!sub.bits) {
            w_bits(&sub, 0, 8);
        }
        vs.s = (uint8_t *)sub.sb.data;
        w_counted(&os, &vs, sub.sb.len, w);
        sb_wipe(&sub.sb);
        return;
    }
    ref_per_value(y, v, w);
}

/* }}} */
/* {{{ BER reference encoder */

static pt_t *vary;   /* non NULL: other valid encodings are drawn */

static void ber_int(sb_t *out, i128 v, int max_bytes)
{
    int n = 1;

    while (v < -((i128)1 << (8 * n - 1)) || v >= ((i128)1 << (8 * n - 1))) {
        n++;
    }
    if (vary && pt_p(vary, 1, 4)) {
        n = MAX(n, max_bytes);
    }
    ber_len(out, n, 0);
    while (n--) {
        sb_addc(out, (uint8_t)(v >> (8 * n)));
    }
}

static void ref_ber_tlv(const ty_t *y, const val_t *v, sb_t *out)
{
    int lform = vary && pt_p(vary, 1, 5) ? (int)pt_u(vary, 4) : 0;

    if (!v->present) {
        return;
    }
    if (y->kind == K_UCHOICE) {
        ref_ber_tlv(y->sub[v->idx], v->sub, out);
        return;
    }
    if (y->kind == K_OPEN) {
        sb_add(out, v->s, v->len);
        return;
    }
    sb_addc(out, y->tag);
    switch (y->kind) {
      case K_BOOL:
        ber_len(out, 1, lform);
        sb_addc(out, vary && v->u ? (int)pt_range(vary, 1, 255)
                                  : (int)v->u);
        break;
      case K_INT:
        ber_int(out, y->is_signed ? (i128)(int64_t)v->u : (i128)v->u,
                y->bits / 8 + (y->is_signed ? 0 : 1));
        break;
      case K_ENUM:
        ber_int(out, (int32_t)v->u, 4);
        break;
      case K_NULL:
        ber_len(out, 0, lform);
        break;
      case K_STR:
        ber_len(out, v->len, lform);
        sb_add(out, v->s, v->len);
        break;
      case K_BITS:
        ber_len(out, 1 + DIV_ROUND_UP(v->len, 8), lform);
        sb_addc(out, (8 - v->len % 8) % 8);
        sb_add(out, v->s, DIV_ROUND_UP(v->len, 8));
        break;
      default: {
        sb_t sub;
        bool indef = vary && pt_p(vary, 1, 4);
        const ty_t *c = y->kind == K_EXT ? y->sub[0] : y;
        const val_t *cv = y->kind == K_EXT ? v->sub : v;
        pt_t *sv = vary;

        sb_init(&sub);
        if (y->kind == K_EXT) {
            vary = NULL;
        }
        ref_ber(c, cv, &sub);
        vary = sv;
        if (vary && y->kind != K_EXT && pt_p(vary, 1, 6)
        &&  !(y->kind == K_SEQ && y->nsub
              && y->sub[y->nsub - 1]->kind == K_OPEN))
        {
            /* an unknown element at the end of the contents; 0xff.. is
             * never a tag of ours */
            sb_adds(&sub, "\xff\x7f");
            ber_len(&sub, 3, 0);
            sb_adds(&sub, "abc");
        }
        if (indef) {
            sb_addc(out, 0x80);
            sb_add(out, sub.data, sub.len);
            sb_addc(out, 0);
            sb_addc(out, 0);
        } else {
            ber_len(out, sub.len, lform);
            sb_add(out, sub.data, sub.len);
        }
        sb_wipe(&sub);
      } break;
    }
}

/* contents of a constructed type */
static void ref_ber(const ty_t *y, const val_t *v, sb_t *out)
{
    switch (y->kind) {
      case K_SEQ:
        for (int i = 0; i < y->nsub; i++) {
            if (vary && y->sub[i]->kind == K_SKIP && pt_bool(vary)) {
                sb_addc(out, y->sub[i]->tag);
                ber_len(out, 2, 0);
                sb_adds(out, "xy");
                continue;
            }
            ref_ber_tlv(y->sub[i], &v->sub[i], out);
        }
        break;
      case K_SEQOF:
        for (size_t i = 0; i < v->nsub; i++) {
            ref_ber_tlv(y->sub[0], &v->sub[i], out);
        }
        break;
      case K_CHOICE: case K_UCHOICE:
        ref_ber_tlv(y->sub[v->idx], v->sub, out);
        break;
      default:
        break;
    }
}

/* }}} */
/* {{{ targets */

static void dump(pt_t *t, const ty_t *y, const val_t *v, int depth)
{
    static const char * const names[] = {
        "BOOL", "INT", "ENUM", "NULL", "STR", "BITS", "SEQ", "CHOICE",
        "SEQOF", "UCHOICE", "OPEN", "EXT", "SKIP",
    };

    pt_note(t, "%*s%s tag=%02x bits=%d%s%s%s%s%s min=%jd max=%jd ext_pos=%d"
            " | %s u=%jx len=%zd idx=%d n=%zd", depth * 2, "",
            names[y->kind], y->tag, y->bits, y->optional ? " opt" : "",
            y->pointed ? " ptr" : "", y->is_open ? " open" : "",
            y->is_ext ? " ext" : "", y->extended ? " extended" : "",
            (intmax_t)y->min, (intmax_t)y->max, y->ext_pos,
            !v ? "-" : v->present ? "present" : "absent", v ? v->u : 0,
            v ? v->len : 0, v ? v->idx : 0, v ? v->nsub : 0);
    for (int i = 0; i < y->nsub; i++) {
        const val_t *s = NULL;

        if (v && v->present) {
            switch (y->kind) {
              case K_SEQ: s = &v->sub[i]; break;
              case K_CHOICE: case K_UCHOICE:
                s = i == v->idx ? v->sub : NULL;
                break;
              case K_SEQOF: s = v->nsub ? v->sub : NULL; break;
              default: s = v->sub; break;
            }
        }
        dump(t, y->sub[i], s, depth + 1);
    }
}

static ty_t *gen_root(pt_t *t, val_t *v, char **mem)
{
    ty_t *y;

    nfields = 0;
    budget = pt_p(t, 1, 6) ? 60 : 14;
    tag_g = 1;
    violated = false;
    y = gen_ty(t, 0, IN_ROOT, pt_p(t, 1, 5) ? K_CHOICE : K_SEQ);
    gen_val(t, y, v);
    *mem = t_new(char, y->size);
    store(y, v, *mem);
    if (pt_verbose(t)) {
        dump(t, y, v, 0);
    }
    return y;
}

static void check_per_decode(pt_t *t, const ty_t *y, const val_t *v,
                             const asn1_desc_t *d, const void *data,
                             size_t len, bool exact, const char *what)
{
    pstream_t ps = ps_init(data, len);
    char *out = t_new_raw(char, y->size);
    val_t back;
    const char *err;
    bool copy = pt_bool(t);
    char *dup = t_dup((const char *)data, len);

    /* dirty output: every field must be written */
    memset(out, 0xa5, y->size);
    ps = ps_init(dup, len);
    PT_CHECK(t, t_aper_decode_desc(&ps, d, copy, out) >= 0,
             "%s: the decoder refuses it", what);
    if (copy) {
        memset(dup, 0xee, len);
    }
    err = load(y, &back, out);
    PT_CHECK(t, !err, "%s: %s", what, err);
    err = same(y, v, &back, false);
    PT_CHECK(t, !err, "%s: the decoded value differs: %s", what, err);
    if (exact) {
        PT_CHECK(t, ps_done(&ps), "%s: %zd bytes left", what, ps_len(&ps));
    }
}

static void run_per(pt_t *t)
{
    t_scope;
    val_t v;
    char *mem;
    ty_t *y;
    bw_t w = { .bits = 0 };
    sb_t sb;
    int res;

    ber_g = false;
    wipe_g();
    violate_at = pt_p(t, 1, 4) ? (int)pt_u(t, 12) : -1;
    y = gen_root(t, &v, &mem);
    if (nfields >= 4) {
        pt_nontrivial(t);
    }

    sb_init(&sb);
    sb_init(&w.sb);
    res = aper_encode_desc(&sb, mem, y->desc);
    if (violated) {
        pt_label(t, "constraint broken");
        PT_CHECK(t, res < 0, "a value breaking a constraint is encoded");
        goto end;
    }
    PT_CHECK(t, res >= 0, "the encoder refuses a valid value");
    ref_per(y, &v, &w);
    if (!w.bits) {
        w_bits(&w, 0, 8);
    }
    if (pt_verbose(t)) {
        pt_note_hex(t, "encoded", sb.data, MIN(sb.len, 200));
        pt_note_hex(t, "expected", w.sb.data, MIN(w.sb.len, 200));
    }
    for (int i = 0; i < sb.len && i < w.sb.len; i++) {
        PT_CHECK(t, sb.data[i] == w.sb.data[i],
                 "byte %d of %d: %02x, expected %02x", i, sb.len,
                 (uint8_t)sb.data[i], (uint8_t)w.sb.data[i]);
    }
    PT_CHECK(t, sb.len == w.sb.len, "%d bytes, expected %d", sb.len,
             w.sb.len);
    if (sb.len > 16384) {
        pt_label(t, "fragments");
    }
    check_per_decode(t, y, &v, y->desc, sb.data, sb.len, w.bits > 8,
                     "round trip");

    /* other versions of the type: fewer extensions known */
    if (y->kind == K_SEQ && y->ext_pos >= 0 && y->nsub > y->ext_pos) {
        ty_t old = *y;
        val_t ov = v;

        old.nsub = ov.nsub = pt_range(t, y->ext_pos, y->nsub - 1);
        old.desc = build_seq(&old, old.nsub);
        check_per_decode(t, &old, &ov, old.desc, sb.data, sb.len, w.bits > 8,
                         "decoded by an older version");
        pt_label(t, "older version");

        /* newer reader */
        {
            val_t nv = v;
            sb_t sb2;
            char *m2 = t_new(char, y->size);

            nv.sub = t_dup(v.sub, v.nsub);
            for (int i = old.nsub; i < y->nsub; i++) {
                nv.sub[i].present = false;
            }
            store(&old, &ov, m2);
            sb_init(&sb2);
            PT_CHECK(t, aper_encode_desc(&sb2, m2, old.desc) >= 0,
                     "the encoder refuses a valid value");
            check_per_decode(t, y, &nv, y->desc, sb2.data, sb2.len, false,
                             "decoded by a newer version");
            sb_wipe(&sb2);
        }
    }

  end:
    sb_wipe(&sb);
    sb_wipe(&w.sb);
}

static void mutate(pt_t *t, sb_t *sb)
{
    int n = 1 + pt_u(t, 3);

    if (pt_p(t, 1, 8)) {
        int len = pt_u(t, 40);

        sb_reset(sb);
        pt_bytes(t, sb_growlen(sb, len), len);
        return;
    }
    while (n--) {
        int pos;

        if (!sb->len) {
            break;
        }
        pos = pt_bool(t) ? pt_u(t, MIN(sb->len - 1, 8)) : pt_u(t, sb->len - 1);
        switch (pt_u(t, 5)) {
          case 0: sb->data[pos] ^= 1 << pt_u(t, 7); break;
          case 1: sb->data[pos] = pt_u(t, 255); break;
          case 2: sb_clip(sb, pos); break;
          case 3: sb->data[pos] = pt_bool(t) ? 0 : 0xff; break;
          case 4: sb->data[pos] = (uint8_t)sb->data[pos] + 1; break;
          default: sb_splice(sb, pos, 1, NULL, 0); break;
        }
    }
}

static void run_per_bad(pt_t *t)
{
    t_scope;
    val_t v, back, back2;
    char *mem, *out, *out2;
    ty_t *y;
    sb_t sb, sb2;
    pstream_t ps;
    uint8_t *in;
    const char *err;

    ber_g = false;
    wipe_g();
    violate_at = -1;
    y = gen_root(t, &v, &mem);
    sb_init(&sb);
    sb_init(&sb2);
    if (aper_encode_desc(&sb, mem, y->desc) < 0) {
        PT_FAIL(t, "the encoder refuses a valid value");
    }
    mutate(t, &sb);
    if (sb.len >= 3) {
        pt_nontrivial(t);
    }
    in = (malloc)(sb.len);
    memcpy(in, sb.data, sb.len);
    out = t_new_raw(char, y->size);
    memset(out, 0xa5, y->size);
    ps = ps_init(in, sb.len);
    if (t_aper_decode_desc(&ps, y->desc, true, out) < 0) {
        (free)(in);
        pt_label(t, "refused");
        goto end;
    }
    (free)(in);
    pt_label(t, "accepted");
    err = load(y, &back, out);
    PT_CHECK(t, !err, "accepted, but %s", err);
    PT_CHECK(t, aper_encode_desc(&sb2, out, y->desc) >= 0,
             "accepted, but cannot be encoded again");
    out2 = t_new_raw(char, y->size);
    memset(out2, 0x5a, y->size);
    ps = ps_initsb(&sb2);
    PT_CHECK(t, t_aper_decode_desc(&ps, y->desc, false, out2) >= 0,
             "accepted, but its new encoding is refused");
    err = load(y, &back2, out2);
    PT_CHECK(t, !err, "encoded again, but %s", err);
    err = same(y, &back, &back2, true);
    PT_CHECK(t, !err, "encoded again, the decoded value differs: %s", err);

  end:
    sb_wipe(&sb);
    sb_wipe(&sb2);
}

static void ber_encode(pt_t *t, const void *mem, const asn1_desc_t *d,
                       sb_t *sb)
{
    qv_t(i32) stack;
    int len;
    uint8_t *end;

    qv_init(&stack);
    len = asn1_pack_size_(mem, d, &stack);
    PT_CHECK(t, len >= 0, "asn1_pack_size_ refuses a valid value");
    {
        uint8_t *buf = (malloc)(MAX(len, 1));

        end = asn1_pack_(buf, mem, d, &stack);
        PT_CHECK(t, end - buf == len, "%zd bytes packed, %d announced",
                 end - buf, len);
        sb_set(sb, buf, len);
        (free)(buf);
    }
    qv_wipe(&stack);
}

static void check_ber_decode(pt_t *t, const ty_t *y, const val_t *v,
                             const void *data, size_t len, bool exact,
                             const char *what)
{
    char *out = t_new_raw(char, y->size);
    bool copy = pt_bool(t);
    char *dup = (malloc)(MAX(len, 1u));
    pstream_t ps;
    val_t back;
    const char *err;
    bool has_ext = false;

    memcpy(dup, data, len);
    memset(out, 0xa5, y->size);
    ps = ps_init(dup, len);
    PT_CHECK(t, asn1_unpack_(&ps, y->desc, t_pool(), out, copy) >= 0,
             "%s: the decoder refuses it", what);
    if (exact) {
        PT_CHECK(t, ps_done(&ps), "%s: %zd bytes left", what, ps_len(&ps));
    }
    (void)has_ext;
    err = load(y, &back, out);
    PT_CHECK(t, !err, "%s: %s", what, err);
    err = same(y, v, &back, false);
    PT_CHECK(t, !err, "%s: the decoded value differs: %s", what, err);
    (free)(dup);
}

static void run_ber(pt_t *t)
{
    t_scope;
    val_t v;
    char *mem;
    ty_t *y;
    sb_t sb, ref;

    ber_g = true;
    wipe_g();
    violate_at = -1;
    y = gen_root(t, &v, &mem);
    if (nfields >= 4) {
        pt_nontrivial(t);
    }
    sb_init(&sb);
    sb_init(&ref);
    ber_encode(t, mem, y->desc, &sb);
    vary = NULL;
    ref_ber(y, &v, &ref);
    if (pt_verbose(t)) {
        pt_note_hex(t, "encoded", sb.data, MIN(sb.len, 200));
        pt_note_hex(t, "expected", ref.data, MIN(ref.len, 200));
    }
    for (int i = 0; i < sb.len && i < ref.len; i++) {
        PT_CHECK(t, sb.data[i] == ref.data[i],
                 "byte %d of %d: %02x, expected %02x", i, sb.len,
                 (uint8_t)sb.data[i], (uint8_t)ref.data[i]);
    }
    PT_CHECK(t, sb.len == ref.len, "%d bytes, expected %d", sb.len, ref.len);
    check_ber_decode(t, y, &v, sb.data, sb.len, true, "round trip");

    vary = t;
    sb_reset(&ref);
    ref_ber(y, &v, &ref);
    vary = NULL;
    if (pt_verbose(t)) {
        pt_note_hex(t, "varied", ref.data, MIN(ref.len, 200));
    }
    check_ber_decode(t, y, &v, ref.data, ref.len, true, "other encoding");

    sb_wipe(&sb);
    sb_wipe(&ref);
}

static bool has_kind(const ty_t *y, enum kind k)
{
    if (y->kind == k) {
        return true;
    }
    for (int i = 0; i < y->nsub; i++) {
        if (has_kind(y->sub[i], k)) {
            return true;
        }
    }
    return false;
}

static void run_ber_bad(pt_t *t)
{
    t_scope;
    val_t v, back, back2;
    char *mem, *out, *out2;
    ty_t *y;
    sb_t sb, sb2;
    pstream_t ps;
    uint8_t *in;
    size_t len;
    const char *err;

    ber_g = true;
    wipe_g();
    violate_at = -1;
    y = gen_root(t, &v, &mem);
    sb_init(&sb);
    sb_init(&sb2);
    vary = pt_bool(t) ? t : NULL;
    ref_ber(y, &v, &sb);
    vary = NULL;
    mutate(t, &sb);
    if (sb.len >= 3) {
        pt_nontrivial(t);
    }
    len = sb.len;
    in = (malloc)(len);
    memcpy(in, sb.data, len);
    out = t_new_raw(char, y->size);
    memset(out, 0xa5, y->size);
    ps = ps_init(in, len);
    if (asn1_unpack_(&ps, y->desc, t_pool(), out, true) < 0) {
        (free)(in);
        pt_label(t, "refused");
        goto end;
    }
    pt_label(t, "accepted");
    PT_CHECK(t, ps.b >= in && ps.b <= in + len, "stream out of bounds");
    err = load(y, &back, out);
    PT_CHECK(t, !err, "accepted, but %s", err);
    /* external fields are unpacked as raw contents, not repackable; NULL and
     * absent optional fields are the same in memory */
    if (!has_kind(y, K_EXT)) {
        ber_encode(t, out, y->desc, &sb2);
        out2 = t_new_raw(char, y->size);
        memset(out2, 0x5a, y->size);
        ps = ps_initsb(&sb2);
        PT_CHECK(t, asn1_unpack_(&ps, y->desc, t_pool(), out2, false) >= 0,
                 "accepted, but its new encoding is refused");
        err = load(y, &back2, out2);
        PT_CHECK(t, !err, "encoded again, but %s", err);
        err = same(y, &back, &back2, true);
        PT_CHECK(t, !err, "encoded again, the decoded value differs: %s",
                 err);
    }
    (free)(in);

  end:
    sb_wipe(&sb);
    sb_wipe(&sb2);
}

/* asn1_get_ber_field: the extent of one element, whatever follows */
static void run_tlv(pt_t *t)
{
    SB_8k(sb);
    uint8_t *in;
    size_t n, len;
    pstream_t ps, sub;
    uint32_t cut;

    gen_tlv(t, &sb, 0);
    n = sb.len;
    len = n + pt_u(t, 4);
    pt_nontrivial(t);
    in = (malloc)(len);
    memcpy(in, sb.data, n);
    pt_bytes(t, in + n, len - n);
    ps = ps_init(in, len);
    PT_CHECK(t, asn1_get_ber_field(&ps, false, &sub) >= 0,
             "valid element refused");
    PT_CHECK(t, ps.b == in + n && sub.b == in && sub.b_end == in + n,
             "extent %zd, expected %zd", ps.b - in, n);
    (free)(in);

    cut = pt_u(t, n - 1);
    in = (malloc)(cut);
    memcpy(in, sb.data, cut);
    ps = ps_init(in, cut);
    PT_CHECK(t, asn1_skip_field(&ps) < 0, "element cut at %u of %zd accepted",
             cut, n);
    (free)(in);
}

/* integers into a field too small for them */
static void run_ber_int(pt_t *t)
{
    t_scope;
    static const struct { enum obj_type type; int bits; bool s; } ints[] = {
        { ASN1_OBJ_TYPE(int8_t), 8, true },
        { ASN1_OBJ_TYPE(uint8_t), 8, false },
        { ASN1_OBJ_TYPE(int16_t), 16, true },
        { ASN1_OBJ_TYPE(uint16_t), 16, false },
        { ASN1_OBJ_TYPE(int32_t), 32, true },
        { ASN1_OBJ_TYPE(uint32_t), 32, false },
        { ASN1_OBJ_TYPE(int64_t), 64, true },
        { ASN1_OBJ_TYPE(uint64_t), 64, false },
    };
    int k = pt_u(t, countof(ints) - 1);
    i128 v = pt_sbits(t, 64);
    ty_t y = { .kind = K_INT, .type = ints[k].type, .bits = ints[k].bits,
               .is_signed = ints[k].s, .tag = 0x81 };
    asn1_desc_t *d = asn1_desc_new();
    SB_1k(sb);
    pstream_t ps;
    uint64_t out = 0xa5a5a5a5a5a5a5a5;
    int res;

    wipe_g();
    qv_append(&descs_g, d);
    d->type = ASN1_CSTD_TYPE_SEQUENCE;
    d->size = 8;
    reg(d, &y, ASN1_OBJ_MODE(MANDATORY));

    if (pt_p(t, 1, 3)) {
        v = pt_bool(t) ? tmax(&y) + (int)pt_u(t, 3) - 1
                       : tmin(&y) + (int)pt_u(t, 3) - 1;
    } else
    if (pt_p(t, 1, 3)) {
        v = (i128)pt_u(t, UINT64_MAX) * (1 + pt_u(t, 300));
    }
    if (v < 0 && !y.is_signed) {
        v = -v;
    }
    sb_addc(&sb, 0x81);
    ber_int(&sb, v, 0);
    pt_nontrivial(t);
    ps = ps_initsb(&sb);
    res = asn1_unpack_(&ps, d, t_pool(), &out, false);
    if (v < tmin(&y) || v > tmax(&y)) {
        PT_CHECK(t, res < 0, "integer too large for its field accepted");
        pt_label(t, "too large");
    } else {
        PT_CHECK(t, res >= 0, "integer refused");
        PT_CHECK(t, !memcmp(&out, &v, y.bits / 8), "wrong integer");
    }
}

/* extensions the decoder does not know: choices and enumerations */
static void run_per_ext(pt_t *t)
{
    t_scope;
    ty_t y, sub[12];
    bw_t w = { .bits = 0 };
    int n = 1 + (int)pt_u(t, 10);
    uint64_t idx = pt_p(t, 1, 3) ? pt_u(t, 12)
                 : pt_bool(t) ? (uint64_t)0 - pt_u(t, 14)
                 : pt_bits(t, 64);
    bool is_enum = pt_bool(t);
    int known;
    pstream_t ps;
    char *out = t_new(char, 64);
    int res;

    ber_g = false;
    wipe_g();
    p_clear(&y, 1);
    p_clear(sub, countof(sub));
    pt_nontrivial(t);
    sb_init(&w.sb);
    y.ext_pos = -1;
    if (is_enum) {
        int next = pt_u(t, 6);
        bool has_def = pt_bool(t);

        y.kind = K_SEQ;
        y.size = 64;
        y.sub[0] = &sub[0];
        y.nsub = 1;
        sub[0].kind = K_ENUM;
        sub[0].type = ASN1_OBJ_TYPE(enum);
        sub[0].en = asn1_enum_info_new();
        qv_append(&enums_g, sub[0].en);
        for (int i = 0; i < n; i++) {
            asn1_enum_append(sub[0].en, 10 * i);
        }
        sub[0].en->extended = true;
        for (int i = 0; i < next; i++) {
            asn1_enum_append(sub[0].en, 1000 + 10 * i);
        }
        if (has_def) {
            asn1_enum_info_reg_ext_defval(sub[0].en, 777);
        }
        asn1_enum_info_done(sub[0].en);
        y.desc = build_seq(&y, 1);
        w_bit(&w, 1);
        w_nsnnwn(&w, idx);
        ps = ps_init(w.sb.data, w.sb.len);
        res = t_aper_decode_desc(&ps, y.desc, true, out);
        if (idx < (uint64_t)next) {
            PT_CHECK(t, res >= 0 && *(int *)out == (int)(1000 + 10 * idx),
                     "known extension %ju of %d: %d, value %d",
                     (uintmax_t)idx, next, res, *(int *)out);
        } else
        if (has_def) {
            PT_CHECK(t, res >= 0 && *(int *)out == 777,
                     "unknown extension %ju of %d: %d, value %d instead of "
                     "the default one", (uintmax_t)idx, next, res,
                     *(int *)out);
        } else {
            PT_CHECK(t, res < 0, "unknown extension %ju of %d accepted",
                     (uintmax_t)idx, next);
        }
    } else {
        y.kind = K_CHOICE;
        y.size = 64;
        y.nsub = n;
        y.ext_pos = 1 + pt_u(t, n - 1);
        for (int i = 0; i < n; i++) {
            y.sub[i] = &sub[i];
            sub[i].kind = K_STR;
            sub[i].type = ASN1_OBJ_TYPE(lstr_t);
            sub[i].max = SIZE_MAX;
            sub[i].off = 8;
            sub[i].tag = 1 + i;
        }
        known = n - y.ext_pos;
        y.desc = build_choice(&y, n);
        w_bit(&w, 1);
        w_nsnnwn(&w, idx);
        w_ulen(&w, 3);
        w_bytes(&w, (const uint8_t *)"\2ab", 3);
        ps = ps_init(w.sb.data, w.sb.len);
        res = t_aper_decode_desc(&ps, y.desc, true, out);
        if (idx < (uint64_t)known) {
            PT_CHECK(t, res >= 0 && *(int *)out == (int)(y.ext_pos + idx + 1)
                     && lstr_equal(*(lstr_t *)(out + 8), LSTR("ab")),
                     "known extension %ju of %d", (uintmax_t)idx, known);
        } else {
            PT_CHECK(t, res < 0, "unknown alternative %ju of %d accepted "
                     "as %d", (uintmax_t)idx, known, *(int *)out);
        }
    }
    sb_wipe(&w.sb);
}

static void run_oid(pt_t *t)
{
    t_scope;
    int n = pt_u(t, 12);
    uint8_t *oid = (malloc)(n);
    SB_1k(exp);
    const char *s;

    pt_bytes(t, oid, n);
    for (int i = 0; i < n; i++) {
        sb_addf(&exp, "%s%d", i ? "." : "", oid[i]);
    }
    if (n > 1) {
        pt_nontrivial(t);
    }
    s = t_asn1_oid_print(LSTR_INIT_V((const char *)oid, n));
    PT_CHECK(t, strequal(s, exp.data), "`%s`, expected `%s`", s, exp.data);
    (free)(oid);

    /* bit fields as bit strings */
    {
        uint64_t bf = pt_bits(t, 64);
        int min = pt_u(t, 64);
        asn1_bit_string_t bs = t_asn1_bstring_from_bf64(bf, min);
        int len = nbits(bf);

        PT_CHECK(t, bs.bit_len == MAX(len, min), "%d bits, expected %d",
                 bs.bit_len, MAX(len, min));
        for (int i = 0; i < bs.bit_len; i++) {
            PT_CHECK(t, ((bs.data[i / 8] >> (7 - i % 8)) & 1)
                     == ((bf >> i) & 1), "bit %d of %jx", i, (uintmax_t)bf);
        }
    }
}

void pt_setup(void)
{
    aper_set_decode_log_level(9);
    e_set_verbosity(-1);
}

const pt_target_t pt_targets[] = {
    { "per", run_per, 30000, 3000000, 20 },
    { "per_bad", run_per_bad, 40000, 3000000, 20 },
    { "ber", run_ber, 40000, 3000000, 20 },
    { "ber_bad", run_ber_bad, 40000, 3000000, 20 },
    { "tlv", run_tlv, 30000, 1000000, 20 },
    { "per_ext", run_per_ext, 20000, 500000, 20 },
    { "oid", run_oid, 20000, 300000, 20 },
    { "ber_int", run_ber_int, 20000, 500000, 20 },
};
const int pt_targets_len = 8;
