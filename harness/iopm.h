/* An independent model of IOP values, driven by the type descriptors: the
 * generator, the C materialisation, the comparison with C values and the
 * reference binary encoder of docs/modules/iop/pages/wire-format.adoc. */
#ifndef VERIF_IOPM_H
#define VERIF_IOPM_H

#include <lib-common/core.h>
#include <lib-common/iop.h>
#include "pt.h"

typedef struct mst_t mst_t;
typedef union mval_t {
    int64_t i;
    uint64_t u;
    double d;
    struct { uint8_t *s; int len; };
    mst_t *st;
} mval_t;

typedef struct mfld_t {
    int n;              /* number of values; 0: absent */
    mval_t *v;
} mfld_t;

struct mst_t {
    const iop_struct_t *desc;   /* real class for objects */
    int sel;                    /* union: index of the selected field */
    int nf;                     /* fields of every level, child first */
    mfld_t *f;
};

/* arena, emptied at the beginning of each case */
void *ar_alloc(size_t n);
void *ar_dup(const void *p, size_t n);
void ar_reset(void);

typedef struct mgen_t {
    pt_t *t;
    int budget;         /* values left to generate */
    bool utf8;          /* strings: valid UTF-8 without NUL */
    bool xmlchars;      /* strings: only characters XML can carry */
    bool finite;        /* doubles: finite */
    bool known_enums;   /* only declared enum values */
    bool no_priv;       /* private fields at their default/absent */
    bool simple_xml;    /* xml fields: well-formed fragments */
    int big;            /* 1/big strings are large (0: never) */
    int viol;           /* 1/viol constrained fields violate (0: never) */
    bool violated;      /* out: some constraint is violated */
    char vwhere[128];
} mgen_t;

mst_t *mgen(mgen_t *g, const iop_struct_t *desc);
bool field_is_class(const iop_field_t *f);
bool field_is_ref(const iop_field_t *f);
bool st_is_class(const iop_struct_t *st);
bool field_is_private(const iop_struct_t *st, const iop_field_t *f);
bool field_is_defval(const iop_field_t *f, const mval_t *v);
mval_t field_defval(const iop_field_t *f);
/* the k-th level of an object (0: real class); the struct itself otherwise */
int st_levels(const iop_struct_t *desc, const iop_struct_t **lv);

/* C value, allocated in the arena */
void *m_to_c(const mst_t *m);
/* compares; on difference calls pt_fail with a path */
void m_check_c(pt_t *t, const mst_t *m, const void *c, const char *what);
/* same, but returns the difference or NULL */
const char *m_diff_c(const mst_t *m, const void *c);
bool m_equal(const mst_t *a, const mst_t *b);
void m_read_c(const iop_struct_t *desc, const void *c, mst_t **out);
/* reads every byte reachable from a C value (sanitizers check) and validates
 * lengths, tags, class pointers */
const char *c_walk(const iop_struct_t *desc, const void *c, size_t *nb);

void get_scalar(int type, const void *p, mval_t *v);
void put_scalar(int type, void *p, const mval_t *v);
bool scalar_eq(int type, const mval_t *a, const mval_t *b);
int val_size(const iop_field_t *f);
int union_get_tag(const iop_struct_t *d, const void *p);

typedef struct bb_t { uint8_t *p; size_t len, sz; } bb_t;
void bb_add(bb_t *b, const void *p, size_t n);
static inline void bb_c(bb_t *b, int c) { uint8_t o = c; bb_add(b, &o, 1); }
void bb_le(bb_t *b, uint64_t v, int n);
void bb_s(bb_t *b, const char *s);
void bb_f(bb_t *b, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

/* canonical encoding; flags: IOP_BPACK_SKIP_DEFVAL, IOP_BPACK_SKIP_PRIVATE */
void m_encode(bb_t *out, const mst_t *m, unsigned flags);
/* some other encoding a decoder has to accept, chosen by g->t */
void m_encode_loose(pt_t *t, bb_t *out, const mst_t *m, int *feats);

void e_tag_pub(bb_t *b, int tag, int wt);
void e_int_pub(bb_t *b, int tag, int64_t v);
void e_blk_pub(bb_t *b, int tag, size_t len);

void m_print(bb_t *out, const mst_t *m);
void m_note(pt_t *t, const char *what, const mst_t *m);
int m_count(const mst_t *m);

extern const iop_struct_t *const vt_types[];
extern const int vt_types_len;
extern const iop_struct_t *const vt_cons_types[];
extern const int vt_cons_types_len;
void vt_setup(void);
/* classes that may stand for `desc` */
int vt_subclasses(const iop_struct_t *desc, const iop_struct_t **out, int max);

#endif
