/* {{{ paths on the model */

typedef struct seg_t {
    const iop_struct_t *in;     /* type the field is looked up in */
    const iop_field_t *f;       /* NULL: _class */
    const iop_struct_t *cast;
    enum { NOIDX, IDX, WILD, LEN } ix;
    int idx;
} seg_t;

typedef struct path_t {
    seg_t s[12];
    int n;
    bool wild, cls, dyn;
    char str[600];
} path_t;

typedef struct res_t {
    enum { R_VAL, R_ARR, R_LEN, R_CLS } kind;
    const iop_field_t *f;
    const iop_struct_t *st;     /* the structure that holds the field */
    const mfld_t *o;
    int j;
    const mst_t *obj;
} res_t;

static int find_in(const mst_t *m, const iop_field_t *f, const iop_struct_t **st)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        if (f >= lv[l]->fields && f < lv[l]->fields + lv[l]->fields_len) {
            *st = lv[l];
            return k + (f - lv[l]->fields);
        }
        k += lv[l]->fields_len;
    }
    return -1;
}

static bool is_a(const iop_struct_t *d, const iop_struct_t *p)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(d, lv);

    for (int l = 0; l < nl; l++) if (lv[l] == p) return true;
    return false;
}

static void eval(const mst_t *m, const path_t *p, int i, res_t *out, int *n, int max)
{
    const seg_t *s = &p->s[i];
    const iop_struct_t *st = NULL;
    bool last = i == p->n - 1;
    const mfld_t *o;
    int k, from, to;

    if (s->cast && !is_a(m->desc, s->cast)) return;
    if (!s->f) {
        if (*n < max) out[(*n)++] = (res_t){ .kind = R_CLS, .obj = m };
        return;
    }
    k = find_in(m, s->f, &st);
    if (k < 0) return;
    if (m->desc->is_union && k != m->sel) return;
    o = &m->f[k];
    if (s->ix == LEN) {
        if (*n < max) out[(*n)++] = (res_t){ .kind = R_LEN, .f = s->f, .st = st, .o = o };
        return;
    }
    if (s->f->repeat == IOP_R_REPEATED && s->ix == NOIDX) {
        if (o->n && *n < max) out[(*n)++] = (res_t){ .kind = R_ARR, .f = s->f, .st = st, .o = o };
        return;
    }
    from = 0;
    to = o->n;
    if (s->ix == IDX) {
        from = s->idx < 0 ? o->n + s->idx : s->idx;
        if (from < 0 || from >= o->n) return;
        to = from + 1;
    }
    /* a required void is there although it holds nothing */
    if (s->f->type == IOP_T_VOID && s->f->repeat == IOP_R_REQUIRED) to = 1;
    for (int j = from; j < to; j++) {
        if (last) {
            if (*n < max) out[(*n)++] = (res_t){ .kind = R_VAL, .f = s->f, .st = st, .o = o, .j = j };
        } else {
            eval(o->v[j].st, p, i + 1, out, n, max);
        }
    }
}

/* what the C pointer given for a result should hold */
static void check_res(pt_t *t, const res_t *r, const void *ptr)
{
    mval_t v;

    switch (r->kind) {
      case R_CLS:
        PT_CHECK(t, lstr_equal(*(const lstr_t *)ptr, r->obj->desc->fullname),
                 "class name %.*s", ((const lstr_t *)ptr)->len, ((const lstr_t *)ptr)->s);
        return;
      case R_LEN:
        PT_CHECK(t, *(const int *)ptr == r->o->n, "length %d, expected %d", *(const int *)ptr, r->o->n);
        return;
      case R_ARR: {
        const lstr_t *a = ptr;

        PT_CHECK(t, a->len == r->o->n, "array of %d, expected %d", a->len, r->o->n);
        for (int j = 0; j < a->len; j++) {
            const char *e = (const char *)a->v + (size_t)j * val_size(r->f);

            if (is_st(r->f)) {
                m_check_c(t, r->o->v[j].st, field_is_class(r->f) ? *(void *const *)e : e,
                          "array element");
            } else {
                get_scalar(r->f->type, e, &v);
                PT_CHECK(t, scalar_eq(r->f->type, &v, &r->o->v[j]), "element %d is %llx", j,
                         (long long)v.u);
            }
        }
        return;
      }
      case R_VAL:
        if (r->f->type == IOP_T_VOID) return;
        if (is_st(r->f)) {
            m_check_c(t, r->o->v[r->j].st, ptr, "value");
        } else {
            get_scalar(r->f->type, ptr, &v);
            PT_CHECK(t, scalar_eq(r->f->type, &v, &r->o->v[r->j]), "value is %llx, expected %llx",
                     (long long)v.u, (long long)r->o->v[r->j].u);
        }
    }
}

static void seg_print(path_t *p, const seg_t *s, bool first)
{
    size_t l = strlen(p->str);
    char *b = p->str + l;
    size_t sz = sizeof(p->str) - l;

#define ADD(...)  do { int n_ = (snprintf)(b, sz, __VA_ARGS__); b += n_; sz -= n_; } while (0)
    if (!first) ADD(".");
    if (s->cast) ADD("<%.*s>", s->cast->fullname.len, s->cast->fullname.s);
    if (!s->f) { ADD("_class"); return; }
    ADD("%.*s", s->f->name.len, s->f->name.s);
    switch (s->ix) {
      case IDX: ADD("[%d]", s->idx); break;
      case WILD: ADD("[*]"); break;
      case LEN: ADD(".len"); break;
      default: break;
    }
}

/* a path that is legal for the type; `m` (may be NULL) guides the choices so
 * that it often leads somewhere */
enum { NO_WILD = 1, NO_CLS = 2, NO_LEN = 4, DYN = 8, NO_CAST = 16 };
static void gen_path(pt_t *t, path_t *p, const iop_struct_t *d, const mst_t *m, int fl)
{
    p_clear(p, 1);
    for (;;) {
        seg_t *s = &p->s[p->n];
        const iop_struct_t *lv[16], *in = d;
        int nl, nf = 0, k, j = -1;
        bool cls = st_is_class(d), more;
        const mfld_t *o = NULL;

        p_clear(s, 1);
        if (cls && !(fl & NO_CAST) && P(35)) {
            const iop_struct_t *subs[32];
            int n = vt_subclasses(d, subs, 32);

            s->cast = m && P(60) ? m->desc : subs[U(n)];
            in = s->cast;
        } else if (cls && (fl & DYN) && m) {
            in = m->desc;
            p->dyn |= in != d;
        }
        s->in = in;
        nl = st_levels(in, lv);
        for (int l = 0; l < nl; l++) nf += lv[l]->fields_len;
        if (cls && !(fl & NO_CLS) && (!nf || P(8))) {
            p->n++;
            p->cls = true;
            seg_print(p, s, p->n == 1);
            return;
        }
        if (!nf) {
            /* a structure without fields: stop before */
            if (p->n) {
                return;
            }
            p->n = 0;
            return;
        }
        k = U(nf);
        if (in->is_union && m && P(70)) k = m->sel;
        for (int l = 0; l < nl; l++) {
            if (k < lv[l]->fields_len) {
                s->f = &lv[l]->fields[k];
                break;
            }
            k -= lv[l]->fields_len;
        }
        if (m) {
            const iop_struct_t *st;
            int pos = find_in(m, s->f, &st);

            if (pos >= 0 && (!m->desc->is_union || pos == m->sel)) o = &m->f[pos];
        }
        more = p->n < 9 && is_st(s->f) && P(85);
        if (s->f->repeat == IOP_R_REPEATED) {
            if (!(fl & NO_LEN) && P(12)) {
                s->ix = LEN;
                more = false;
            } else if (!(fl & NO_WILD) && P(35)) {
                s->ix = WILD;
                p->wild = true;
            } else if (more || P(50)) {
                s->ix = IDX;
                s->idx = o && o->n && P(85) ? (int)U(o->n) : (int)U(3);
                if (P(40)) s->idx = o && o->n ? s->idx - o->n : -1 - s->idx;
            } else {
                more = false;
            }
            if (s->ix == IDX) j = o && o->n ? (s->idx < 0 ? o->n + s->idx : s->idx) : 0;
            else j = 0;
        } else {
            j = 0;
        }
        if (more && !st_is_class(s->f->u1.st_desc) && !s->f->u1.st_desc->fields_len)
            more = false;
        if (more && st_is_class(s->f->u1.st_desc) && (fl & NO_CLS)) {
            int tot = 0;

            nl = st_levels(s->f->u1.st_desc, lv);
            for (int l = 0; l < nl; l++) tot += lv[l]->fields_len;
            if (!tot) more = false;
        }
        p->n++;
        seg_print(p, s, p->n == 1);
        if (!more) return;
        d = s->f->u1.st_desc;
        m = o && j >= 0 && j < o->n ? o->v[j].st : NULL;
    }
}

/* }}} */
/* {{{ path */

static void t_path(pt_t *t)
{
    t_scope;
    mgen_t g = { .t = t, .budget = 30 + U(100), .known_enums = true };
    const iop_struct_t *d = pick_type(t);
    mst_t *m;
    void *c;
    SB_1k(err);

    ar_reset();
    m = mgen(&g, d);
    c = m_to_c(m);
    m_note(t, "value", m);
    for (int rnd = 0; rnd < 4; rnd++) {
        path_t p;
        res_t exp[600];
        int n = 0;
        __block int got = 0;
        int stop, r;
        const iop_field_path_t *fp;
        iop_full_type_t type, ety;
        bool arr, earr;
        const seg_t *last;
        bool heap = P(20);

        gen_path(t, &p, d, m, 0);
        if (!p.n) return;
        pt_note(t, "path %s", p.str);
        eval(m, &p, 0, exp, &n, countof(exp));
        if (n == countof(exp)) return;
        if (n) pt_nontrivial(t);
        fp = heap ? iop_field_path_compile(d, LSTR(p.str), &err)
                  : t_iop_field_path_compile(d, LSTR(p.str), &err);
        PT_CHECK(t, fp, "path refused: %.*s", err.len, err.data);
        stop = P(15) ? (int)U(3) : -1;
        {
            const res_t *e = exp;

            r = iop_field_path_for_each_value(fp, c, ^int (const void *ptr) {
                PT_CHECK(t, got < n, "more than %d values", n);
                check_res(t, &e[got], ptr);
                return got++ == stop ? -1 : 0;
            });
        }
        if (stop >= 0 && stop < n) {
            PT_CHECK(t, r == -1 && got == stop + 1, "stop at %d of %d: %d, %d calls", stop, n, r, got);
        } else {
            PT_CHECK(t, r == 0 && got == n, "%d values of %d (returned %d)", got, n, r);
        }
        /* type */
        last = &p.s[p.n - 1];
        ety = IOP_FTYPE_STRING;
        earr = false;
        if (last->f && last->ix == LEN) {
            ety = IOP_FTYPE_I32;
        } else if (last->f) {
            p_clear(&ety, 1);
            ety.type = last->f->type;
            if (is_st(last->f)) ety.st = last->f->u1.st_desc;
            if (last->f->type == IOP_T_ENUM) ety.en = last->f->u1.en_desc;
            earr = last->f->repeat == IOP_R_REPEATED && last->ix == NOIDX;
        }
        iop_field_path_get_type(fp, &type, &arr);
        PT_CHECK(t, arr == earr && iop_full_type_equal(&type, &ety), "type of the path");
        if (heap) iop_field_path_delete(&fp);
        if (!p.wild && n) {
            sb_reset(&err);
            r = iop_obj_get_field_type(d, c, LSTR(p.str), &type, &arr, &err);
            PT_CHECK(t, r >= 0, "iop_obj_get_field_type: %.*s", err.len, err.data);
            PT_CHECK(t, arr == earr && iop_full_type_equal(&type, &ety), "type of the path in the value");
        }
    }
}

/* iop_get_field: paths with the fields of the real classes */
static void t_get(pt_t *t)
{
    t_scope;
    mgen_t g = { .t = t, .budget = 30 + U(100), .known_enums = true };
    const iop_struct_t *d = pick_type(t);
    mst_t *m;
    void *c;

    ar_reset();
    m = mgen(&g, d);
    c = m_to_c(m);
    m_note(t, "value", m);
    for (int rnd = 0; rnd < 4; rnd++) {
        path_t p;
        res_t exp[4];
        int n = 0;
        const void *ptr = NULL;
        const iop_struct_t *st = NULL;
        const iop_field_t *f;
        const seg_t *last;
        const mst_t *cur = m;
        const mfld_t *o = NULL;
        const iop_struct_t *est = NULL;
        int j = 0;
        bool found = true;

        gen_path(t, &p, d, m, NO_WILD | NO_CLS | NO_LEN | DYN);
        if (!p.n) return;
        pt_note(t, "path %s", p.str);
        last = &p.s[p.n - 1];
        /* every step but the last has to be there; the last one is returned
         * even when it holds nothing */
        for (int i = 0; i < p.n && found; i++) {
            const seg_t *s = &p.s[i];
            int k;

            if (s->cast && !is_a(cur->desc, s->cast)) { found = false; break; }
            k = find_in(cur, s->f, &est);
            if (k < 0 || (cur->desc->is_union && k != cur->sel)) { found = false; break; }
            o = &cur->f[k];
            j = 0;
            if (s->ix == IDX) {
                j = s->idx < 0 ? o->n + s->idx : s->idx;
                if (j < 0 || j >= o->n) { found = false; break; }
            }
            if (i < p.n - 1) {
                if (j >= o->n) { found = false; break; }
                cur = o->v[j].st;
            }
        }
        if (found) pt_nontrivial(t);
        f = iop_get_field_const(c, d, LSTR(p.str), &ptr, &st);
        if (!found) {
            PT_CHECK(t, !f, "field %.*s found where there is none", f->name.len, f->name.s);
            continue;
        }
        PT_CHECK(t, f == last->f, "field not found");
        PT_CHECK(t, st == est, "structure of the field");
        if (f->type == IOP_T_VOID) continue;
        if (f->repeat == IOP_R_REPEATED && last->ix == NOIDX) {
            const lstr_t *a = ptr;

            PT_CHECK(t, a->len == o->n, "array of %d, expected %d", a->len, o->n);
            exp[0] = (res_t){ .kind = R_ARR, .f = f, .o = o };
            check_res(t, &exp[0], ptr);
        } else if (o->n) {
            exp[0] = (res_t){ .kind = R_VAL, .f = f, .o = o, .j = j };
            if (is_st(f) && (f->repeat == IOP_R_OPTIONAL || field_is_ref(f) || field_is_class(f)))
                ptr = *(void *const *)ptr;
            check_res(t, &exp[0], ptr);
        }
        IGNORE(n);
    }
}

/* }}} */
/* {{{ accessors of one field */

static void t_field(pt_t *t)
{
    t_scope;
    mgen_t g = { .t = t, .budget = 20 + U(60), .known_enums = true };
    const iop_struct_t *d = pick_type(t);
    const iop_struct_t *lv[16];
    mst_t *m;
    void *c;
    int nl, k = 0;

    ar_reset();
    m = mgen(&g, d);
    c = m_to_c(m);
    m_note(t, "value", m);
    if (m_count(m) >= 4) pt_nontrivial(t);
    nl = st_levels(m->desc, lv);
    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            mfld_t *o = &m->f[k];
            const iop_struct_t *fst = NULL;
            const iop_field_t *ff = NULL;
            const void *vals = NULL;
            int len = -1, pos;
            bool ptrs = false;
            iop_value_t v;
            iop_value_from_field_res_t r;

            pos = iop_field_find_by_name(m->desc, f->name, &fst, &ff);
            PT_CHECK(t, pos == k && fst == lv[l] && ff == f, "field %.*s found at %d of %.*s",
                     f->name.len, f->name.s, pos, fst ? fst->fullname.len : 0,
                     fst ? fst->fullname.s : "");
            if (m->desc->is_union && i != m->sel) continue;
            iop_get_field_values_const(f, c, &vals, &len, &ptrs);
            if (f->type == IOP_T_VOID && f->repeat == IOP_R_REQUIRED) {
                PT_CHECK(t, len == 0, "void field with %d values", len);
            } else {
                PT_CHECK(t, len == o->n, "%.*s: %d values, expected %d", f->name.len, f->name.s, len, o->n);
                PT_CHECK(t, ptrs == (f->repeat == IOP_R_REPEATED && field_is_class(f)), "is_array_of_pointers");
                for (int j = 0; j < len && f->type != IOP_T_VOID; j++) {
                    const char *e = (const char *)vals + (size_t)j * val_size(f);
                    res_t x = { .kind = R_VAL, .f = f, .o = o, .j = j };

                    check_res(t, &x, ptrs ? *(void *const *)e : e);
                }
            }
            if (f->type == IOP_T_VOID) continue;
            r = iop_value_from_field(c, f, &v);
            if (f->repeat == IOP_R_REPEATED) {
                PT_CHECK(t, r == IOP_FIELD_ERROR, "value of an array");
            } else if (!o->n) {
                PT_CHECK(t, r == IOP_FIELD_NOT_SET, "value of an absent field");
            } else {
                PT_CHECK(t, r == 0, "no value for %.*s", f->name.len, f->name.s);
                if (is_st(f)) {
                    m_check_c(t, o->v->st, v.p, "iop_value_from_field");
                } else if (is_str(f)) {
                    mval_t x = { .s = (uint8_t *)v.s.s, .len = v.s.len };

                    PT_CHECK(t, scalar_eq(f->type, &x, o->v), "string value");
                } else if (f->type == IOP_T_DOUBLE) {
                    PT_CHECK(t, !memcmp(&v.d, &o->v->d, 8), "double value");
                } else if (f->type == IOP_T_ENUM || f->type == IOP_T_I32) {
                    PT_CHECK(t, v.i == (int32_t)o->v->i, "value %lld", (long long)v.i);
                } else {
                    PT_CHECK(t, v.u == o->v->u, "value of %.*s: %lld", f->name.len, f->name.s, (long long)v.i);
                }
            }
            /* write another value */
            if (!is_st(f) && P(40)) {
                mval_t nv = o->n ? o->v[0] : blank(f);

                edit_scalar(t, f, &nv, false);
                if (is_str(f)) v.s = LSTR_INIT_V((char *)nv.s, nv.len);
                else if (f->type == IOP_T_DOUBLE) v.d = nv.d;
                else if (f->type == IOP_T_BOOL) { v.u = 0; v.b = nv.u; }
                else v.u = nv.u;
                if (f->repeat == IOP_R_REPEATED) {
                    int at;

                    if (!o->n) continue;
                    at = U(o->n);
                    PT_CHECK(t, iop_value_to_repeated_field(c, f, at, &v) >= 0,
                             "write of element %d of %d", at, o->n);
                    o->v[at] = nv;
                } else {
                    iop_value_to_field(c, f, &v);
                    if (!o->n) {
                        o->n = 1;
                        o->v = ar_alloc(sizeof(mval_t));
                    }
                    o->v[0] = nv;
                }
                m_check_c(t, m, c, "after writing a field");
            }
        }
    }
}

/* }}} */
/* {{{ sort and filter */

static int icmp_val(const iop_field_t *f, const mval_t *a, const mval_t *b)
{
    switch (f->type) {
      case IOP_T_STRING: case IOP_T_XML:
        return lstr_utf8_icmp(LSTR_INIT_V((char *)a->s, a->len), LSTR_INIT_V((char *)b->s, b->len));
      case IOP_T_DATA: {
        int l = a->len < b->len ? a->len : b->len;
        int r = l ? memcmp(a->s, b->s, l) : 0;

        return r ?: CMP(a->len, b->len);
      }
      case IOP_T_DOUBLE: return CMP(a->d, b->d);
      case IOP_T_ENUM: return CMP((int32_t)a->i, (int32_t)b->i);
      case IOP_T_U64: return CMP(a->u, b->u);
      case IOP_T_STRUCT: case IOP_T_UNION: {
        const iop_struct_t *d = f->u1.st_desc;

        return iop_cmp_desc(d, m_to_c(a->st), m_to_c(b->st));
      }
      case IOP_T_VOID: return 0;
      default: return CMP(a->i, b->i);
    }
}

static int cmp_res(const res_t *a, const res_t *b)
{
    switch (a->kind) {
      case R_CLS: return lstr_utf8_icmp(a->obj->desc->fullname, b->obj->desc->fullname);
      case R_LEN: return CMP(a->o->n, b->o->n);
      case R_VAL: return icmp_val(a->f, &a->o->v[a->j], &b->o->v[b->j]);
      case R_ARR:
        for (int i = 0; i < a->o->n && i < b->o->n; i++) {
            int r = icmp_val(a->f, &a->o->v[i], &b->o->v[i]);
            if (r) return r;
        }
        return CMP(a->o->n, b->o->n);
    }
    return 0;
}

static int gen_vec(pt_t *t, const iop_struct_t *d, mst_t **m, int max)
{
    mgen_t g = { .t = t, .budget = 30 + U(50), .utf8 = true, .finite = true, .known_enums = true };
    int n = U(max + 1);

    for (int i = 0; i < n; i++) {
        g.budget = 10 + U(30);
        if (i && P(60)) {
            int e = U(4);

            m[i] = m_clone(m[U(i)]);
            g.budget = 6;
            while (e-- > 0) m_edit(&g, m[i]);
        } else {
            m[i] = mgen(&g, d);
        }
    }
    return n;
}

#define MAXV  14
static char *vec_of(const iop_struct_t *d, mst_t **m, int n)
{
    bool cls = st_is_class(d);
    size_t sz = cls ? sizeof(void *) : d->size;
    char *vec = ar_alloc(n * sz);

    for (int i = 0; i < n; i++) {
        void *c = m_to_c(m[i]);

        if (cls) ((void **)vec)[i] = c; else memcpy(vec + i * sz, c, sz);
    }
    return vec;
}

static const iop_struct_t *pick_vec_type(pt_t *t)
{
    const iop_struct_t *d = pick_type(t);

    return d->size ? d : &vt__rep__s;
}

static void t_sort(pt_t *t)
{
    t_scope;
    const iop_struct_t *d = pick_vec_type(t);
    mst_t *m[MAXV];
    path_t p[3];
    int fl[3], np = 1 + (P(40) ? 1 + U(2) : 0), n, r;
    size_t sz = st_is_class(d) ? sizeof(void *) : d->size;
    char *vec, *orig;
    int perm[MAXV];
    bool used[MAXV] = { false }, ok = true;
    qv_t(iop_sort) prm;
    SB_1k(err);

    ar_reset();
    n = gen_vec(t, d, m, MAXV);
    vec = vec_of(d, m, n);
    orig = ar_dup(vec, n * sz);
    t_qv_init(&prm, 3);
    for (int i = 0; i < np; i++) {
        const seg_t *last;

        gen_path(t, &p[i], d, n ? m[U(n)] : NULL, NO_WILD);
        if (!p[i].n) return;
        fl[i] = U(4);
        pt_note(t, "sort on %s flags %d", p[i].str, fl[i]);
        qv_append(&prm, ((iop_sort_t){ .field_path = LSTR(p[i].str), .flags = fl[i] }));
        last = &p[i].s[p[i].n - 1];
        if (last->f && last->f->type == IOP_T_VOID && last->f->repeat == IOP_R_REQUIRED) ok = false;
    }
    for (int i = 0; i < n; i++) m_note(t, "element", m[i]);
    if (n > 1) pt_nontrivial(t);
    if (np == 1 && P(50)) r = iop_sort_desc(d, vec, n, LSTR(p[0].str), fl[0], &err);
    else r = iop_msort_desc(d, vec, n, &prm, &err);
    PT_CHECK(t, (r >= 0) == ok, "sort: %d %.*s", r, err.len, err.data);
    for (int i = 0; i < n; i++) {
        perm[i] = -1;
        for (int j = 0; j < n; j++) {
            if (!used[j] && !memcmp(vec + i * sz, orig + j * sz, sz)) {
                used[j] = true;
                perm[i] = j;
                break;
            }
        }
        PT_CHECK(t, perm[i] >= 0, "element %d of the result is not one of the vector", i);
    }
    if (!ok) return;
    for (int i = 0; i + 1 < n; i++) {
        for (int k = 0; k < np; k++) {
            res_t a, b;
            int na = 0, nb = 0, c;

            eval(m[perm[i]], &p[k], 0, &a, &na, 1);
            eval(m[perm[i + 1]], &p[k], 0, &b, &nb, 1);
            if (na && nb) {
                c = cmp_res(&a, &b);
                if (fl[k] & IOP_SORT_REVERSE) c = -c;
            } else {
                c = na == nb ? 0 : (na < nb) == !!(fl[k] & IOP_SORT_NULL_FIRST) ? -1 : 1;
            }
            PT_CHECK(t, c <= 0, "elements %d and %d (from %d and %d) out of order for key %d",
                     i, i + 1, perm[i], perm[i + 1], k);
            if (c) break;
        }
    }
}

static bool val_eq(const iop_field_t *f, const mval_t *a, const mval_t *b, bool like)
{
    if (f->type == IOP_T_UNION) return a->st->sel == b->st->sel;
    if (f->type == IOP_T_STRING && like)
        return lstr_utf8_is_ilike(LSTR_INIT_V((char *)a->s, a->len), LSTR_INIT_V((char *)b->s, b->len));
    return icmp_val(f, a, b) == 0;
}

static void t_filter(pt_t *t)
{
    t_scope;
    const iop_struct_t *d = pick_vec_type(t);
    mst_t *m[MAXV];
    path_t p;
    int n, r, nv = 0, ngot, want = 0;
    size_t sz = st_is_class(d) ? sizeof(void *) : d->size;
    char *vec, *orig;
    bool keep[MAXV], ok = true, opt = P(30), is_set = P(50);
    unsigned fl = U(4);
    const seg_t *last;
    void *vals[6];
    res_t rv[6];
    mval_t mv[6];
    int ints[6];
    lstr_t strs[6];
    int api = U(3);
    byte *bm = NULL;
    bool prev[MAXV];
    SB_1k(err);

    ar_reset();
    n = gen_vec(t, d, m, MAXV);
    vec = vec_of(d, m, n);
    orig = ar_dup(vec, n * sz);
    gen_path(t, &p, d, n ? m[U(n)] : NULL, NO_WILD);
    if (!p.n) return;
    last = &p.s[p.n - 1];
    pt_note(t, "filter on %s flags %d opt %d is_set %d api %d", p.str, fl, opt, is_set, api);
    for (int i = 0; i < n; i++) m_note(t, "element", m[i]);
    if (n > 1) pt_nontrivial(t);
    if (opt) {
        if (last->f && last->ix != LEN && last->f->repeat != IOP_R_OPTIONAL
        &&  last->f->repeat != IOP_R_REPEATED)
            ok = false;
    } else {
        if (last->f && last->ix != LEN
        &&  (last->f->type == IOP_T_STRUCT || last->f->type == IOP_T_VOID))
            ok = false;
        /* values out of the elements, sometimes edited */
        for (int k = U(5); k > 0 && n && ok; k--) {
            int cnt = 0;

            eval(m[U(n)], &p, 0, &rv[nv], &cnt, 1);
            if (!cnt) continue;
            switch (rv[nv].kind) {
              case R_CLS:
                strs[nv] = rv[nv].obj->desc->fullname;
                vals[nv] = &strs[nv];
                break;
              case R_LEN:
                ints[nv] = rv[nv].o->n + (P(20) ? 1 : 0);
                vals[nv] = &ints[nv];
                break;
              default:
                mv[nv] = rv[nv].o->v[rv[nv].kind == R_ARR ? (int)U(rv[nv].o->n) : rv[nv].j];
                if (is_st(last->f)) {
                    vals[nv] = m_to_c(mv[nv].st);
                } else {
                    if (P(25)) edit_scalar(t, last->f, &mv[nv], true);
                    if (last->f->type == IOP_T_STRING && (fl & IOP_FILTER_SQL_LIKE) && mv[nv].len
                    &&  P(50))
                    {
                        uint8_t *s = ar_dup(mv[nv].s, mv[nv].len);
                        bool ascii = true;

                        for (int i = 0; i < mv[nv].len; i++) ascii &= s[i] < 0x80;
                        if (ascii) {
                            s[U(mv[nv].len)] = P(50) ? '%' : '_';
                            mv[nv].s = s;
                        }
                    }
                    vals[nv] = ar_alloc(sizeof(lstr_t) + 8);
                    put_scalar(last->f->type, vals[nv], &mv[nv]);
                }
            }
            nv++;
        }
    }
    for (int i = 0; i < n; i++) {
        res_t e;
        int cnt = 0;
        bool match = false;

        eval(m[i], &p, 0, &e, &cnt, 1);
        if (opt) {
            keep[i] = (cnt > 0) == is_set;
            continue;
        }
        for (int k = 0; k < nv && cnt && ok; k++) {
            switch (e.kind) {
              case R_CLS: match |= lstr_utf8_icmp(e.obj->desc->fullname, strs[k]) == 0; break;
              case R_LEN: match |= e.o->n == ints[k]; break;
              case R_VAL:
                match |= val_eq(e.f, &e.o->v[e.j], &mv[k], fl & IOP_FILTER_SQL_LIKE);
                break;
              case R_ARR:
                for (int j = 0; j < e.o->n; j++)
                    match |= val_eq(e.f, &e.o->v[j], &mv[k], fl & IOP_FILTER_SQL_LIKE);
                break;
            }
        }
        if (e.kind == R_CLS && cnt && (fl & IOP_FILTER_SQL_LIKE)) {
            match = false;
            for (int k = 0; k < nv; k++)
                match |= lstr_utf8_is_ilike(e.obj->desc->fullname, strs[k]);
        }
        keep[i] = match != !!(fl & IOP_FILTER_INVERT_MATCH);
    }
    if (api == 0) {
        ngot = n;
        if (opt) r = iop_filter_opt(d, vec, &ngot, LSTR(p.str), is_set, &err);
        else r = iop_filter(d, vec, &ngot, LSTR(p.str), vals, nv, fl, &err);
    } else {
        /* on top of an earlier filter */
        iop_filter_bitmap_op_t op = P(50) ? BITMAP_OP_AND : BITMAP_OP_OR;

        if (api == 2) {
            path_t p2;

            gen_path(t, &p2, d, n ? m[U(n)] : NULL, NO_WILD);
            if (!p2.n || t_iop_filter_opt_bitmap(d, vec, n, LSTR(p2.str), true,
                                                 BITMAP_OP_AND, &bm, NULL) < 0)
            {
                bm = NULL;
            }
        }
        for (int i = 0; i < n; i++) prev[i] = bm ? !!TST_BIT(bm, i) : false;
        if (bm) {
            for (int i = 0; i < n; i++)
                keep[i] = op == BITMAP_OP_AND ? keep[i] && prev[i] : keep[i] || prev[i];
        }
        ngot = n;
        if (opt) r = t_iop_filter_opt_bitmap(d, vec, n, LSTR(p.str), is_set, op, &bm, &err);
        else r = t_iop_filter_bitmap(d, vec, n, LSTR(p.str), vals, nv, fl, op, &bm, &err);
        if (r >= 0) {
            for (int i = 0; i < n; i++)
                PT_CHECK(t, !!TST_BIT(bm, i) == keep[i], "bit %d of the filter is %d", i, !keep[i]);
            iop_filter_bitmap_apply(d, vec, &ngot, bm);
        }
    }
    PT_CHECK(t, (r >= 0) == ok, "filter: %d %.*s", r, err.len, err.data);
    if (!ok) return;
    for (int i = 0; i < n; i++) {
        if (!keep[i]) continue;
        PT_CHECK(t, want < ngot, "element %d lost (%d kept)", i, ngot);
        PT_CHECK(t, !memcmp(vec + want * sz, orig + i * sz, sz), "element %d is not at %d", i, want);
        want++;
    }
    PT_CHECK(t, want == ngot, "%d elements kept, expected %d", ngot, want);
}

/* }}} */
/* {{{ walks */

typedef struct ev_t { const iop_struct_t *st; const iop_field_t *f; const mst_t *m; char path[200]; } ev_t;
static ev_t evs[4000];
static int nev;
static uint64_t skips[64], stop_at;
static int mode; /* 0: fields, 1: structures, 2: objects */

/* false: stopped */
static bool ev_add(const iop_struct_t *st, const iop_field_t *f, const mst_t *m, const char *path,
                   bool *skip)
{
    ev_t *e = &evs[nev];

    e->st = st;
    e->f = f;
    e->m = m;
    (snprintf)(e->path, sizeof(e->path), "%s", path);
    *skip = skips[nev / 64 % 64] >> nev % 64 & 1;
    return (uint64_t)nev++ != stop_at && nev < countof(evs) - 1;
}

static bool walk_ref(const mst_t *m, const char *path, bool pointed)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv);
    bool skip = false;

    if (mode == 1 || (mode == 2 && st_is_class(m->desc) && pointed)) {
        if (!ev_add(m->desc, NULL, m, path, &skip)) return false;
        if (skip) return true;
    }
    for (int l = nl - 1; l >= 0; l--) {
        int k = 0;

        for (int x = 0; x < l; x++) k += lv[x]->fields_len;
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];
            char sub[200];

            if (m->desc->is_union && i != m->sel) continue;
            (snprintf)(sub, sizeof(sub), "%s%s%.*s", *path == '<' ? "" : path,
                       *path == '<' ? "" : ".", f->name.len, f->name.s);
            if (mode == 0) {
                if (!ev_add(lv[l], f, m, sub, &skip)) return false;
                if (skip) continue;
            }
            if (!is_st(f)) continue;
            for (int j = 0; j < m->f[k].n; j++) {
                char el[220];

                if (f->repeat == IOP_R_REPEATED)
                    (snprintf)(el, 200, "%s[%d]", sub, j);
                else
                    strcpy(el, sub);
                if (!walk_ref(m->f[k].v[j].st, el, true)) return false;
            }
        }
    }
    return true;
}

static void t_walk(pt_t *t)
{
    t_scope;
    mgen_t g = { .t = t, .budget = 20 + U(60), .known_enums = true };
    const iop_struct_t *d = pick_type(t);
    mst_t *m;
    void *c;
    int variant, r, ret = 0;
    bool completed;
    __block int got = 0;
    int code = -2 - (int)U(5);
    const iop_struct_t *arg;

    ar_reset();
    m = mgen(&g, d);
    c = m_to_c(m);
    m_note(t, "value", m);
    memset(skips, 0, sizeof(skips));
    if (P(40)) {
        for (int i = 0; i < 8; i++) skips[i] = pt_u(t, UINT64_MAX) & pt_u(t, UINT64_MAX);
    }
    stop_at = P(20) ? U(40) : UINT64_MAX;
    variant = U(10);
    mode = variant < 4 ? 0 : variant < 8 ? 1 : 2;
    nev = 0;
    completed = walk_ref(m, "<root>", true);
    if (nev >= (int)countof(evs) - 1) return;
    if (nev > 1) pt_nontrivial(t);
    pt_note(t, "variant %d, %d events, stop %d", variant, nev, (int)stop_at);
    arg = st_is_class(d) && P(30) ? NULL : d;

#define ONE(cond_st, cond_f, ptr, pathp)  do {                               \
        const ev_t *e = &evs[got];                                           \
                                                                             \
        PT_CHECK(t, got < nev, "more than %d calls", nev);                   \
        PT_CHECK(t, e->st == (cond_st), "call %d is for %.*s, expected %.*s",\
                 got, (cond_st)->fullname.len, (cond_st)->fullname.s,        \
                 e->st->fullname.len, e->st->fullname.s);                    \
        PT_CHECK(t, e->f == (cond_f), "call %d for another field", got);     \
        if (pathp) {                                                         \
            lstr_t s_ = t_iop_field_stack_to_lstr(pathp);                    \
            PT_CHECK(t, (size_t)s_.len == strlen(e->path)                    \
                     && !memcmp(s_.s, e->path, s_.len),                      \
                     "call %d for path %.*s, expected %s", got, s_.len, s_.s,\
                     e->path);                                               \
        }                                                                    \
        m_check_c(t, e->m, (ptr), "walked value");                           \
        got++;                                                               \
        if (got - 1 == (int)stop_at) return code;                            \
        return skips[(got - 1) / 64 % 64] >> (got - 1) % 64 & 1              \
            ? IOP_FIELD_SKIP : 0;                                            \
    } while (0)

    switch (variant) {
      case 0:
        r = iop_for_each_field(arg, c, ^int (const iop_struct_t *s, const iop_field_t *f, void *p,
                                             const iop_field_stack_t *k) { ONE(s, f, p, k); });
        break;
      case 1:
        r = iop_for_each_field_const(arg, c, ^int (const iop_struct_t *s, const iop_field_t *f,
                                     const void *p, const iop_field_stack_t *k) { ONE(s, f, p, k); });
        break;
      case 2:
        r = iop_for_each_field_fast(arg, c, ^int (const iop_struct_t *s, const iop_field_t *f, void *p)
                                    { ONE(s, f, p, (iop_field_stack_t *)NULL); });
        break;
      case 3:
        r = iop_for_each_field_const_fast(arg, c, ^int (const iop_struct_t *s, const iop_field_t *f,
                                          const void *p) { ONE(s, f, p, (iop_field_stack_t *)NULL); });
        break;
      case 4:
        r = iop_for_each_st(arg, c, ^int (const iop_struct_t *s, void *p, const iop_field_stack_t *k)
                            { ONE(s, NULL, p, k); });
        break;
      case 5:
        r = iop_for_each_st_const(arg, c, ^int (const iop_struct_t *s, const void *p,
                                  const iop_field_stack_t *k) { ONE(s, NULL, p, k); });
        break;
      case 6:
        r = iop_for_each_st_fast(arg, c, ^int (const iop_struct_t *s, void *p)
                                 { ONE(s, NULL, p, (iop_field_stack_t *)NULL); });
        break;
      case 7:
        r = iop_for_each_st_const_fast(arg, c, ^int (const iop_struct_t *s, const void *p)
                                       { ONE(s, NULL, p, (iop_field_stack_t *)NULL); });
        break;
      case 8: {
        void *cc = c;
        r = iop_for_each_obj(arg, &cc, ^int (const iop_struct_t *s, void **p, const iop_field_stack_t *k)
                             { ONE(s, NULL, *p, k); });
        break;
      }
      default: {
        void *cc = c;
        r = iop_for_each_obj_fast(arg, &cc, ^int (const iop_struct_t *s, void **p)
                                  { ONE(s, NULL, *p, (iop_field_stack_t *)NULL); });
        break;
      }
    }
    if (!completed) ret = code;
    PT_CHECK(t, r == ret, "walk returned %d, expected %d", r, ret);
    PT_CHECK(t, got == nev, "%d calls, expected %d", got, nev);
}

/* }}} */
/* {{{ prune */

static void m_prune(mst_t *m)
{
    const iop_struct_t *lv[16];
    int nl = st_levels(m->desc, lv), k = 0;

    for (int l = 0; l < nl; l++) {
        for (int i = 0; i < lv[l]->fields_len; i++, k++) {
            const iop_field_t *f = &lv[l]->fields[i];

            if (lv[l] == &vt__prune__s
            &&  (lstr_equal(f->name, LSTR("a")) || lstr_equal(f->name, LSTR("b"))
              || lstr_equal(f->name, LSTR("v")) || lstr_equal(f->name, LSTR("s"))
              || lstr_equal(f->name, LSTR("obj"))))
            {
                m->f[k].n = 0;
                continue;
            }
            if (m->desc->is_union && i != m->sel) continue;
            if (is_st(f)) {
                for (int j = 0; j < m->f[k].n; j++) m_prune(m->f[k].v[j].st);
            }
        }
    }
}

static void t_prune(pt_t *t)
{
    t_scope;
    mgen_t g = { .t = t, .budget = 30 + U(60), .known_enums = true };
    mst_t *m;
    void *c;

    ar_reset();
    m = mgen(&g, &vt__prune__s);
    c = m_to_c(m);
    m_note(t, "value", m);
    if (m_count(m) >= 4) pt_nontrivial(t);
    iop_prune(&vt__prune__s, c, LSTR("test:light"));
    m_prune(m);
    m_check_c(t, m, c, "pruned value");
}

/* }}} */

const pt_target_t pt_targets[] = {
    { "path", t_path, 200000, 3000000, 0, 200, child_init },
    { "get", t_get, 150000, 2000000, 0, 200, child_init },
    { "field", t_field, 100000, 1500000, 0, 200, child_init },
    { "sort", t_sort, 100000, 1500000, 0, 200, child_init },
    { "filter", t_filter, 150000, 2000000, 0, 200, child_init },
    { "walk", t_walk, 150000, 2000000, 0, 200, child_init },
    { "prune", t_prune, 100000, 1500000, 0, 200, child_init },
};
const int pt_targets_len = 7;
