/* template: NAME, T, MK, EQ */
#define N2(a,b) a##b
#define N1(a,b) N2(a,b)
#define N(x) N1(NAME,x)
typedef CP_VEC_T(T) N(_vt);
static T N(_sh)[MAXE], N(_tmp)[MAXE]; static int N(_n), N(_ctr);
static T N(_mk)(void) { N(_ctr)++; return MK(N(_ctr)); }
static void N(_check)(N(_vt) *v) { CHECK(v->size == (size_t)N(_n), "size is wrong"); CHECK(v->alloc >= v->size, "capacity below size"); for (int i = 0; i < N(_n); i++) CHECK(EQ(v->data[i], N(_sh)[i]), "content is wrong"); }
static void N(_sins)(int pos, T const *src, int cnt) { T c[MAXE]; for (int i = 0; i < cnt; i++) c[i] = src[i]; for (int i = N(_n) - 1; i >= pos; i--) N(_sh)[i + cnt] = N(_sh)[i]; for (int i = 0; i < cnt; i++) N(_sh)[pos + i] = c[i]; N(_n) += cnt; }
static void N(_run)(int ops, int maxn)
{
    N(_vt) v; memset(&v, 0, sizeof v); N(_n) = N(_ctr) = 0;
    T zero; memset(&zero, 0, sizeof zero);
    int n0 = maxn < 0 ? BIG[ch("n0", 0, -1 - maxn)] : ch("n0", 0, maxn);
    for (int i = 0; i < n0; i++) { T x = N(_mk)(); cp_v_push(&v, x); N(_sh)[N(_n)++] = x; }
    N(_check)(&v);
    for (int o = 0; o < ops; o++) {
        int n = N(_n), op = ch("op", 0, 17);
        int pos = 0, cnt = 0, src = 0; T x;
        switch (op) {
        case 0: x = N(_mk)(); *cp_v_push0(&v) = x; N(_sh)[N(_n)++] = x; break;
        case 1: if (!n) break; x = cp_v_pop(&v); CHECK(EQ(x, N(_sh)[n - 1]), "popped element is wrong"); N(_n)--; break;
        case 2: pos = chs("pos", 0, n); x = N(_mk)(); cp_v_insert1(&v, pos, x); N(_sins)(pos, &x, 1); break;
        case 3: pos = chs("pos", 0, n); cnt = chs("cnt", 0, 5); for (int i = 0; i < cnt; i++) N(_tmp)[i] = N(_mk)(); cp_v_insert_arr(&v, pos, N(_tmp), cnt); N(_sins)(pos, N(_tmp), cnt); break;
        case 4: if (!n) break; pos = chs("pos", 0, n); src = chs("src", 0, n - 1); cnt = chs("cnt", 1, n - src); sx_reach("self insert"); cp_v_insert_arr(&v, pos, v.data + src, cnt); { T c[MAXE]; memcpy(c, N(_sh) + src, cnt * sizeof(T)); N(_sins)(pos, c, cnt); } break;
        case 5: pos = chs("pos", 0, n); cp_v_insert(&v, pos, &v); { T c[MAXE]; memcpy(c, N(_sh), n * sizeof(T)); N(_sins)(pos, c, n); } break;
        case 6: cp_v_append(&v, &v); { T c[MAXE]; memcpy(c, N(_sh), n * sizeof(T)); N(_sins)(n, c, n); } break;
        case 7: cnt = chs("cnt", 0, 9); for (int i = 0; i < cnt; i++) N(_tmp)[i] = N(_mk)(); cp_v_insert_arr(&v, v.size, N(_tmp), cnt); N(_sins)(n, N(_tmp), cnt); break;
        case 8: pos = chs("pos", 0, n); cnt = chs("cnt", 0, n + 1); cp_v_remove(&v, pos, cnt == n + 1 ? CP_SIZE_MAX : (size_t)cnt); if (cnt > n - pos) cnt = n - pos; for (int i = pos; i + cnt < n; i++) N(_sh)[i] = N(_sh)[i + cnt]; N(_n) -= cnt; break;
        case 9: pos = chs("pos", 0, n); cnt = chs("cnt", 0, n + 1); cp_v_reverse(&v, pos, cnt == n + 1 ? CP_SIZE_MAX : (size_t)cnt); if (cnt > n - pos) cnt = n - pos; for (int i = 0; i < cnt / 2; i++) { T t = N(_sh)[pos + i]; N(_sh)[pos + i] = N(_sh)[pos + cnt - 1 - i]; N(_sh)[pos + cnt - 1 - i] = t; } break;
        case 10: cnt = chs("size", 0, n + 6); cp_v_set_size(&v, cnt); for (int i = n; i < cnt; i++) N(_sh)[i] = zero; N(_n) = cnt; sx_reach("resized"); break;
        case 11: cnt = chs("size", 0, n + 6); cp_v_ensure_size(&v, cnt); for (int i = n; i < cnt; i++) N(_sh)[i] = zero; if (cnt > n) N(_n) = cnt; break;
        case 12: if (!n) break; pos = chs("pos", 0, n - 1); x = cp_v_extract(&v, pos); CHECK(EQ(x, N(_sh)[pos]), "extracted element is wrong"); for (int i = pos; i + 1 < n; i++) N(_sh)[i] = N(_sh)[i + 1]; N(_n)--; break;
        case 13: cp_v_clear(&v, chs("size", 0, 9)); N(_n) = 0; break;
        case 14: /* overlapping copy inside the vector, may extend it */ if (!n) break; pos = chs("pos", 0, n); src = chs("src", 0, n - 1); cnt = chs("cnt", 0, n - src + 1); cp_v_copy(&v, pos, &v, src, cnt > n - src ? CP_SIZE_MAX : (size_t)cnt); if (cnt > n - src) cnt = n - src; { T c[MAXE]; memcpy(c, N(_sh) + src, cnt * sizeof(T)); for (int i = 0; i < cnt; i++) N(_sh)[pos + i] = c[i]; if (pos + cnt > n) N(_n) = pos + cnt; } sx_reach("self copy"); break;
        case 15: pos = chs("pos", 0, n); cnt = chs("cnt", 0, 6); cp_v_inflate(&v, pos, cnt); { T c[8]; for (int i = 0; i < 8; i++) c[i] = zero; N(_sins)(pos, c, cnt); } break;
        case 16: pos = chs("pos", 0, n); x = N(_mk)(); cp_v_copy1(&v, pos, x); N(_sh)[pos] = x; if (pos == n) N(_n)++; break;
        default: { N(_vt) w; cp_v_init_with(&w, N(_sh), n); N(_check)(&w);
 if (n) CHECK(cp_v_idx(&w, &w.data[n - 1]) == (size_t)(n - 1), "index of an element is wrong"); cp_v_fini(&w); break; }
        }
        N(_check)(&v);
        if (N(_n) > 0) { CHECK(EQ(cp_v_last(&v), N(_sh)[N(_n) - 1]), "last element is wrong"); CHECK(EQ(cp_v_nth(&v, N(_n) / 2), N(_sh)[N(_n) / 2]), "nth element is wrong"); }
    }
    cp_v_fini(&v); sx_reach("done");
}

#undef N
#undef N1
#undef N2
#undef NAME
#undef T
#undef MK
#undef EQ
