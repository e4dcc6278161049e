/* Containers: trie, linked list, vector, string builder. After each operation the whole content is reported. */
#include "server.h"
#include "src/util/trie.h"
#include "src/util/linked_list.h"
#include "src/util/vector.h"
#include "src/util/string_builder.h"
#include "src/util/iterator.h"

size_t __sanitizer_get_current_allocated_bytes(void);
void warm_up(const char *arg) { (void)arg; }

static size_t cur, total;
static Field *flds;
static char *arg(void) { if (cur >= total) _exit(88); return field_dup(flds[cur++]); }
static long argi(void) { char *s = arg(); long v = atol(s); free(s); return v; }

static char obuf[1 << 20]; static size_t olen;
static void o_add(const char *s) { size_t l = strlen(s); if (olen + l < sizeof obuf) { memcpy(obuf + olen, s, l); olen += l; } }
static void o_int(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); o_add(b); }
static void o_flush(void) { put_bytes(obuf, olen); olen = 0; }

/* payload of given size that encodes v; returns false when bytes disagree */
static void fill(unsigned char *p, size_t n, long v) {
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)((unsigned long)v + 37u * i);
}
static long unfill(const unsigned char *p, size_t n) {
    if (n == 0) return 0;
    for (size_t i = 1; i < n; i++) if (p[i] != (unsigned char)(p[0] + 37u * i)) return -1000;
    return p[0];
}

static void trie_case(void) {
    size_t es = (size_t)argi();
    Trie t = trie_create(es);
    TrieIterator ti = trie_get_iterator(&t);
    while (cur < total) {
        char *v = arg();
        if (!strcmp(v, "add")) {
            char *s = arg(); long p = argi();
            unsigned char *d = trie_add_str(&t, s);
            o_int(d != NULL);
            if (d) fill(d, es, p);
            free(s);
        } else if (!strcmp(v, "rem")) {
            char *s = arg();
            trie_remove_str(&t, s);
            free(s);
        } else if (!strcmp(v, "has")) {
            char *s = arg();
            void *d = NULL;
            bool a = trie_contains(&t, s, &d), b = trie_contains(&t, s, NULL);
            o_int(a); o_add(" "); o_int(b); o_add(" ");
            o_int(a ? unfill(d, es) : -1);
            free(s);
        } else if (!strcmp(v, "set")) { /* payload of a contained string is changed in place */
            char *s = arg(); long p = argi();
            void *d = NULL;
            bool a = trie_contains(&t, s, &d);
            o_int(a);
            if (a) fill(d, es, p);
            free(s);
        } else if (!strcmp(v, "pre")) {
            char *s = arg();
            void *d = NULL;
            size_t a = trie_longest_prefix(&t, s, &d), b = trie_longest_prefix(&t, s, NULL);
            o_int((long long)a); o_add(" "); o_int((long long)b); o_add(" ");
            o_int(a ? unfill(d, es) : -1);
            free(s);
        } else if (!strcmp(v, "count")) {
            o_int((long long)trie_count(&t));
        } else if (!strcmp(v, "new")) {
            trie_destroy(&t);
            t = trie_create(es);
        } else if (!strcmp(v, "iter")) { /* first k entries, reset, then all of them, and once more all of them */
            long k = argi();
            ti = trie_get_iterator(&t);
            for (long i = 0; i < k; i++) {
                unsigned char *d = iterator_get_next((Iterator*)&ti);
                if (!d) break;
            }
            if (k >= 0) iterator_reset((Iterator*)&ti);
            for (int r = 0; r < 2; r++) {
                unsigned char *d;
                while ((d = iterator_get_next((Iterator*)&ti)) != NULL) {
                    const char *s = trie_get_current_string(&ti);
                    o_add(s ? s : "NULL"); o_add(" "); o_int(unfill(d, es)); o_add("\n");
                }
                o_add("--\n");
            }
        } else _exit(85);
        o_flush();
        free(v);
    }
    trie_destroy(&t);
}

static void list_dump(LinkedList *l, size_t es) {
    size_t n = list_count(l);
    o_int((long long)n); o_add(":");
    LinkedListIterator it = list_get_iterator(l);
    unsigned char *d;
    /* k entries, reset, then all of them */
    for (size_t k = 0; k <= n + 1 && k < 6; k++) {
        for (size_t i = 0; i < (k == 5 ? n - 1 : k); i++) iterator_get_next((Iterator*)&it);
        iterator_reset((Iterator*)&it);
        while ((d = iterator_get_next((Iterator*)&it)) != NULL) { o_int(unfill(d, es)); o_add(" "); }
        o_add(",");
        iterator_reset((Iterator*)&it);
    }
    o_add(";");
    size_t k = 0;
    while (k++ < 2 && (d = iterator_get_next((Iterator*)&it)) != NULL) { o_int(unfill(d, es)); o_add(" "); }
    o_add(";");
    for (size_t i = 0; i < n; i++) { o_int(unfill(list_get_at(l, i), es)); o_add(" "); }
    o_add(";");
    if (n) for (ListNode *x = list_get_node(l, 0); x != NULL; x = listnode_get_next(x)) { o_int(unfill(listnode_get_data(x), es)); o_add(" "); }
    o_add(";");
    /* following the links from any node leads to the end */
    for (size_t i = 0; i < n; i++) {
        size_t c = 0;
        for (ListNode *x = list_get_node(l, i); x != NULL; x = listnode_get_next(x)) c++;
        if (c != n - i) { o_add("bad length"); break; }
    }
    o_flush();
}
static void list_case(void) {
    size_t es = (size_t)argi();
    LinkedList l = list_create(es);
    unsigned char b[64];
    while (cur < total) {
        char *v = arg();
        if (!strcmp(v, "app")) { fill(b, es, argi()); list_append(&l, b); }
        else if (!strcmp(v, "appn")) { ListNode *n = list_append(&l, NULL); fill(listnode_get_data(n), es, argi()); }
        else if (!strcmp(v, "at")) { long i = argi(); fill(b, es, argi()); list_insert_at(&l, (size_t)i, b); }
        else if (!strcmp(v, "after")) { long i = argi(); fill(b, es, argi()); ListNode *n = list_insert_after(&l, i < 0 ? NULL : list_get_node(&l, (size_t)i), b); if (unfill(listnode_get_data(n), es) != unfill(b, es)) o_add("!"); }
        else if (!strcmp(v, "del")) list_delete_at(&l, (size_t)argi());
        else if (!strcmp(v, "deln")) list_delete_node(&l, list_get_node(&l, (size_t)argi()));
        else if (!strcmp(v, "set")) { long i = argi(); fill(list_get_at(&l, (size_t)i), es, argi()); }
        else if (!strcmp(v, "new")) { list_destroy(&l); l = list_create(es); }
        else _exit(85);
        list_dump(&l, es);
        free(v);
    }
    list_destroy(&l);
}

static void vec_dump(Vector *v, size_t es) {
    o_int((long long)vec_count(v)); o_add(":");
    for (size_t i = 0; i < vec_count(v); i++) { o_int(unfill(vec_get(v, i), es)); o_add(" "); }
    o_add(";");
    VectorIterator it = vec_get_iterator(v);
    unsigned char *d;
    if ((d = iterator_get_next((Iterator*)&it)) != NULL) iterator_reset((Iterator*)&it); else iterator_reset((Iterator*)&it);
    for (size_t k = 0; k < 4; k++) {
        while ((d = iterator_get_next((Iterator*)&it)) != NULL) { o_int(unfill(d, es)); o_add(" "); }
        o_add(",");
        iterator_reset((Iterator*)&it);
        for (size_t i = 0; i < k; i++) iterator_get_next((Iterator*)&it);
        iterator_reset((Iterator*)&it);
    }
    o_add(";");
    d = vec_peek(v);
    if (d) o_int(unfill(d, es)); else o_add("none");
    o_flush();
}
static void vec_case(void) {
    size_t es = (size_t)argi();
    size_t start = (size_t)argi();
    Vector x = vec_create(es, start);
    while (cur < total) {
        char *v = arg();
        if (!strcmp(v, "push")) { unsigned char *b = malloc(es); fill(b, es, argi()); unsigned char *r = vec_push(&x, b); if (unfill(r, es) != unfill(b, es)) o_add("!"); free(b); }
        else if (!strcmp(v, "pushe")) fill(vec_push_empty(&x), es, argi());
        else if (!strcmp(v, "many")) {
            long n = argi();
            unsigned char *b = malloc(es * (size_t)n + 1);
            for (long i = 0; i < n; i++) fill(b + es * (size_t)i, es, argi());
            unsigned char *r = vec_push_many(&x, (size_t)n, b);
            for (long i = 0; i < n; i++) if (unfill(r + es * (size_t)i, es) != unfill(b + es * (size_t)i, es)) o_add("!");
            free(b);
        }
        else if (!strcmp(v, "pop")) { unsigned char *d = vec_pop(&x); if (d) o_int(unfill(d, es)); else o_add("none"); o_add("|"); }
        else if (!strcmp(v, "set")) { long i = argi(); fill(vec_get(&x, (size_t)i), es, argi()); }
        else if (!strcmp(v, "trim")) vec_trim(&x);
        else if (!strcmp(v, "ensure")) vec_ensure_size(&x, (size_t)argi());
        else if (!strcmp(v, "clear")) vec_clear(&x);
        else if (!strcmp(v, "new")) { vec_destroy(&x); x = vec_create(es, (size_t)argi()); }
        else _exit(85);
        vec_dump(&x, es);
        free(v);
    }
    vec_destroy(&x);
}

static void sb_case(void) {
    long start = argi();
    StringBuilder b = strbuilder_create((size_t)start);
    while (cur < total) {
        char *v = arg();
        if (!strcmp(v, "s")) { char *s = arg(); strbuilder_append(&b, "%s", s); free(s); }
        else if (!strcmp(v, "raw")) { char *s = arg(); strbuilder_append(&b, s); free(s); }
        else if (!strcmp(v, "mix")) { char *s = arg(); long i = argi(); strbuilder_append(&b, "<%*s|%ld%%|%.3f>", 5, s, i, (double)i / 4); free(s); }
        else if (!strcmp(v, "two")) { char *s = arg(), *t = arg(); strbuilder_append(&b, "%s%s", s, t); free(s); free(t); }
        else if (!strcmp(v, "c")) { char *s = arg(); strbuilder_append_char(&b, s[0]); free(s); }
        else if (!strcmp(v, "clear")) strbuilder_clear(&b);
        else if (!strcmp(v, "trim")) vec_trim(&b);
        else if (!strcmp(v, "heap")) { vec_destroy(&b); b = strbuilder_from_heapstring(arg()); }
        else if (!strcmp(v, "new")) { vec_destroy(&b); b = strbuilder_create((size_t)argi()); }
        else _exit(85);
        char *s = strbuilder_to_str(&b);
        o_int((long long)vec_count(&b)); o_add(":"); o_add(s);
        o_flush();
        free(v);
    }
    vec_destroy(&b);
}

void run_case(size_t n, Field *f) {
    flds = f; total = n; cur = 0;
    size_t before = __sanitizer_get_current_allocated_bytes();
    char *k = arg();
    if (!strcmp(k, "trie")) trie_case();
    else if (!strcmp(k, "list")) list_case();
    else if (!strcmp(k, "vec")) vec_case();
    else if (!strcmp(k, "sb")) sb_case();
    else _exit(84);
    free(k);
    put_int((long long)__sanitizer_get_current_allocated_bytes() - (long long)before);
    put_str("DONE");
    srv_flush();
    _exit(0);
}
