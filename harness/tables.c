/* Builds tables through the public interface and prints them. */
#include "server.h"
#include "src/table/table.h"

size_t __sanitizer_get_current_allocated_bytes(void);
void warm_up(const char *arg) { (void)arg; }

static size_t cur, total;
static Field *flds;
static char *arg(void) { if (cur >= total) _exit(88); return field_dup(flds[cur++]); }
static long argi(void) { char *s = arg(); long v = atol(s); free(s); return v; }

/* texts handed to add_cell must outlive the table */
static char *keep[4096]; static size_t num_keep;
static char *kept(void) { if (num_keep >= 4096) _exit(87); return keep[num_keep++] = arg(); }

void run_case(size_t n, Field *f) {
    flds = f; total = n; cur = 0;
    srv_out_pos = lseek(srv_out_fd, 0, SEEK_END);
    srv_err_pos = lseek(srv_err_fd, 0, SEEK_END);
    size_t before = __sanitizer_get_current_allocated_bytes();
    Table *t = get_empty_table();
    while (cur < total) {
        char verb[32];
        { char *v = arg(); snprintf(verb, sizeof verb, "%s", v); free(v); }
        if (!strcmp(verb, "pos")) { long x = argi(), y = argi(); set_position(t, (size_t)x, (size_t)y); }
        else if (!strcmp(verb, "next")) next_row(t);
        else if (!strcmp(verb, "empty")) add_empty_cell(t);
        else if (!strcmp(verb, "cell")) add_cell(t, kept());
        else if (!strcmp(verb, "gc")) add_cell_gc(t, arg());
        else if (!strcmp(verb, "fmt")) { char *a = arg(); add_cell_fmt(t, "%s", a); free(a); }
        else if (!strcmp(verb, "fmti")) { char *a = arg(); long v = argi(); add_cell_fmt(t, "%s%ld%%", a, v); free(a); }
        else if (!strcmp(verb, "cells3")) { char *a = kept(), *b = kept(), *c = kept(); add_cells(t, 3, a, b, c); }
        else if (!strcmp(verb, "array")) {
            long w = argi(), h = argi();
            const char **a = malloc(sizeof(char*) * (size_t)(w * h));
            for (long i = 0; i < w * h; i++) a[i] = kept();
            add_cells_from_array(t, (size_t)w, (size_t)h, a);
            free(a);
        }
        else if (!strcmp(verb, "haligns") || !strcmp(verb, "valigns")) {
            long k = argi();
            TableHAlign h[TABLE_MAX_COLS]; TableVAlign v[TABLE_MAX_COLS];
            for (long i = 0; i < k; i++) { long a = argi(); h[i] = (TableHAlign)a; v[i] = (TableVAlign)a; }
            if (verb[0] == 'h') set_default_alignments(t, (size_t)k, h, NULL);
            else set_default_alignments(t, (size_t)k, NULL, v);
        }
        else if (!strcmp(verb, "oh")) override_horizontal_alignment(t, (TableHAlign)argi());
        else if (!strcmp(verb, "ov")) override_vertical_alignment(t, (TableVAlign)argi());
        else if (!strcmp(verb, "ohr")) override_horizontal_alignment_of_row(t, (TableHAlign)argi());
        else if (!strcmp(verb, "ovr")) override_vertical_alignment_of_row(t, (TableVAlign)argi());
        else if (!strcmp(verb, "hline")) set_hline(t, (TableBorderStyle)argi());
        else if (!strcmp(verb, "vline")) { long i = argi(); set_vline(t, (size_t)i, (TableBorderStyle)argi()); }
        else if (!strcmp(verb, "allv")) set_all_vlines(t, (TableBorderStyle)argi());
        else if (!strcmp(verb, "box")) make_boxed(t, (TableBorderStyle)argi());
        else if (!strcmp(verb, "oleft")) override_left_border(t, (TableBorderStyle)argi());
        else if (!strcmp(verb, "oabove")) override_above_border(t, (TableBorderStyle)argi());
        else if (!strcmp(verb, "span")) { long x = argi(), y = argi(); set_span(t, (size_t)x, (size_t)y); }
        else if (!strcmp(verb, "print")) { print_table(t); put_outputs(); }
        else _exit(85);
    }
    free_table(t);
    for (size_t i = 0; i < num_keep; i++) free(keep[i]);
    put_int((long long)__sanitizer_get_current_allocated_bytes() - (long long)before);
    put_str("DONE");
    srv_flush();
    _exit(0);
}
