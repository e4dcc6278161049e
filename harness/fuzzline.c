/* Coverage-guided fuzzing of whole sessions. Environment: CCALC_RULES=<ruleset> to run with simplification. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <fcntl.h>
#include "src/client/commands/commands.h"
#include "src/client/core/history.h"
#include "src/util/console_util.h"

static bool rules;

int LLVMFuzzerInitialize(int *argc, char ***argv) {
    (void)argc; (void)argv;
    init_commands();
    const char *r = getenv("CCALC_RULES");
    if (r) {
        char *c = malloc(strlen(r) + 64);
        sprintf(c, "load simplification %s", r);
        if (!exec_command(c)) abort();
        free(c);
        rules = true;
    }
    return 0;
}

/* Only tables with plain, near bounds: others may legitimately run for long */
static bool allowed(const char *l) {
    if (strncmp(l, "load ", 5) == 0) return strcmp(l, "load ") == 0 || strncmp(l, "load /nonexistent-dir/", 22) == 0;
    if (strncmp(l, "table ", 6) != 0) return true;
    const char *p = l;
    int semis = 0;
    for (const char *q = l; *q; q++) semis += *q == ';';
    if (semis < 3) return true;
    double v[3];
    for (int i = 0; i < 3; i++) {
        p = strchr(p, ';') + 1;
        while (*p == ' ') p++;
        const char *q = p;
        if (*q == '-') q++;
        int n = 0;
        while ((*q >= '0' && *q <= '9') || *q == '.') { q++; n++; }
        while (*q == ' ') q++;
        if (n == 0 || n > 3) return false;
        if (*q != ';' && !(i == 2 && (*q == 0 || strncmp(q, "fold ", 5) == 0))) return false;
        v[i] = strtod(p, NULL);
    }
    double st = v[2] < 0 ? -v[2] : v[2], d = v[1] - v[0];
    return st == 0 || (d < 0 ? -d : d) / st < 60;
}


int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (size > 0 && size < 4096) {
        size_t i = 0;
        while (i < size) {
            size_t j = i;
            while (j < size && data[j] != '\n') j++;
            char *l = malloc(j - i + 1);
            memcpy(l, data + i, j - i);
            l[j - i] = 0;
            size_t n = strlen(l);
            char *m = malloc(n + 1); /* exact size */
            memcpy(m, l, n + 1);
            free(l);
            if (m[0] && m[0] != '#' && strcmp(m, "quit") != 0 && allowed(m)) {
                if (strcmp(m, "i1") == 0) set_interactive(true);
                else exec_command(m);
            }
            free(m);
            i = j + 1;
        }
        set_interactive(false);
        if (rules) {
            char c[] = "clear";
            exec_command(c);
            unload_history();
            init_history();
        } else {
            unload_commands();
            init_commands();
        }
    }
    return 0;
}
