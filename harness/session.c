/* Drives the program the way a user does: lines typed in, commands, files, command-line switches. */
#include "server.h"
#include "src/client/commands/commands.h"
#include "src/util/console_util.h"

int ccalc_main(int argc, char **argv);
size_t __sanitizer_get_current_allocated_bytes(void);

static void quiet_init(void) { init_commands(); fflush(stdout); fflush(stderr); }

/* Fields: mode, then operations.
 * mode "session": ops are one letter + argument
 *   L<line>   process_input on a stream that contains line and a newline
 *   R<bytes>  process_input on a stream that contains exactly these bytes
 *   E<cmd>    exec_command
 *   i1 / i0   interactive on/off
 *   Z         unload, report heap balance, init again
 * Response per op: ok, stdout, stderr
 * mode "main": remaining fields: stdin content, argv[1..]; response: (exit code by status) stdout, stderr at exit */
static void at_exit_report(void) {
    put_str("EXIT");
    put_outputs();
    srv_flush();
}

static bool warmed;
void warm_up(const char *arg) { /* arg: command to execute before every session, e.g. load simplification <file> */
    int keep = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(nul, 2);
    quiet_init();
    char *c = strdup(arg);
    if (!exec_command(c)) _exit(92);
    fflush(stdout); fflush(stderr);
    free(c);
    dup2(keep, 1);
    close(keep); close(nul);
    warmed = true;
}

void run_case(size_t n, Field *f) {
    if (n == 0) return;
    if (field_is(f[0], "main")) {
        int fd = memfd_create("stdin", 0);
        srv_write_all(fd, f[1].data, f[1].len);
        lseek(fd, 0, SEEK_SET);
        dup2(fd, 0);
        close(fd);
        int argc = (int)(n - 2) + 1;
        char **argv = malloc(sizeof(char*) * (size_t)(argc + 1));
        argv[0] = "ccalc";
        for (int i = 1; i < argc; i++) argv[i] = field_dup(f[i + 1]);
        argv[argc] = NULL;
        int r = ccalc_main(argc, argv);
        put_str("RETURN");
        put_int(r);
        put_outputs();
        srv_flush();
        exit(r);
    }
    /* mode: session */
    atexit(at_exit_report);
    size_t before = __sanitizer_get_current_allocated_bytes();
    if (!warmed) quiet_init();
    fflush(stderr);
    srv_out_pos = lseek(srv_out_fd, 0, SEEK_END);
    srv_err_pos = lseek(srv_err_fd, 0, SEEK_END);
    for (size_t i = 1; i < n; i++) {
        char op = f[i].data[0];
        Field a = { f[i].data + 1, f[i].len - 1 };
        bool ok = true;
        switch (op) {
            case 'L': case 'R': {
                char *b = malloc(a.len + 2);
                memcpy(b, a.data, a.len);
                size_t l = a.len;
                if (op == 'L') b[l++] = '\n';
                if (l > 0) {
                    FILE *s = fmemopen(b, l, "r");
                    if (!s) _exit(93);
                    ok = process_input(s);
                    fclose(s);
                }
                free(b);
                break;
            }
            case 'E': {
                char *b = field_dup(a);
                ok = exec_command(b);
                free(b);
                break;
            }
            case 'i': set_interactive(a.data[0] == '1'); break;
            case 'Z': {
                unload_commands();
                fflush(stdout); fflush(stderr);
                size_t after = __sanitizer_get_current_allocated_bytes();
                put_int((long long)after - (long long)before);
                put_outputs();
                quiet_init();
                srv_out_pos = lseek(srv_out_fd, 0, SEEK_END);
                srv_err_pos = lseek(srv_err_fd, 0, SEEK_END);
                continue;
            }
        }
        put_int(ok);
        put_outputs();
    }
    put_str("DONE");
    srv_flush();
    _exit(0);
}
