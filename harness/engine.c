/* Drives parsing contexts, tokenizer, parser, trees, matching and rewriting through their public interface. */
#include "server.h"
#include "src/client/commands/commands.h"
#include "src/client/core/arith_context.h"
#include "src/client/core/arith_evaluation.h"
#include "src/client/simplification/simplification.h"
#include "src/client/simplification/propositional_context.h"
#include "src/client/simplification/propositional_evaluation.h"
#include "src/engine/parsing/context.h"
#include "src/engine/parsing/tokenizer.h"
#include "src/engine/parsing/parser.h"
#include "src/engine/tree/node.h"
#include "src/engine/tree/tree_util.h"
#include "src/engine/tree/tree_to_string.h"
#include "src/engine/transformation/matching.h"
#include "src/engine/transformation/rewrite_rule.h"
#include "src/engine/transformation/rule_parsing.h"
#include "src/util/string_builder.h"

size_t __sanitizer_get_current_allocated_bytes(void);

static bool inited;
static ParsingContext own;
static ParsingContext *cx;
static Node *reg[64];
static Vector ruleset;
static bool have_ruleset;

static void init_all(void) {
    if (inited) return;
    init_commands();
    fflush(stdout); fflush(stderr);
    inited = true;
}

void warm_up(const char *arg) {
    int keep = dup(1), keep2 = dup(2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1); dup2(nul, 2);
    init_all();
    if (arg[0] != '-' && init_simplification(arg) < 0) _exit(92);
    fflush(stdout); fflush(stderr);
    dup2(keep, 1); dup2(keep2, 2);
    close(keep); close(keep2); close(nul);
}

static const char *place_names[] = { "prefix", "infix", "postfix", "function" };
static const OpPlacement place_vals[] = { OP_PLACE_PREFIX, OP_PLACE_INFIX, OP_PLACE_POSTFIX, OP_PLACE_FUNCTION };

static OpPlacement place_of(const char *s) {
    for (int i = 0; i < 4; i++) if (strcmp(place_names[i], s) == 0) return place_vals[i];
    _exit(91);
}
static const char *place_str(OpPlacement p) {
    for (int i = 0; i < 4; i++) if (place_vals[i] == p) return place_names[i];
    return "?";
}

/* ---- tree <-> text: one node per line, preorder */
static char *dump_buf; static size_t dump_len, dump_cap;
static void dump_add(const char *s) {
    size_t l = strlen(s);
    if (dump_len + l + 1 > dump_cap) {
        size_t nc = (dump_cap + l + 4096) * 2;
        char *nb = srv_alloc(nc);
        if (dump_len) memcpy(nb, dump_buf, dump_len);
        if (dump_buf) munmap(dump_buf, dump_cap);
        dump_buf = nb; dump_cap = nc;
    }
    memcpy(dump_buf + dump_len, s, l);
    dump_len += l;
}
static void dump_rec(const Node *t) {
    char b[400];
    if (t == NULL) { dump_add("NULL\n"); return; }
    switch (get_type(t)) {
        case NTYPE_CONSTANT: snprintf(b, sizeof b, "c %a\n", get_const_value(t)); dump_add(b); break;
        case NTYPE_VARIABLE: dump_add("v "); dump_add(get_var_name(t)); dump_add("\n"); break;
        case NTYPE_OPERATOR:
            dump_add("o "); dump_add(place_str(get_op(t)->placement)); dump_add(" ");
            dump_add(get_op(t)->name);
            snprintf(b, sizeof b, " %zu\n", get_num_children(t)); dump_add(b);
            for (size_t i = 0; i < get_num_children(t); i++) dump_rec(get_child(t, i));
            break;
    }
}
static void put_tree(const Node *t) { dump_len = 0; dump_rec(t); put_bytes(dump_buf, dump_len); }

static const char *bp;
static Node *build_rec(void) {
    char line[400]; size_t l = 0;
    while (*bp && *bp != '\n') { if (l < sizeof line - 1) line[l++] = *bp; bp++; }
    if (*bp) bp++;
    line[l] = 0;
    if (line[0] == 'c') return malloc_constant_node(strtod(line + 2, NULL), 0);
    if (line[0] == 'v') return malloc_variable_node(line + 2, 0, 0);
    char place[32], name[200]; size_t n;
    if (sscanf(line, "o %31s %199s %zu", place, name, &n) != 3) _exit(90);
    const Operator *op = ctx_lookup_op(cx, name, place_of(place));
    if (op == NULL) _exit(89);
    Node *r = malloc_operator_node(op, n, 0);
    for (size_t i = 0; i < n; i++) set_child(r, i, build_rec());
    return r;
}

static size_t cur, total; static Field *flds;
static char *arg(void) { /* next field, exact-size zero-terminated heap string; leaks on purpose unless freed */
    if (cur >= total) _exit(88);
    return field_dup(flds[cur++]);
}
static long argi(void) { char *s = arg(); long v = atol(s); free(s); return v; }
static int argr(void) { long v = argi(); if (v < 0 || v >= 64) _exit(87); return (int)v; }
static void setreg(int r, Node *t) { if (reg[r]) free_tree(reg[r]); reg[r] = t; }

static bool count_checker_seen;
static void put_matching(const Matching *m, size_t nv) {
    for (size_t v = 0; v < nv; v++) {
        put_int((long long)m->mapped_nodes[v].size);
        for (size_t k = 0; k < m->mapped_nodes[v].size; k++) put_tree(m->mapped_nodes[v].nodes[k]);
    }
}

void run_case(size_t n, Field *f) {
    flds = f; total = n; cur = 0;
    init_all();
    srv_out_pos = lseek(srv_out_fd, 0, SEEK_END);
    srv_err_pos = lseek(srv_err_fd, 0, SEEK_END);
    cx = g_ctx;
    size_t mark = 0;
    while (cur < total) {
        char *verb = arg();
        if (!strcmp(verb, "ctx")) {
            char *k = arg();
            if (!strcmp(k, "arith")) cx = g_ctx;
            else if (!strcmp(k, "prop")) cx = g_propositional_ctx;
            else { own = ctx_create(); cx = &own; }
            free(k);
        } else if (!strcmp(verb, "exec")) {
            char *c = arg();
            bool ok = exec_command(c);
            put_int(ok); put_outputs();
            free(c);
        } else if (!strcmp(verb, "addop")) {
            char *name = arg(); char *pl = arg(); long prec = argi(); char *as = arg(); long ar = argi();
            OpPlacement p = place_of(pl);
            OpAssociativity a = !strcmp(as, "right") ? OP_ASSOC_RIGHT : OP_ASSOC_LEFT;
            Operator op;
            if (p == OP_PLACE_PREFIX) op = op_get_prefix(name, (Precedence)prec);
            else if (p == OP_PLACE_INFIX) op = op_get_infix(name, (Precedence)prec, a);
            else if (p == OP_PLACE_POSTFIX) op = op_get_postfix(name, (Precedence)prec);
            else if (ar == 0) op = op_get_constant(name);
            else op = op_get_function(name, ar < 0 ? OP_DYNAMIC_ARITY : (size_t)ar);
            const Operator *r = ctx_add_op(cx, op);
            put_int(r != NULL);
            free(pl); free(as); /* name stays alive: the context refers to it */
        } else if (!strcmp(verb, "delop")) {
            char *name = arg(); char *pl = arg();
            put_int(ctx_delete_op(cx, name, place_of(pl)));
            free(name); free(pl);
        } else if (!strcmp(verb, "glue")) {
            char *name = arg(); char *pl = arg();
            const Operator *op = pl[0] ? ctx_lookup_op(cx, name, place_of(pl)) : NULL;
            put_int(ctx_set_glue_op(cx, op));
            free(name); free(pl);
        } else if (!strcmp(verb, "lookup")) {
            char *name = arg(); char *pl = arg();
            const Operator *op = ctx_lookup_op(cx, name, place_of(pl));
            if (op == NULL) put_str("");
            else {
                char b[300];
                snprintf(b, sizeof b, "%s %s %d %s %ld", op->name, place_str(op->placement), (int)op->precedence,
                    op->assoc == OP_ASSOC_RIGHT ? "right" : "left", op->arity == OP_DYNAMIC_ARITY ? -1L : (long)op->arity);
                put_str(b);
            }
            free(name); free(pl);
        } else if (!strcmp(verb, "opid")) {
            char *name = arg(); char *pl = arg();
            const Operator *op = ctx_lookup_op(cx, name, place_of(pl));
            put_int(op ? (long long)op->id : -1);
            free(name); free(pl);
        } else if (!strcmp(verb, "tok")) {
            char *s = arg();
            Vector t = tokenize(s, &cx->keywords_trie);
            put_int((long long)vec_count(&t));
            for (size_t i = 0; i < vec_count(&t); i++) put_str(*(char**)vec_get(&t, i));
            free_tokens(&t);
            free(s);
        } else if (!strcmp(verb, "parse")) {
            int r = argr(); char *s = arg();
            ParsingResult pr;
            bool ok = parse_input(cx, s, &pr);
            put_int(ok);
            put_int((long long)(ok ? 0 : pr.error_token));
            if (ok) { put_tree(pr.tree); setreg(r, pr.tree); } else put_str("");
            free_result(&pr, false);
            free(s);
        } else if (!strcmp(verb, "ptok")) { /* parse_tokens on given tokens; out tree NULL if flag set */
            int r = argr(); long nt = argi();
            const char **toks = malloc(sizeof(char*) * (size_t)(nt + 1));
            for (long i = 0; i < nt; i++) toks[i] = arg();
            Node *t = NULL; size_t et = 0;
            ParserError e = parse_tokens(cx, (size_t)nt, toks, &t, &et);
            ParserError e2 = parse_tokens(cx, (size_t)nt, toks, NULL, NULL);
            put_int(e == PERR_SUCCESS); put_int(e2 == e); put_int((long long)et);
            if (e == PERR_SUCCESS) { put_tree(t); setreg(r, t); } else put_str("");
            for (long i = 0; i < nt; i++) free((char*)toks[i]);
            free(toks);
        } else if (!strcmp(verb, "build")) {
            int r = argr(); char *s = arg();
            bp = s;
            setreg(r, build_rec());
            free(s);
        } else if (!strcmp(verb, "dump")) {
            put_tree(reg[argr()]);
        } else if (!strcmp(verb, "str")) {
            int r = argr(); long color = argi();
            char *s = tree_to_str(reg[r], color != 0);
            put_str(s);
            free(s);
        } else if (!strcmp(verb, "print")) {
            int r = argr(); long color = argi();
            print_tree(reg[r], color != 0);
            put_outputs();
        } else if (!strcmp(verb, "visual")) {
            print_tree_visually(reg[argr()]);
            put_outputs();
        } else if (!strcmp(verb, "append")) {
            int r = argr(); char *pre = arg();
            Vector b = strbuilder_create(1);
            strbuilder_append(&b, "%s", pre);
            tree_append_to_strbuilder(&b, reg[r], false);
            strbuilder_append(&b, "|");
            char *s = strbuilder_to_str(&b);
            put_str(s); free(s); free(pre);
        } else if (!strcmp(verb, "copy")) {
            int r = argr(), s = argr();
            setreg(r, tree_copy(reg[s]));
        } else if (!strcmp(verb, "eq")) {
            int r = argr(), s = argr();
            put_int(tree_equals(reg[r], reg[s]));
        } else if (!strcmp(verb, "free")) {
            setreg(argr(), NULL);
        } else if (!strcmp(verb, "simplify")) {
            int r = argr();
            const Node *errnode = NULL;
            ListenerError e = simplify(&reg[r], &errnode);
            put_int(e);
            put_tree(reg[r]);
        } else if (!strcmp(verb, "reduce")) {
            int r = argr();
            double v = 0; const Node *en = NULL;
            ListenerError e = tree_reduce(reg[r], arith_op_evaluate, &v, &en);
            put_int(e);
            put_dbl(e == 0 ? v : 0);
            put_tree(e == 0 ? NULL : en);
        } else if (!strcmp(verb, "evaluate")) {
            put_dbl(arith_evaluate(reg[argr()]));
        } else if (!strcmp(verb, "redconst")) {
            int r = argr();
            const Node *en = NULL;
            ListenerError e = tree_reduce_constant_subtrees(&reg[r], arith_op_evaluate, &en);
            put_int(e);
            put_tree(reg[r]);
        } else if (!strcmp(verb, "vars")) {
            int r = argr(); long bs = argi();
            const char **buf = malloc(sizeof(char*) * (size_t)(bs + 1)); /* may be one too long: sanitizer guards bs */
            free(buf);
            buf = bs ? malloc(sizeof(char*) * (size_t)bs) : malloc(1);
            bool suff = false;
            size_t k = list_variables(reg[r], (size_t)bs, buf, &suff);
            put_int((long long)k); put_int(suff);
            for (size_t i = 0; i < k && suff; i++) put_str(buf[i]);
            if (!suff) for (size_t i = 0; i < k; i++) put_str("?");
            free(buf);
        } else if (!strcmp(verb, "ids")) { /* ids of all variable nodes in preorder, after list_variables */
            int r = argr(); char *nm = arg();
            size_t k = count_all_variable_nodes(reg[r]);
            Node ***nodes = malloc(sizeof(Node**) * (k + 1));
            size_t c = get_variable_nodes((const Node**)&reg[r], nm, k, nodes);
            put_int((long long)c);
            bool same = true;
            for (size_t i = 0; i < c; i++) same = same && !strcmp(get_var_name(*nodes[i]), nm) && get_id(*nodes[i]) == get_id(*nodes[0]);
            put_int(same);
            put_int(c ? (long long)get_id(*nodes[0]) : -1);
            free(nodes); free(nm);
        } else if (!strcmp(verb, "count")) {
            put_int((long long)count_all_variable_nodes(reg[argr()]));
        } else if (!strcmp(verb, "varcount")) {
            int r = argr(); char *nm = arg();
            put_int((long long)get_variable_nodes((const Node**)&reg[r], nm, 0, NULL));
            free(nm);
        } else if (!strcmp(verb, "replace")) {
            int r = argr(); char *nm = arg(); int s = argr();
            put_int((long long)replace_variable_nodes(&reg[r], reg[s], nm));
            free(nm);
        } else if (!strcmp(verb, "replace_by_list")) { /* child k of root replaced by copies of registers */
            int r = argr(); long k = argi(); long m = argi();
            const Node **l = malloc(sizeof(Node*) * (size_t)(m + 1));
            for (long i = 0; i < m; i++) l[i] = reg[argr()];
            tree_replace_by_list(&reg[r], (size_t)k, (NodeList){ .size = (size_t)m, .nodes = l });
            free(l);
        } else if (!strcmp(verb, "findop")) {
            int r = argr(); char *nm = arg(); char *pl = arg();
            const Operator *op = ctx_lookup_op(cx, nm, place_of(pl));
            Node **hit = find_op((const Node**)&reg[r], op);
            put_tree(hit ? *hit : NULL);
            free(nm); free(pl);
        } else if (!strcmp(verb, "rulesets")) { /* parse_rulesets_from_file on given bytes */
            long bs = argi();
            Field c = f[cur++];
            Vector *rs = malloc(sizeof(Vector) * (size_t)(bs ? bs : 1));
            for (long i = 0; i < bs; i++) rs[i] = get_empty_ruleset();
            FILE *s = c.len ? fmemopen((void*)c.data, c.len, "r") : fopen("/dev/null", "r");
            ssize_t k = parse_rulesets_from_file(s, cx, (size_t)bs, rs);
            fclose(s);
            put_int((long long)k);
            put_outputs();
            if (k >= 0) {
                for (ssize_t i = 0; i < k && i < bs; i++) {
                    put_int((long long)vec_count(&rs[i]));
                    for (size_t j = 0; j < vec_count(&rs[i]); j++) {
                        RewriteRule *rr = vec_get(&rs[i], j);
                        put_tree(rr->pattern.pattern);
                        put_tree(rr->after);
                        size_t nc = 0;
                        for (int a = 0; a < MAX_MAPPED_VARS; a++) nc += rr->pattern.num_constraints[a];
                        put_int((long long)nc);
                        for (int a = 0; a < MAX_MAPPED_VARS; a++)
                            for (size_t b = 0; b < rr->pattern.num_constraints[a]; b++) put_tree(rr->pattern.constraints[a][b]);
                    }
                }
            }
            for (long i = 0; i < bs; i++) free_ruleset(&rs[i]);
            free(rs);
        } else if (!strcmp(verb, "addrule")) {
            char *s = arg();
            if (!have_ruleset) { ruleset = get_empty_ruleset(); have_ruleset = true; }
            RewriteRule r;
            bool ok = parse_rule(s, cx, &r);
            put_int(ok);
            if (ok) add_to_ruleset(&ruleset, r);
            put_outputs();
            free(s);
        } else if (!strcmp(verb, "applyrule")) {
            long k = argi(); int r = argr();
            put_int(apply_rule(&reg[r], vec_get(&ruleset, (size_t)k), propositional_checker));
            put_tree(reg[r]);
        } else if (!strcmp(verb, "applyset")) {
            int r = argr(); long cap = argi();
            put_int((long long)apply_ruleset(&reg[r], &ruleset, propositional_checker, cap < 0 ? SIZE_MAX : (size_t)cap));
            put_tree(reg[r]);
        } else if (!strcmp(verb, "freerules")) {
            if (have_ruleset) free_ruleset(&ruleset);
            have_ruleset = false;
        } else if (!strcmp(verb, "match") || !strcmp(verb, "findmatch")) {
            /* text of the pattern (optionally with WHERE), tree register */
            char *s = arg(); int r = argr();
            Pattern p;
            bool ok = parse_pattern(s, cx, &p);
            put_int(ok);
            if (ok) {
                const char *vars[MAX_MAPPED_VARS];
                size_t nv = list_variables(p.pattern, MAX_MAPPED_VARS, vars, NULL);
                put_int((long long)nv);
                for (size_t i = 0; i < nv; i++) put_str(vars[i]);
                if (!strcmp(verb, "match")) {
                    Matching *ms = NULL;
                    size_t k = get_all_matchings((const Node**)&reg[r], &p, propositional_checker, &ms);
                    put_int((long long)k);
                    for (size_t i = 0; i < k; i++) put_matching(&ms[i], nv);
                    free(ms);
                    Matching first;
                    bool got = get_matching((const Node**)&reg[r], &p, propositional_checker, &first);
                    put_int(got);
                    if (got) put_matching(&first, nv);
                    put_int((long long)get_all_matchings((const Node**)&reg[r], &p, propositional_checker, NULL));
                } else {
                    Matching m;
                    Node **hit = find_matching((const Node**)&reg[r], &p, propositional_checker, &m);
                    put_int(hit != NULL);
                    if (hit) { put_tree(*hit); put_matching(&m, nv); }
                }
                free_pattern(&p);
            }
            free(s);
        } else if (!strcmp(verb, "mark")) {
            mark = __sanitizer_get_current_allocated_bytes() - sizeof("mark");
        } else if (!strcmp(verb, "balance")) {
            put_int((long long)__sanitizer_get_current_allocated_bytes() - (long long)sizeof("balance") - (long long)mark);
        } else {
            _exit(85);
        }
        free(verb);
    }
    put_str("DONE");
    srv_flush();
    _exit(0);
}
