From 2450228f71e798aa1cdf24a979c87eb2018f599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 01/46] fix: do not cut off last character of input without
 trailing newline

---
 src/util/console_util.c | 412 ++++++++++++++++++++--------------------
 1 file changed, 208 insertions(+), 204 deletions(-)

diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..54ce02c 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,204 +1,208 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (last line of a file does not need to have one)
+    size_t length = strlen(*out_input);
+    if (length > 0 && (*out_input)[length - 1] == '\n')
+    {
+        (*out_input)[length - 1] = '\0';
+    }
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0


From 7d7d2c1408632f446e1769a07636b5e9fa44d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 02/46] fix: do not cut off last character of ruleset file
 without trailing newline

---
 src/engine/transformation/rule_parsing.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..25beace 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -197,7 +197,9 @@ ssize_t parse_rulesets_from_file(FILE *file,
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        // Overwrite newline char (last line of a file does not need to have one)
+        size_t length = strlen(line);
+        if (length > 0 && line[length - 1] == '\n') line[length - 1] = '\0';
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
-- 
2.43.0


From 17fb793d18673d97478e491606f4be483cde9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 03/46] fix: reject closing parenthesis after operator that
 lacks its operand

---
 src/engine/parsing/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..b5221cc 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -209,6 +209,12 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
         // III. Is token closing parenthesis or argument delimiter?
         if (is_closing_parenthesis(token))
         {
+            // Without a preceding operand, only an empty parameter list can be closed
+            if (!await_infix && (op_peek(&state) == NULL || op_peek(&state)->op != NULL)) // '1+)'
+            {
+                ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+            }
+
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-- 
2.43.0


From a3b50d27c7e6d273404cd8cf495f9c8386bd0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 04/46] fix: crash on delimiter within nested parentheses

---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index b5221cc..85b9514 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -283,7 +283,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 5816b3d5989ce25b1808e18d3b43c901bbc39350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:12 +0000
Subject: [PATCH 05/46] fix: crash when right side of definition can not be
 evaluated

---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 1 file changed, 248 insertions(+), 248 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..7622e80 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
-- 
2.43.0


From 1273ccbb2a67653ae29433311ad141e8df78512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 06/46] fix: assign unique id to operator that is added after
 another has been deleted

---
 src/engine/parsing/context.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..326b123 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -94,7 +94,9 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    // Do not use element count as id: It might be taken if another operator has been deleted
+    ListNode *last = ctx->op_list.last;
+    op.id = (last != NULL) ? ((Operator*)listnode_get_data(last))->id + 1 : 0;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
-- 
2.43.0


From 44324fe23e7b73b6fecee0594e58b9701b769580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 07/46] fix: add negative results to history when
 simplification is loaded

---
 src/client/commands/cmd_evaluation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..e8a9157 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,11 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // Simplified constant results are not necessarily constant nodes (e.g. negative numbers)
+    double result;
+    if (tree_reduce(node, arith_op_evaluate, &result, NULL) == LISTENERERR_SUCCESS)
     {
-        history_add(get_const_value(node));
+        history_add(result);
     }
     free_tree(node);
     return true;
-- 
2.43.0


From a379ab7f15e3af10707286eea14666eacd908234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 08/46] fix: binomial coefficient is zero when k is greater
 than n

---
 src/client/core/arith_evaluation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..ed48caa 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -60,6 +60,7 @@ static double binomial(double n, double k)
     k = fabs(trunc(k));
 
     if (k == 0) return 1;
+    if (k > n) return 0;
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-- 
2.43.0


From 09188af028ff0b4ca248817b00d4cb9e3c87f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 09/46] fix: gcd and lcm do not terminate on infinite and very
 large operands

---
 src/client/core/arith_evaluation.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index ed48caa..79fbbea 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -33,25 +33,15 @@ static double euclid(double a, double b)
     a = fabs(trunc(a));
     b = fabs(trunc(b));
 
-    if (a == 0)
-    {
-        return b;
-    }
-    else
+    if (!isfinite(a) || !isfinite(b)) return NAN;
+
+    while (b != 0)
     {
-        while (b != 0)
-        {
-            if (a > b)
-            {
-                a = a - b;
-            }
-            else
-            {
-                b = b - a;
-            }
-        }
-        return a;
+        double remainder = fmod(a, b);
+        a = b;
+        b = remainder;
     }
+    return a;
 }
 
 static double binomial(double n, double k)
-- 
2.43.0


From 302a2a24e8d97dced375ff61afc5f410a3ccbb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 10/46] fix: crash and exponential runtime of fib on large
 operands

---
 src/client/core/arith_evaluation.c | 34 +++++++++++-------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 79fbbea..cce68cf 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -62,32 +62,22 @@ static double binomial(double n, double k)
     return res;
 }
 
-static long fib(long n)
-{
-    if (n == 0) return 0;
-    if (n == 1) return 1;
-    if (n == -1) return 1;
-    return fib(n - 1) + fib(n - 2); 
-}
-
 static double fibonacci(double n)
 {
-    long l = (long)n;
-    if (l < 0) // Generalization to negative numbers
-    {
-        if (l % 2 == 0)
-        {
-            return -fib(labs(l));
-        }
-        else
-        {
-            return fib(labs(l));
-        }
-    }
-    else
+    n = trunc(n);
+    if (isnan(n)) return n;
+
+    double curr = 0;
+    double next = 1;
+    for (double i = 0; i < fabs(n) && isfinite(curr); i++)
     {
-        return fib(l);
+        double temp = curr + next;
+        curr = next;
+        next = temp;
     }
+
+    // Generalization to negative numbers
+    return (n < 0 && fmod(n, 2) == 0) ? -curr : curr;
 }
 
 /*
-- 
2.43.0


From dc6cc3b2c1d12b9e6955c338e1df49be133104f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 11/46] fix: factorial and binomial coefficient do not
 terminate on very large operands

---
 src/client/core/arith_evaluation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index cce68cf..74d713b 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -54,7 +54,7 @@ static double binomial(double n, double k)
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-    for (double i = 1; i <= k; i++)
+    for (double i = 1; i <= k && isfinite(res); i++)
     {
         res = (res * (n - k + i)) / i;
     }
@@ -159,7 +159,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             else
             {
                 double res = 1;
-                for (double i = trunc(args[0]); i > 1; i--)
+                for (double i = trunc(args[0]); i > 1 && isfinite(res); i--)
                 {
                     res *= i;
                 }
-- 
2.43.0


From 0e7c77b431c549450bf71cfedf847e6a98c24d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 12/46] fix: power of negative base is only complex when
 exponent is not an integer

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 74d713b..9dedfb3 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -135,7 +135,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             }
         case 8: // x^y
             if (args[0] == 0 && args[1] <= 0) return LISTENERERR_DIVISION_BY_ZERO;
-            if (args[0] < 0 && args[1] < 1) return LISTENERERR_COMPLEX_SOLUTION;
+            if (args[0] < 0 && trunc(args[1]) != args[1]) return LISTENERERR_COMPLEX_SOLUTION;
             *out = pow(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 9: // x C y
-- 
2.43.0


From 224fd7d1200e118af43c940897d236fcd7e5b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:53 +0000
Subject: [PATCH 13/46] fix: do not treat expressions that begin with clear as
 command

---
 src/client/commands/cmd_clear.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_clear.c b/src/client/commands/cmd_clear.c
index aed56c2..793c7a6 100644
--- a/src/client/commands/cmd_clear.c
+++ b/src/client/commands/cmd_clear.c
@@ -13,7 +13,7 @@
 int cmd_clear_check(const char *input)
 {
     if (strcmp(CLEAR_COMMAND, input) == 0) return CLEAR_CODE;
-    if (begins_with(CLEAR_COMMAND, input)) return UNDEF_CODE;
+    if (begins_with(CLEAR_COMMAND " ", input)) return UNDEF_CODE;
     return false;
 }
 
-- 
2.43.0


From 0374a202cf18f8e7d929de66a22682ce8f64a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:27 +0000
Subject: [PATCH 14/46] fix: matching reads out of bounds when bound list is
 longer than remaining operands

---
 src/engine/transformation/matching.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 5f7d6b2..306a0c9 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -128,10 +128,10 @@ static void match_parameter_lists(
             {
                 // Current pattern-child is list-variable
                 NodeList *list = &matching.mapped_nodes[get_id(pattern_children[curr.distance])];
-                if (list->nodes != NULL && new_sum + 1 <= num_tree_children)
+                if (list->nodes != NULL)
                 {
                     // List is already bound, thus also its length is bound
-                    VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
+                    if (new_sum + list->size <= num_tree_children) VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
                         .first_match_index = SIZE_MAX,
                         .num_matchings     = 0,
                         .label             = list->size,
-- 
2.43.0


From 1be3da5bab1f077c06e6888395092b532faf3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:27 +0000
Subject: [PATCH 15/46] fix: out of bounds access on too many rulesets in file

---
 src/engine/transformation/rule_parsing.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 25beace..9b71b3c 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -206,16 +206,11 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (begins_with(RULESET, line))
         {
+            if (curr_ruleset + 1 == (ssize_t)buffer_size) break; // Buffer is full
             curr_ruleset++;
             continue;
         }
 
-        if (curr_ruleset == (ssize_t)buffer_size)
-        {
-            curr_ruleset--; // Adjusted for right return value
-            break;          // Buffer is full
-        }
-
         if (line[0] == '\0') continue;
 
         if (curr_ruleset != -1)
-- 
2.43.0


From c71ff81ac462a3d8a6dff3667c1648838d5d3c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:27 +0000
Subject: [PATCH 16/46] fix: user-defined constants corrupt derivation when
 simplification is loaded afterwards

---
 src/client/simplification/simplification.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 79acbb8..0a4647e 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -17,7 +17,8 @@
 #include "propositional_context.h"
 #include "propositional_evaluation.h"
 
-#define P(x) (parse_easy(g_ctx, x))
+// Not parsed with g_ctx because it contains user-defined functions and constants
+#define P(x) (parse_easy(g_propositional_ctx, x))
 #define NUM_RULESETS 7
 
 /*
-- 
2.43.0


From 8d9405f74aed2cff84a492ea896fe46e13277c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:27 +0000
Subject: [PATCH 17/46] fix: load command succeeds even when commands in file
 fail

---
 src/client/commands/cmd_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..7111575 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -51,9 +51,9 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         
         // Set g_interactive to false to read with getline from file
         bool interactive = set_interactive(false);
-        process_input(file);
+        bool success = process_input(file);
         set_interactive(interactive);
         fclose(file);
-        return true;
+        return success;
     }
 }
-- 
2.43.0


From 191d8d604ad1da95b0a0bd76792b71ad57f0cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:27 +0000
Subject: [PATCH 18/46] fix: keep current simplification and report failure
 when ruleset is malformed or missing

---
 src/client/commands/cmd_load.c             |  6 +++++-
 src/client/simplification/simplification.c | 25 ++++++++++++++++------
 src/engine/transformation/rule_parsing.c   |  1 +
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 7111575..45ec5a8 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -25,13 +25,17 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
     if (begins_with(LOAD_SIMPLIFICATION, input))
     {
         input += strlen(LOAD_SIMPLIFICATION);
-        unload_simplification();
         ssize_t count = init_simplification(input);
         if (count == -1)
         {
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count == -2)
+        {
+            report_error("Malformed simplification ruleset\n");
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 0a4647e..dc54813 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -78,21 +78,32 @@ ssize_t init_simplification(const char *ruleset_path)
 
     if (ruleset_file == NULL) return -1;
 
+    Vector new_rulesets[NUM_RULESETS];
     for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        rulesets[i] = get_empty_ruleset();
+        new_rulesets[i] = get_empty_ruleset();
     }
-    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
-    if (num_rulesets == -1)
+    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, new_rulesets);
+    fclose(ruleset_file);
+    if (num_rulesets != NUM_RULESETS)
     {
+        if (num_rulesets != -1)
+        {
+            report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        }
+        for (size_t i = 0; i < NUM_RULESETS; i++)
+        {
+            free_ruleset(&new_rulesets[i]);
+        }
         return -2;
     }
-    if (num_rulesets != NUM_RULESETS)
+
+    // Only replace current rulesets when new ones have successfully been loaded
+    unload_simplification();
+    for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
-        return -2;
+        rulesets[i] = new_rulesets[i];
     }
-    fclose(ruleset_file);
 
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 9b71b3c..3483461 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -218,6 +218,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
             if (!parse_rule(line, ctx, vec_push_empty(&out_rulesets[curr_ruleset])))
             {
                 report_error("Error occurred in line %zu: %s.\n", line_index, line);
+                vec_pop(&out_rulesets[curr_ruleset]); // Is not initialized
                 goto error;
             }
         }
-- 
2.43.0


From 0a1b34d38c312606bd8d0e10e957bbe1924723b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:27 +0000
Subject: [PATCH 19/46] fix: do not silently ignore constraints of a rule when
 there are too many

---
 src/engine/transformation/rule_parsing.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 3483461..c0f0bcc 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -60,14 +60,18 @@ bool parse_constraints(const char *string,
             next_and += strlen(AND);
         }
 
+        if (*num_constraints == buffer_size)
+        {
+            report_pattern_errcode(MATCHING_MAX_CONSTRAINTS_EXCEEDED);
+            goto error;
+        }
+
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
         str = next_and;
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From 09ad58307d9acd156468ba373b620d82089e437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:36 +0000
Subject: [PATCH 20/46] fix: wrong operand count within parentheses is reported
 as unexpected closing parenthesis

---
 src/engine/parsing/parser.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 85b9514..c918860 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -218,11 +218,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-                if (!op_pop_and_insert(&state))
-                {
-                    state.curr_tok = i;
-                    ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
-                }
+                if (!op_pop_and_insert(&state)) goto exit;
             }
             
             if (op_peek(&state) != NULL)
-- 
2.43.0


From d1611a5b3bfd54a734e94a13d4700f8e2438d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:14 +0000
Subject: [PATCH 21/46] fix: distributive rule of simplification drops the
 remaining factors

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index e2732be..1fe6d06 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -130,7 +130,7 @@ RULESET
     prod([xs], x^y, [ys], x, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
     prod([xs], x^z, [ys], x^y, [zs]) -> prod([xs], x^sum(y,z), [ys], [zs])
 
-    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), x^sum(y,z))
+    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), prod([xs], x^sum(y,z), [ys], [zs]))
 
     # Trigonometrics
     sum([xs], cos(x)^2, [ys], sin(x)^2, [zs])   -> sum(1, [xs], [ys], [zs])
-- 
2.43.0


From 5c93a79c470ce1c311d28add8cef5c469de87e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 22/46] fix: deleting an operator breaks tokenization of
 operators of same name but different placement

---
 src/engine/parsing/context.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 326b123..e618703 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -113,8 +113,14 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
         list_delete_node(&ctx->op_list, *node);
-        trie_remove_str(&ctx->keywords_trie, name);
         trie_remove_str(&ctx->op_tries[placement], name);
+        // Keep keyword if there is another operator of same name with different placement
+        bool keyword_needed = false;
+        for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
+        {
+            if (trie_contains(&ctx->op_tries[i], name, NULL)) keyword_needed = true;
+        }
+        if (!keyword_needed) trie_remove_str(&ctx->keywords_trie, name);
         return true;
     }
     else
-- 
2.43.0


From d46587a79c5038a04b3db0396bcaf11b920e5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 23/46] fix: glue-op dangles after its operator has been
 deleted

---
 src/engine/parsing/context.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index e618703..72d1f26 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -112,6 +112,8 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     ListNode **node = NULL;
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
+        // Glue-op must not point to deleted operator
+        if (ctx->glue_op == listnode_get_data(*node)) ctx->glue_op = NULL;
         list_delete_node(&ctx->op_list, *node);
         trie_remove_str(&ctx->op_tries[placement], name);
         // Keep keyword if there is another operator of same name with different placement
-- 
2.43.0


From a97cd49b431e2dd6e5974c508d6588b0c0a0365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:50 +0000
Subject: [PATCH 24/46] fix: undefined conversion of history index and operands
 of rand that are out of range

---
 src/client/core/arith_evaluation.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 9dedfb3..ed826c5 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <time.h>
 #include <float.h>
@@ -87,9 +88,11 @@ static double random_between(double min, double max)
 {
     min = trunc(min);
     max = trunc(max);
-    long diff = (long)(max - min);
-    if (diff < 1) return -1;
-    return rand() % diff + min;
+    double diff = max - min;
+    if (!(diff >= 1)) return -1;
+    // Conversion of values that are out of range is undefined, rand does not exceed RAND_MAX anyway
+    if (diff > RAND_MAX) return rand() + min;
+    return rand() % (long)diff + min;
 }
 
 ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const double *args, double *out)
@@ -101,7 +104,9 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             return LISTENERERR_SUCCESS;
         case 1: // @x
         {
-            bool res = history_get((int)args[0], out);
+            // Conversion of values that are out of range (or NaN) is undefined
+            double index = trunc(args[0]);
+            bool res = index >= 0 && index < (double)SIZE_MAX && history_get((size_t)index, out);
             if (res)
             {
                 return LISTENERERR_SUCCESS;
-- 
2.43.0


From f7e9c395c02864c16a53d3c25ec1355d75c0aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:08 +0000
Subject: [PATCH 25/46] fix: name of prefix operator is used as format string
 when printing

---
 src/engine/tree/tree_to_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 1284fc6..80b61d8 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, get_op(node)->name);
+    strbuilder_append(builder, "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
-- 
2.43.0


From 0948d9f1548472e5f4df7d1baea10be66aee8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:42 +0000
Subject: [PATCH 26/46] fix: wrap postfix operator in parentheses when
 right-associative infix operator has same precedence

---
 src/engine/tree/tree_to_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 80b61d8..bfc4cb1 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -109,10 +109,11 @@ static void infix_to_str(StringBuilder *builder, bool color, const Node *node, b
     strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? " %s " : "%s", get_op(node)->name);
     
     // Checks if right operand of infix operator needs to be wrapped in parentheses (see analog case for left operand)
+    // A postfix operator of the same precedence would be parsed as if it was applied to the whole infix expression
     if (get_type(childR) == NTYPE_OPERATOR
         && (get_op(childR)->precedence < get_op(node)->precedence
             || (get_op(childR)->precedence == get_op(node)->precedence
-                && get_op(node)->assoc == OP_ASSOC_LEFT)))
+                && (get_op(node)->assoc == OP_ASSOC_LEFT || get_op(childR)->placement == OP_PLACE_POSTFIX))))
     {
         p_open(builder);
         to_str(builder, color, childR, false, false);
-- 
2.43.0


From 0caf764a5d609e735899cabd643339f9ab103b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:29 +0000
Subject: [PATCH 27/46] fix: simplification must not hide evaluation errors of
 constant subexpressions

---
 src/client/simplification/simplification.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index dc54813..9b81bf4 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -216,6 +216,9 @@ ListenerError simplify(Node **tree, const Node **errnode)
     // It's okay if simplification module is not initialized, just return without doing much
     if (!initialized) return res;
 
+    // Derivatives of constants are eliminated below, any other error must not be simplified away
+    if (res != LISTENERERR_SUCCESS && res != LISTENERERR_IMPOSSIBLE_DERIV) return res;
+
     // Apply elimination rules
     simplify_without_derivative(tree);
     res = apply_derivatives(tree, errnode);
-- 
2.43.0


From d0b2243997458600aae271d21bfa89468472c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:05 +0000
Subject: [PATCH 28/46] fix: exit status of quit within a loaded file ignores
 commands that failed before

---
 src/client/commands/commands.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 2721442..727f343 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -84,6 +84,9 @@ void init_commands()
     init_history();
 }
 
+// Any command failed so far, in whatever file it has been (quit within a loaded file closes application)
+static bool command_failed = false;
+
 /*
 Summary: Loop to ask user or file for command, ignores comments
     You may want to call set_interactive before.
@@ -98,13 +101,14 @@ bool process_input(FILE *file)
         if (strcmp(input, QUIT_COMMAND) == 0)
         {
             free(input);
-            exit(res ? EXIT_SUCCESS : EXIT_FAILURE);
+            exit(command_failed ? EXIT_FAILURE : EXIT_SUCCESS);
         }
         if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
         {
             if (!exec_command(input))
             {
                 res = false;
+                command_failed = true;
             }
         }
         free(input);
-- 
2.43.0


From 763d441afb15e95e8d50f1f5a4dc6c2adc5f17bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:20 +0000
Subject: [PATCH 29/46] fix: commands passed as arguments are not treated as if
 typed in (comments, empty lines, quit)

---
 src/client/commands/commands.c | 34 +++++++++++++++++++++++-----------
 src/client/commands/commands.h |  1 +
 src/client/main.c              |  2 +-
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 727f343..2d811f6 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -87,6 +87,27 @@ void init_commands()
 // Any command failed so far, in whatever file it has been (quit within a loaded file closes application)
 static bool command_failed = false;
 
+/*
+Summary: Executes a line of input: Quits, ignores empty lines and comments or executes command
+Returns: False if command exited with an error, true otherwise
+*/
+bool process_line(char *input)
+{
+    if (strcmp(input, QUIT_COMMAND) == 0)
+    {
+        exit(command_failed ? EXIT_FAILURE : EXIT_SUCCESS);
+    }
+    if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
+    {
+        if (!exec_command(input))
+        {
+            command_failed = true;
+            return false;
+        }
+    }
+    return true;
+}
+
 /*
 Summary: Loop to ask user or file for command, ignores comments
     You may want to call set_interactive before.
@@ -98,18 +119,9 @@ bool process_input(FILE *file)
     char *input = NULL;
     while (ask_input(file, &input, NULL))
     {
-        if (strcmp(input, QUIT_COMMAND) == 0)
-        {
-            free(input);
-            exit(command_failed ? EXIT_FAILURE : EXIT_SUCCESS);
-        }
-        if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
+        if (!process_line(input))
         {
-            if (!exec_command(input))
-            {
-                res = false;
-                command_failed = true;
-            }
+            res = false;
         }
         free(input);
     }
diff --git a/src/client/commands/commands.h b/src/client/commands/commands.h
index 72e4b2d..6c89833 100644
--- a/src/client/commands/commands.h
+++ b/src/client/commands/commands.h
@@ -5,4 +5,5 @@
 void init_commands();
 void unload_commands();
 bool process_input(FILE *file);
+bool process_line(char *input);
 bool exec_command(char *input);
diff --git a/src/client/main.c b/src/client/main.c
index 7fbbe5f..02af7e4 100644
--- a/src/client/main.c
+++ b/src/client/main.c
@@ -114,7 +114,7 @@ int main(int argc, char **argv)
     {
         for (int i = commands_index + 1; i < argc; i++)
         {
-            if (!exec_command(argv[i]))
+            if (!process_line(argv[i]))
             {
                 report_error("Error occurred in command %d\n", i - commands_index);
                 return EXIT_FAILURE;
-- 
2.43.0


From a6e0bc2f75212ac764189405f78f818bdb800f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:48 +0000
Subject: [PATCH 30/46] fix: simplification does not terminate when constant
 subtree without value prevents folding of others

---
 src/engine/tree/tree_util.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/engine/tree/tree_util.c b/src/engine/tree/tree_util.c
index 23d2484..081f146 100644
--- a/src/engine/tree/tree_util.c
+++ b/src/engine/tree/tree_util.c
@@ -421,27 +421,37 @@ Params:
 */
 ListenerError tree_reduce_constant_subtrees(Node **tree, TreeListener listener, const Node **out_errnode)
 {
-    if (count_all_variable_nodes(*tree) == 0)
+    ListenerError res = LISTENERERR_SUCCESS;
+    bool constant = (count_all_variable_nodes(*tree) == 0);
+
+    if (constant)
     {
-        double res;
-        ListenerError err = tree_reduce(*tree, listener, &res, out_errnode);
-        if (err != LISTENERERR_SUCCESS) return err;
-        Node *replacement = malloc_constant_node(res, get_token_index(*tree));
-        tree_replace(tree, replacement);
+        double val;
+        res = tree_reduce(*tree, listener, &val, out_errnode);
+        if (res == LISTENERERR_SUCCESS)
+        {
+            Node *replacement = malloc_constant_node(val, get_token_index(*tree));
+            tree_replace(tree, replacement);
+            return res;
+        }
     }
-    else
+
+    // Tree as a whole has no value, but its subtrees can have one (even if a preceding one has not)
+    if (get_type(*tree) == NTYPE_OPERATOR)
     {
-        if (get_type(*tree) == NTYPE_OPERATOR)
+        for (size_t i = 0; i < get_num_children(*tree); i++)
         {
-            for (size_t i = 0; i < get_num_children(*tree); i++)
+            const Node *errnode = NULL;
+            ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, &errnode);
+            if (res == LISTENERERR_SUCCESS && err != LISTENERERR_SUCCESS)
             {
-                ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, out_errnode);
-                if (err != LISTENERERR_SUCCESS) return err;
+                res = err;
+                if (out_errnode != NULL) *out_errnode = errnode;
             }
         }
     }
 
-    return LISTENERERR_SUCCESS;
+    return res;
 }
 
 /*
-- 
2.43.0


From 0c7b76e5d8f6d942c76613d771429ede710f19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:59 +0000
Subject: [PATCH 31/46] fix: width of spanning cell counts wrong vertical
 borders

---
 src/table/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 8c11ce9..c5f4b51 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -235,7 +235,7 @@ static size_t get_total_width(const Table *table, const size_t *col_widths, stru
     size_t sum = 0;
     for (size_t i = 0; i < cell->span_x; i++)
     {
-        if (i != 0 && table->border_left_counters[cell->x + i + 1] > 0) sum++;
+        if (i != 0 && table->border_left_counters[cell->x + i] > 0) sum++;
         sum += col_widths[cell->x + i];
     }
     return sum;
-- 
2.43.0


From 2042362469ac3e713aeb5573131cafaf2f06450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:59 +0000
Subject: [PATCH 32/46] fix: first line of table cell is lost when it is empty

---
 src/util/string_util.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 0636a00..eb7a23d 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -94,26 +94,19 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
     }
 
     // Search for start of line
-    if (line_index > 0)
+    while (line_index > 0 && *string != '\0')
     {
-        while (*string != '\0')
+        if (*string == '\n')
         {
-            string++;
-            if (*string == '\n')
-            {
-                line_index--;
-                if (line_index == 0)
-                {
-                    string++;
-                    break;
-                }
-            }
+            line_index--;
         }
+        string++;
     }
 
     // String does not have that much lines
     if (line_index != 0)
     {
+        *out_start = NULL;
         return 0;
     }
 
-- 
2.43.0


From 268209d8a2463a3ae58f4e1e9aa0022d08cd5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:59 +0000
Subject: [PATCH 33/46] fix: consecutive color codes count towards width of
 table cell

---
 src/util/string_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index eb7a23d..e0b0bdf 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -123,10 +123,11 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
 
 char *skip_ansi(const char *str)
 {
-    if (*str == ESC_START)
+    while (*str == ESC_START)
     {
         while (*str != ESC_END)
         {
+            if (*str == '\0') return (char*)str;
             str++;
         }
         str++;
-- 
2.43.0


From b4eee5380cbc9ba89471e742a28af4f5a6f9b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:18 +0000
Subject: [PATCH 34/46] fix: multi-byte characters count more than once towards
 width of table cell

---
 src/table/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index c5f4b51..ae82afa 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -109,6 +109,7 @@ static TableVAlign get_v_align(TableVAlign default_v, const struct Cell *cell)
 /*
 Summary: Calculates length of string displayed in console,
     i.e. reads until \0 or \n and omits ANSI-escaped color sequences
+    and continuation bytes of UTF-8 characters
     Todo: Consider \t and other special chars
 */
 size_t console_strlen(const char *str)
@@ -117,8 +118,8 @@ size_t console_strlen(const char *str)
     str = skip_ansi(str);
     while (*str != '\0' && *str != '\n')
     {
+        if (((unsigned char)*str & 0xC0) != 0x80) res++;
         str = skip_ansi(str + 1);
-        res++;
     }
     return res;
 }
-- 
2.43.0


From 43de3439996c013110a689d686899b4941dff634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:23 +0000
Subject: [PATCH 35/46] fix: table span that clashes with set cell is truncated
 to nothing

---
 src/table/table.c | 53 +++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/table/table.c b/src/table/table.c
index ae82afa..cb2e664 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -951,41 +951,44 @@ void set_span(Table *table, size_t span_x, size_t span_y)
     assert(cell->span_x == 1);
     assert(cell->span_y == 1);
 
-    cell->span_x = span_x;
-    cell->span_y = span_y;
-    table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
-
     // Inserts rows and sets child cells
     struct Row *row = table->curr_row;
     for (size_t i = 0; i < span_y; i++)
     {
-        for (size_t j = 0; j < span_x; j++)
+        // Truncate span when it clashes with already set cell
+        for (size_t j = (i == 0 ? 1 : 0); j < span_x; j++)
         {
-            if (i == 0 && j == 0) continue;
-            struct Cell *child = &row->cells[cell->x + j];
-
-            if (!child->is_set)
+            if (row->cells[cell->x + j].is_set)
             {
-                child->is_set = true;
-                child->parent = cell;
-                
-                if (j != 0)
+                if (i == 0)
                 {
-                    child->border_left = BORDER_NONE;
-                    child->override_border_left = true;
+                    span_x = j;
                 }
-                if (i != 0)
+                else
                 {
-                    child->border_above = BORDER_NONE;
-                    child->override_border_above = true;
+                    span_y = i;
                 }
             }
-            else
+        }
+        if (i == span_y) break;
+
+        for (size_t j = 0; j < span_x; j++)
+        {
+            if (i == 0 && j == 0) continue;
+            struct Cell *child = &row->cells[cell->x + j];
+
+            child->is_set = true;
+            child->parent = cell;
+
+            if (j != 0)
             {
-                // Span clashes with already set cell, truncate it and finalize method
-                cell->span_y = i;
-                cell->span_x = j;
-                return;
+                child->border_left = BORDER_NONE;
+                child->override_border_left = true;
+            }
+            if (i != 0)
+            {
+                child->border_above = BORDER_NONE;
+                child->override_border_above = true;
             }
         }
 
@@ -998,6 +1001,10 @@ void set_span(Table *table, size_t span_x, size_t span_y)
             row = row->next_row;
         }
     }
+
+    cell->span_x = span_x;
+    cell->span_y = span_y;
+    table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
 }
 
 void set_all_vlines(Table *table, TableBorderStyle style)
-- 
2.43.0


From 0cdaf312f7774094757da646f1ffa44df93a4aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:23 +0000
Subject: [PATCH 36/46] fix: text of spanning table cell is cut off when
 superfluous line is removed

---
 src/table/table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/table/table.c b/src/table/table.c
index cb2e664..228be2d 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -1057,6 +1057,8 @@ void fprint_table(Table *table, FILE *stream)
     size_t *row_heights = malloc_wrapper(table->num_rows * sizeof(size_t));
     get_dimensions(table, col_widths, row_heights);
     override_superfluous_lines(table, col_widths[table->num_cols - 1], row_heights[table->num_rows - 1]);
+    // Spanning cells may need more room when lines have been removed
+    get_dimensions(table, col_widths, row_heights);
     
     #ifdef DEBUG
     print_debug(table);
-- 
2.43.0


From 2d959894172ff3238f0471ef76f2fa9871c9a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:03 +0000
Subject: [PATCH 37/46] fix: negated sum is simplified to difference of its
 operands

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index 1fe6d06..9f00ac0 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -176,7 +176,7 @@ RULESET
     x^(-y)        -> 1/(x^y)
     x^0.5         -> sqrt(x)
     x^1           -> x
-    -(x+y)        -> x-y
+    -(x+y)        -> -x-y
     (-1)*x        -> -x
 
     x*(y/z)       -> (y*x)/z       WHERE type(y) == CONST
-- 
2.43.0


From b7b5c73b93d8bdfd7d748888448f458a073fb975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:30 +0000
Subject: [PATCH 38/46] fix: derivatives of quotients and roots are not
 possible

---
 simplification.ruleset | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simplification.ruleset b/simplification.ruleset
index 9f00ac0..84ddb16 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -35,6 +35,9 @@ RULESET
     deriv(x + y, z)     -> deriv(x, z) + deriv(y, z)
     deriv(x - y, z)     -> deriv(x, z) - deriv(y, z)
     deriv(x*y, z)       -> deriv(x, z)*y + x*deriv(y, z)
+    deriv(x/y, z)       -> (deriv(x, z)*y - x*deriv(y, z)) / y^2
+    deriv(sqrt(x), z)   -> deriv(x, z) / (2*sqrt(x))
+    deriv(root(x, y), z) -> deriv(x^(1/y), z)
     deriv(sin(x), z)    -> cos(x) * deriv(x, z)
     deriv(cos(x), z)    -> -sin(x) * deriv(x, z)
     deriv(tan(x), z)    -> deriv(x, z) * cos(x)^-2
-- 
2.43.0


From ad6198197dbc1c1cc60e783f26abb4c3c797911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:30 +0000
Subject: [PATCH 39/46] fix: keyword within a sequence of digits corrupts
 tokens

---
 src/engine/parsing/tokenizer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/tokenizer.c b/src/engine/parsing/tokenizer.c
index 1701bbe..78e93b7 100644
--- a/src/engine/parsing/tokenizer.c
+++ b/src/engine/parsing/tokenizer.c
@@ -72,8 +72,10 @@ Vector tokenize(const char *input, const Trie *keywords_trie)
             size_t keyword_len = trie_longest_prefix(keywords_trie, input + i, NULL);
             if (keyword_len > 0)
             {
+                // Keyword can start within a sequence of digits
+                push_token(input + next_token_start, i - next_token_start, &res);
                 push_token(input + i, keyword_len, &res);
-                next_token_start += keyword_len;
+                next_token_start = i + keyword_len;
                 i += keyword_len - 1;
                 next_state = TOKSTATE_NEW;
             }
-- 
2.43.0


From 760b17e9269fe8cdf0c2965dc5b1717bba6e5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:33 +0000
Subject: [PATCH 40/46] fix: newline in table errors tears message and marker
 apart

---
 src/client/commands/cmd_table.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index ec0375a..f6a211f 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -84,7 +84,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     size_t num_vars = list_variables(expr, 1, &var, &sufficient);
     if (!sufficient)
     {
-        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable\n");
+        report_error_at(args[0] - input, strlen(args[0]), "Error: More than one variable");
         goto exit;
     }
 
@@ -108,7 +108,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
 
     if (step_val == 0)
     {
-        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero\n");
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' must not be zero");
         goto exit;
     }
 
@@ -128,7 +128,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
             - get_variable_nodes((const Node**)&fold_expr, FOLD_VAR_2, 0, NULL) != 0)
         {
             report_error_at(args[4] - input, strlen(args[4]),
-                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'\n");
+                "Error: Fold expression must not contain any variables except '" FOLD_VAR_1 "' and '" FOLD_VAR_2 "'");
             goto exit;
         }
 
-- 
2.43.0


From 8b609daf37d711b297c93af7d50abfb3679e24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:17 +0000
Subject: [PATCH 41/46] fix: count in constraint of simplification rule ends
 the program

---
 src/client/simplification/propositional_evaluation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/simplification/propositional_evaluation.c b/src/client/simplification/propositional_evaluation.c
index 3a69afb..8ff08a0 100644
--- a/src/client/simplification/propositional_evaluation.c
+++ b/src/client/simplification/propositional_evaluation.c
@@ -58,6 +58,9 @@ ListenerError prop_op_evaluate(const Operator *op, size_t num_args, const double
         case NUM_ARITH_OPS + 14: // !
             *out = (args[0] != EVAL_FALSE) ? EVAL_FALSE : EVAL_TRUE;
             return LISTENERERR_SUCCESS;
+        case NUM_ARITH_OPS + 15: // count
+            *out = num_args;
+            return LISTENERERR_SUCCESS;
     }
 
     software_defect("[Prop] No reduction possible for operator %s.\n", op->name);
-- 
2.43.0


From da557184512d27c6b64293b38d508358e68f7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:17 +0000
Subject: [PATCH 42/46] fix: list variable as operand of operator with fixed
 arity corrupts expressions

---
 src/engine/transformation/rule_parsing.c | 33 ++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index c0f0bcc..ff16504 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -119,6 +119,28 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
     return false;
 }
 
+/*
+Summary: List variables can only be replaced within the operands of a function of dynamic arity
+*/
+static bool check_list_vars(const Node *tree, bool list_allowed)
+{
+    switch (get_type(tree))
+    {
+        case NTYPE_VARIABLE:
+            return list_allowed || get_var_name(tree)[0] != MATCHING_LIST_PREFIX;
+
+        case NTYPE_OPERATOR:
+            for (size_t i = 0; i < get_num_children(tree); i++)
+            {
+                if (!check_list_vars(get_child(tree, i), get_op(tree)->arity == OP_DYNAMIC_ARITY)) return false;
+            }
+            return true;
+
+        default:
+            return true;
+    }
+}
+
 bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_rule)
 {
     char *str = malloc_wrapper(strlen(string) + 1);
@@ -162,6 +184,17 @@ bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_
         goto error;
     }
 
+    bool lists_valid = check_list_vars(right_n, false);
+    for (size_t i = 0; i < num_constrs; i++)
+    {
+        lists_valid = lists_valid && check_list_vars(constrs[i], false);
+    }
+    if (!lists_valid)
+    {
+        report_error("List variable is not operand of a function with any number of operands.\n");
+        goto error;
+    }
+
     Pattern pattern;
     int err_code = get_pattern(left_n, num_constrs, constrs, &pattern);
     if (err_code != 0)
-- 
2.43.0


From 9c47799b333714abe34931badfcdd7d697fcc553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:44:23 +0000
Subject: [PATCH 43/46] fix: constraint with variable that is not in pattern is
 checked with arbitrary value

---
 src/engine/transformation/rule_parsing.c | 30 ++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index ff16504..78117c5 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -11,6 +11,7 @@ Could be heap but could also be string literal that is readonly
 #include "../util/console_util.h"
 #include "../util/string_util.h"
 #include "../tree/node.h"
+#include "../tree/tree_util.h"
 #include "../parsing/parser.h"
 #include "rule_parsing.h"
 #include "matching.h"
@@ -141,6 +142,26 @@ static bool check_list_vars(const Node *tree, bool list_allowed)
     }
 }
 
+/*
+Summary: Variables in constraints get their value by the matching, so they need to be part of the pattern
+*/
+static bool check_bounded_vars(const Node *constraint, const Node *pattern)
+{
+    if (get_type(constraint) == NTYPE_VARIABLE)
+    {
+        return get_variable_nodes(&pattern, get_var_name(constraint), 0, NULL) != 0;
+    }
+
+    if (get_type(constraint) == NTYPE_OPERATOR)
+    {
+        for (size_t i = 0; i < get_num_children(constraint); i++)
+        {
+            if (!check_bounded_vars(get_child(constraint, i), pattern)) return false;
+        }
+    }
+    return true;
+}
+
 bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_rule)
 {
     char *str = malloc_wrapper(strlen(string) + 1);
@@ -184,6 +205,15 @@ bool parse_rule(const char *string, const ParsingContext *ctx, RewriteRule *out_
         goto error;
     }
 
+    for (size_t i = 0; i < num_constrs; i++)
+    {
+        if (!check_bounded_vars(constrs[i], left_n))
+        {
+            report_error("Unbounded variable in constraint of rule.\n");
+            goto error;
+        }
+    }
+
     bool lists_valid = check_list_vars(right_n, false);
     for (size_t i = 0; i < num_constrs; i++)
     {
-- 
2.43.0


From 33ce06166f71ac2c36a3caa2c57f333af10d5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:16:15 +0000
Subject: [PATCH 44/46] fix: table does not terminate when bounds are infinite
 or step gets lost in rounding

---
 src/client/commands/cmd_table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index f6a211f..4d6ba87 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -145,6 +145,13 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         step_val *= -1;
     }
 
+    // Infinite bounds or a step that gets lost in rounding would be endless as well
+    if (start_val + step_val == start_val || end_val + step_val == end_val)
+    {
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' is too small");
+        goto exit;
+    }
+
     Table *table = get_empty_table();
     
     // Print header row only if interactive
-- 
2.43.0


From a9b8f41e832c33d0b72fecac0e90df4c19d1a81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:32:34 +0000
Subject: [PATCH 45/46] fix: check constraints of patterns without variables

A rule like '0^0 -> 1 WHERE FALSE' was applied although its constraint does
not hold: constraints are triggered when a variable is bound, and such a
pattern has none.
---
 src/engine/transformation/matching.c | 32 +++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 306a0c9..77e81e2 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -206,6 +206,20 @@ static bool nodelists_equal(const NodeList *a, const NodeList *b)
     return true;
 }
 
+// Checks constraints that are triggered by the variable with the given id
+static bool check_constraints(MatchingContext *ctx, const Matching *matching, size_t id)
+{
+    for (size_t i = 0; i < ctx->pattern->num_constraints[id]; i++)
+    {
+        Node *constr_cpy = tree_copy(ctx->pattern->constraints[id][i]);
+        transform_by_matching(matching, &constr_cpy);
+        bool res = ctx->checker(&constr_cpy);
+        free_tree(constr_cpy);
+        if (!res) return false;
+    }
+    return true;
+}
+
 static void extend_matching(
     MatchingContext *ctx,
     Matching matching,
@@ -234,16 +248,10 @@ static void extend_matching(
                 matching.mapped_nodes[id] = tree_list;
 
                 // Check constraints if its okay to bind
-                for (size_t i = 0; i < ctx->pattern->num_constraints[id]; i++)
+                if (check_constraints(ctx, &matching, id))
                 {
-                    Node *constr_cpy = tree_copy(ctx->pattern->constraints[id][i]);
-                    transform_by_matching(&matching, &constr_cpy);
-                    bool res = ctx->checker(&constr_cpy);
-                    free_tree(constr_cpy);
-                    if (!res) return;
+                    vec_push(out_matchings, &matching);
                 }
-
-                vec_push(out_matchings, &matching);
                 return;
             }
         }
@@ -304,6 +312,14 @@ size_t get_all_matchings(const Node **tree, const Pattern *pattern, ConstraintCh
         pattern->pattern,
         (NodeList){ .size = 1, .nodes = tree },
         &result);
+
+    // When the pattern has no variables, its constraints have not been triggered yet
+    if (vec_count(&result) != 0
+        && count_all_variable_nodes(pattern->pattern) == 0
+        && !check_constraints(&ctx, vec_get(&result, 0), 0))
+    {
+        vec_clear(&result);
+    }
     
     if (out_matchings != NULL)
     {
-- 
2.43.0


From bb2be0c9df2da7e21567ba75ab7b8c0bfcf041ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:27:40 +0000
Subject: [PATCH 46/46] fix: restore CRLF line endings of cmd_definition.c and
 console_util.c

Earlier fix commits converted the two files to LF as a whole; only the
repaired lines should differ.
---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 src/util/console_util.c              | 416 +++++++++++-----------
 2 files changed, 456 insertions(+), 456 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index 7622e80..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (right_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 54ce02c..376b967 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,208 +1,208 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char (last line of a file does not need to have one)
-    size_t length = strlen(*out_input);
-    if (length > 0 && (*out_input)[length - 1] == '\n')
-    {
-        (*out_input)[length - 1] = '\0';
-    }
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (last line of a file does not need to have one)
+    size_t length = strlen(*out_input);
+    if (length > 0 && (*out_input)[length - 1] == '\n')
+    {
+        (*out_input)[length - 1] = '\0';
+    }
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0

