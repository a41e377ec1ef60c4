From 93e85451291a80be6e86376b009e7526aeea5531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 01/25] fix: match keeps the subject for later arms and leaves
 nothing on the stack when no arm matches

---
 compiler/compiler.c | 47 ++++++++++++++++++++++++++++++++++++++++++---
 compiler/compiler.h |  2 ++
 interpreter/VM.c    |  4 ++++
 opcode.h            |  1 +
 4 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 6e099a0..cb2333d 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -138,6 +138,12 @@ static struct Scope *get_scope_in_use(const struct Compiler *const compiler) {
 	return in_function(compiler) ? compiler->params->scope : compiler->stack;
 }
 
+// Discards everything on the stack above the local variables currently in scope.
+static void reset_stack(struct Compiler *const compiler) {
+	compiler_add_byte(compiler, O_SETSP);
+	compiler_add_byte(compiler, (unsigned char) scope_len(get_scope_in_use(compiler)));
+}
+
 static struct Env *get_nearest(struct Env *env, const char *const name) {
 	while (!env_contains_cur_only(env, name)) {
 		env = env->parent;
@@ -325,6 +331,10 @@ unsigned char *compile(struct Compiler *const compiler) {
 			compiler->status |= compiler->parser.status;
 			return NULL;
 		}
+		if (compiler->stack_dirty) {
+			compiler->stack_dirty = false;
+			reset_stack(compiler);
+		}
 		visit(compiler, node);
 		YASL_ByteBuffer_extend(compiler->code, compiler->buffer->bytes, compiler->buffer->count);
 		compiler->buffer->count = 0;
@@ -999,9 +1009,17 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 
 	if (guard) {
 		YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start_guard, compiler->buffer->count - start_guard - 8);
-		if (bindings) {
-			for (unsigned char i = bindings; i > 0; i--)
-			compiler_add_byte(compiler, O_POP);
+		// The expression being matched is above the bindings here. It has to be kept for the remaining patterns,
+		// unless the next one doesn't look at it.
+		const bool keep_expr = patterns->children_len <= curr ||
+			patterns->children[curr]->nodetype != N_PATANY || guards->children[curr];
+		for (unsigned char i = bindings; i > 0; i--) {
+			if (keep_expr) {
+				compiler_add_byte(compiler, O_DEL_FP);
+				compiler_add_byte(compiler, (unsigned char) vars);
+			} else {
+				compiler_add_byte(compiler, O_POP);
+			}
 		}
 	}
 	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start, compiler->buffer->count - start - 8);
@@ -1012,6 +1030,17 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	}
 }
 
+static bool Pattern_isirrefutable(const struct Node *const pattern) {
+	switch (pattern->nodetype) {
+	case N_PATANY:
+	case N_PATLET:
+	case N_PATCONST:
+		return true;
+	default:
+		return false;
+	}
+}
+
 static void visit_Match(struct Compiler *const compiler, const struct Node *const node) {
 	struct Node *expr = Match_get_cond(node);
 	struct Node *patterns = Match_get_patterns(node);
@@ -1024,6 +1053,18 @@ static void visit_Match(struct Compiler *const compiler, const struct Node *cons
 	}
 
 	visit_Match_helper(compiler, patterns, guards, bodies, 0);
+
+	const size_t last = patterns->children_len - 1;
+	if (!guards->children[last] && Pattern_isirrefutable(patterns->children[last])) {
+		return;
+	}
+
+	// If none of the patterns matched, the expression is still on the stack.
+	if (!in_function(compiler) && compiler->stack && !compiler->stack->parent) {
+		compiler->stack_dirty = true;
+	} else {
+		reset_stack(compiler);
+	}
 }
 
 static void visit_If_true(struct Compiler *const compiler, const struct Node *const then_br, const struct Node *const else_br) {
diff --git a/compiler/compiler.h b/compiler/compiler.h
index d2dbd91..54693c9 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -23,6 +23,7 @@
 	.params = NULL,\
 	.expected_returns = 1,\
 	.leftmost_pattern = true,\
+	.stack_dirty = false,\
 	.seen_bindings = NEW_TABLE(),\
 	.strings = YASL_Table_new(),\
 	.buffer = YASL_ByteBuffer_new(16),\
@@ -48,6 +49,7 @@ struct Compiler {
 	struct Env *params;
 	int expected_returns;
 	bool leftmost_pattern;
+	bool stack_dirty;                  // there may be something left on the stack above the locals
 	struct YASL_Table seen_bindings;
 	struct YASL_Table *strings;
 	struct YASL_ByteBuffer *buffer;    // temporary buffer during code-gen
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 56000f7..f86b9ed 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1630,6 +1630,10 @@ void vm_executenext(struct VM *const vm) {
 		c = NCODE(vm);
 		vm_rm(vm, vm->fp + 1 + c);
 		break;
+	case O_SETSP:
+		c = NCODE(vm);
+		if (vm->sp > vm->fp + c) vm->sp = vm->fp + (int)c;
+		break;
 	case O_DECSP:
 		vm->sp -= NCODE(vm);
 		break;
diff --git a/opcode.h b/opcode.h
index 5666cbd..a05add2 100644
--- a/opcode.h
+++ b/opcode.h
@@ -59,6 +59,7 @@ enum Opcode {
 	O_SWAP = 0xB7, // swap the top two elements of the stack.
 	O_DUP = 0xB8, // duplicate top value of stack
 	O_DEL_FP = 0xB9, // deletes an element from the stack. Takes a one-byte index, indicating which element to delete.
+	O_SETSP = 0xBC, // discard everything above the first n locals. Takes a one-byte n.
 	O_DECSP = 0xBD,
 	O_INCSP = 0xBE,
 	O_POP = 0xBF, // pop top of stack
-- 
2.43.0


From e59724136020dcadec397150fc0f6d45c867b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 02/25] fix: captured variables outlive every way of leaving
 their scope, break and continue discard locals, slots above 127 work

---
 compiler/compiler.c   | 77 ++++++++++++++++++++++++++++++++++++-------
 compiler/compiler.h   |  2 ++
 compiler/env.c        | 11 ++++++-
 compiler/env.h        |  2 ++
 interpreter/VM.c      | 72 ++++++++++++++++++++--------------------
 interpreter/closure.c |  7 +---
 interpreter/upvalue.c |  6 ++++
 interpreter/upvalue.h |  1 +
 opcode.h              |  1 +
 9 files changed, 124 insertions(+), 55 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index cb2333d..a0a83a5 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -31,6 +31,7 @@ YASL_FORMAT_CHECK static void compiler_print_err(struct Compiler *compiler, cons
 
 #define break_checkpoint(compiler)    ((compiler)->checkpoints.items[(compiler)->checkpoints.count-1])
 #define continue_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-2])
+#define loop_locals_checkpoint(compiler) ((compiler)->checkpoints.items[(compiler)->checkpoints.count-3])
 
 
 void compiler_tables_del(struct Compiler *compiler) {
@@ -71,6 +72,12 @@ static inline void compiler_add_int(struct Compiler *const compiler, yasl_int n)
 	YASL_ByteBuffer_add_int(compiler->buffer, n);
 }
 
+// Closures that refer to the local variables from the given one on keep them alive once they go out of scope.
+static void close_upvals(struct Compiler *const compiler, const size_t first_local) {
+	compiler_add_byte(compiler, O_CLOSE);
+	compiler_add_byte(compiler, (unsigned char) first_local);
+}
+
 static void enter_scope(struct Compiler *const compiler) {
 	struct Scope **lval = in_function(compiler) ? &compiler->params->scope : &compiler->stack;
 	*lval = scope_new(*lval);
@@ -81,6 +88,9 @@ static void exit_scope(struct Compiler *const compiler) {
 	struct Scope *tmp = *lval;
 	 *lval = tmp->parent;
 	size_t num_locals = tmp->vars.count;
+	if (tmp->captured) {
+		close_upvals(compiler, scope_len(tmp->parent));
+	}
 	scope_del_current_only(tmp);
 	while (num_locals-- > 0) {
 		compiler_add_byte(compiler, O_POP);
@@ -109,6 +119,8 @@ static void sizebuffer_pop(struct SizeBuffer *sb) {
 	sb->count--;
 }
 
+static struct Scope *get_scope_in_use(const struct Compiler *const compiler);
+
 static void add_checkpoint(struct Compiler *const compiler, const size_t cp) {
 	sizebuffer_push(&compiler->checkpoints, cp);
 }
@@ -117,6 +129,33 @@ static void rm_checkpoint(struct Compiler *const compiler) {
 	sizebuffer_pop(&compiler->checkpoints);
 }
 
+// A loop has three checkpoints: the number of locals in scope, where to continue, and where to break.
+static void enter_loop(struct Compiler *const compiler, const size_t continue_cp) {
+	add_checkpoint(compiler, scope_len(get_scope_in_use(compiler)));
+	add_checkpoint(compiler, continue_cp);
+}
+
+static void exit_loop(struct Compiler *const compiler) {
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+	rm_checkpoint(compiler);
+}
+
+static bool in_loop(const struct Compiler *const compiler) {
+	return compiler->checkpoints.count > compiler->fn_checkpoints;
+}
+
+// Leaves all the scopes inside the innermost loop, without the compiler itself leaving them.
+static void leave_loop_scopes(struct Compiler *const compiler) {
+	const size_t outer = loop_locals_checkpoint(compiler);
+	size_t num_locals = scope_len(get_scope_in_use(compiler)) - outer;
+	if (num_locals == 0) return;
+	close_upvals(compiler, outer);
+	while (num_locals-- > 0) {
+		compiler_add_byte(compiler, O_POP);
+	}
+}
+
 static void visit(struct Compiler *const compiler, const struct Node *const node);
 
 static void visit_Body(struct Compiler *const compiler, const struct Node *const node) {
@@ -388,6 +427,9 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 }
 
 static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
+	const size_t old_fn_checkpoints = compiler->fn_checkpoints;
+	compiler->fn_checkpoints = compiler->checkpoints.count;
+
 	compiler->params = env_new(compiler->params);
 
 	enter_scope(compiler);
@@ -421,16 +463,21 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	if (compiler->params->isclosure) {
 		compiler->buffer->bytes[old_size - sizeof(yasl_int) - 1] = O_CCONST;
 		const size_t count = compiler->params->upval_indices.count;
+		if (count > 255) {
+			compiler_print_err_syntax(compiler, "Too many variables closed over in function (line %" PRI_SIZET ").\n", node->line);
+			handle_error(compiler);
+		}
 		compiler_add_byte(compiler, (unsigned char) count);
 		const size_t start = compiler->buffer->count;
-		// TODO what's below is wrong. We need to get the right value for the upvals.
-		for (size_t i = 0; i < count; i++) {
+		// Each upvalue is either a local variable or an upvalue of the enclosing function.
+		for (size_t i = 0; i < 2 * count; i++) {
 			compiler_add_byte(compiler, 0);
 		}
 		FOR_TABLE(i, item, &compiler->params->upval_indices) {
 			int64_t index = item->value.value.ival;
 			int64_t value = YASL_Table_search(&compiler->params->upval_values, item->key).value.ival;
-			compiler->buffer->bytes[start + index] = value;
+			compiler->buffer->bytes[start + 2 * index] = value < 0;
+			compiler->buffer->bytes[start + 2 * index + 1] = (unsigned char) (value < 0 ? ~value : value);
 		}
 	}
 
@@ -438,6 +485,7 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
 	compiler->params = tmp;
+	compiler->fn_checkpoints = old_fn_checkpoints;
 }
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
@@ -613,7 +661,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	decl_var(compiler, name, iter->line);
 
 	size_t index_start = compiler->buffer->count;
-	add_checkpoint(compiler, index_start);
+	enter_loop(compiler, index_start);
 
 	compiler_add_byte(compiler, O_ITER_1);
 
@@ -633,8 +681,7 @@ static void visit_ForIter(struct Compiler *const compiler, const struct Node *co
 	compiler_add_byte(compiler, O_ENDFOR);
 	exit_scope(compiler);
 
-	rm_checkpoint(compiler);
-	rm_checkpoint(compiler);
+	exit_loop(compiler);
 }
 
 static void enter_jump(struct Compiler *const compiler, size_t *index) {
@@ -670,7 +717,10 @@ static bool Node_isfalsey(const struct Node *const node) {
 }
 
 static void visit_While_false(struct Compiler *const compiler, const struct Node *const body, const struct Node *const post) {
+	enter_loop(compiler, compiler->buffer->count);
+	add_checkpoint(compiler, compiler->buffer->count);
 	validate(compiler, body);
+	exit_loop(compiler);
 	if (post) validate(compiler, post);
 }
 
@@ -694,7 +744,7 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 		exit_jump(compiler, &index);
 	}
 
-	add_checkpoint(compiler, index_start);
+	enter_loop(compiler, index_start);
 
 	visit(compiler, cond);
 
@@ -709,26 +759,27 @@ static void visit_While(struct Compiler *const compiler, const struct Node *cons
 
 	exit_conditional_false(compiler, &index_second);
 
-	rm_checkpoint(compiler);
-	rm_checkpoint(compiler);
+	exit_loop(compiler);
 }
 
 static void visit_Break(struct Compiler *const compiler, const struct Node *const node) {
-	if (compiler->checkpoints.count == 0) {
+	if (!in_loop(compiler)) {
 		compiler_print_err_syntax(compiler, "`break` outside of loop (line %" PRI_SIZET ").\n", node->line);
 		handle_error(compiler);
 		return;
 	}
+	leave_loop_scopes(compiler);
 	compiler_add_byte(compiler, O_BCONST_F);
 	branch_back(compiler, break_checkpoint(compiler));
 }
 
 static void visit_Continue(struct Compiler *const compiler, const struct Node *const node) {
-	if (compiler->checkpoints.count == 0) {
+	if (!in_loop(compiler)) {
 		compiler_print_err_syntax(compiler, "`continue` outside of loop (line %" PRI_SIZET ").\n", node->line);
 		handle_error(compiler);
 		return;
 	}
+	leave_loop_scopes(compiler);
 	branch_back(compiler, continue_checkpoint(compiler));
 }
 
@@ -998,6 +1049,7 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 		compiler_add_byte(compiler, O_POP);
 	}
 
+	const bool captured = get_scope_in_use(compiler)->captured;
 	visit(compiler, bodies->children[curr]);
 	exit_scope(compiler);
 
@@ -1013,6 +1065,9 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 		// unless the next one doesn't look at it.
 		const bool keep_expr = patterns->children_len <= curr ||
 			patterns->children[curr]->nodetype != N_PATANY || guards->children[curr];
+		if (captured) {
+			close_upvals(compiler, vars);
+		}
 		for (unsigned char i = bindings; i > 0; i--) {
 			if (keep_expr) {
 				compiler_add_byte(compiler, O_DEL_FP);
diff --git a/compiler/compiler.h b/compiler/compiler.h
index 54693c9..66cdc63 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -32,6 +32,7 @@
 	.lines = YASL_ByteBuffer_new(16),\
 	.line = 0,\
 	.checkpoints = NEW_SIZEBUFFER(4),\
+	.fn_checkpoints = 0,\
 	.status = YASL_SUCCESS,\
 	.num = 0,\
 })
@@ -58,6 +59,7 @@ struct Compiler {
 	struct YASL_ByteBuffer *lines;     // keeps track of current line number
 	size_t line;
 	struct SizeBuffer checkpoints;
+	size_t fn_checkpoints;             // number of checkpoints outside the current function
 	int status;
 	int64_t num;
 };
diff --git a/compiler/env.c b/compiler/env.c
index b648ba0..60d194b 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -44,6 +44,7 @@ struct Scope *scope_new(struct Scope *const parent) {
 	struct Scope *scope = (struct Scope *)malloc(sizeof(struct Scope));
 	scope->parent = parent;
 	scope->vars = NEW_TABLE();
+	scope->captured = false;
 	return scope;
 }
 
@@ -127,8 +128,8 @@ static int64_t env_add_upval(struct Env *env, struct Scope *stack, const char *c
 	env->isclosure = true;
 
 	if (!env->parent && scope_contains(stack, name)) {
+		scope_mark_captured(stack, name);
 		yasl_int value = get_index(scope_get(stack, name));
-		(void)value;
 		YASL_Table_insert(&env->upval_values, key, YASL_INT(value));
 		int64_t index = env->upval_indices.count;
 		YASL_Table_insert(&env->upval_indices, key, YASL_INT(index));
@@ -143,6 +144,7 @@ static int64_t env_add_upval(struct Env *env, struct Scope *stack, const char *c
 
 	if (env_contains_cur_only(env->parent, name)) {
 		env->parent->usedinclosure = true;
+		scope_mark_captured(env->parent->scope, name);
 		yasl_int value = get_index(scope_get(env->parent->scope, name));
 		YASL_Table_insert(&env->upval_values, key, YASL_INT(value));
 		int64_t index = env->upval_indices.count;
@@ -222,3 +224,10 @@ void scope_make_const(struct Scope *const scope, const char *const name) {
 	struct YASL_Table *ht = get_closest_scope_with_var(scope, name, name_len);
 	YASL_Table_insert_string_int(ht, name, name_len, ~YASL_Table_search_string_int(ht, name, name_len).value.ival);
 }
+
+void scope_mark_captured(struct Scope *scope, const char *const name) {
+	while (scope && !scope_contains_cur_only(scope, name)) {
+		scope = scope->parent;
+	}
+	if (scope) scope->captured = true;
+}
diff --git a/compiler/env.h b/compiler/env.h
index 11fffb0..50660c9 100644
--- a/compiler/env.h
+++ b/compiler/env.h
@@ -6,6 +6,7 @@
 struct Scope {
     struct Scope *parent;
     struct YASL_Table vars;
+    bool captured;            // true if some closure refers to a variable declared in this scope.
 };
 
 struct Env {
@@ -28,6 +29,7 @@ int64_t scope_get(const struct Scope *const scope, const char *const name);
 int64_t scope_decl_var(struct Scope *const scope, const char *const name);
 bool scope_used_in_closure(const struct Scope *const scope);
 void scope_make_const(struct Scope *const scope, const char *const name);
+void scope_mark_captured(struct Scope *scope, const char *const name);
 
 bool env_contains(const struct Env *env, const char *const name);
 bool env_contains_cur_only(const struct Env *const env, const char *const name);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index f86b9ed..c962528 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -74,10 +74,11 @@ void vm_init(struct VM *const vm,
 }
 
 void vm_close_all(struct VM *const vm);
+static void vm_close_from(struct VM *const vm, const struct YASL_Object *const end);
 
 void vm_cleanup(struct VM *const vm) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
-	vm_close_all(vm);
+	vm_close_from(vm, vm->stack);
 
 	// Exit out of all loops (in case we're exiting with an error).
 	while (vm->loopframe_num >= 0) {
@@ -569,31 +570,21 @@ void vm_stringify_top(struct VM *const vm) {
 	}
 }
 
+// Pending upvalues are kept sorted from the highest location to the lowest. The list itself holds a reference to each.
 static struct Upvalue *add_upvalue(struct VM *const vm, struct YASL_Object *const location) {
-	if (vm->pending == NULL) {
-		return (vm->pending = upval_new(location));
+	struct Upvalue **curr = &vm->pending;
+	while (*curr && (*curr)->location > location) {
+		curr = &(*curr)->next;
 	}
 
-	struct Upvalue *prev = NULL;
-	struct Upvalue *curr = vm->pending;
-	while (curr) {
-		if (curr->location > location) {
-			prev = curr;
-			curr = curr->next;
-			continue;
-		}
-		if (curr->location == location) {
-			return curr;
-		}
-		if (curr->location < location) {
-			struct Upvalue *upval = upval_new(location);
-			upval->next = curr->next;
-			curr->next = upval;
-			return upval;
-		}
-		return (curr->next = upval_new(location));
+	if (*curr && (*curr)->location == location) {
+		return *curr;
 	}
-	return (prev->next = upval_new(location));
+
+	struct Upvalue *upval = upval_new(location);
+	upval->rc.refs++;
+	upval->next = *curr;
+	return (*curr = upval);
 }
 
 static void vm_CCONST(struct VM *const vm) {
@@ -608,11 +599,12 @@ static void vm_CCONST(struct VM *const vm) {
 	closure->rc = NEW_RC();
 
 	for (size_t i = 0; i < num_upvalues; i++) {
-		unsigned char u = NCODE(vm);
-		if ((signed char)u >= 0) {
-			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
+		const bool is_upvalue = NCODE(vm);
+		const unsigned char u = NCODE(vm);
+		if (is_upvalue) {
+			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[u];
 		} else {
-			closure->upvalues[i] = vm->stack[vm->fp].value.lval->upvalues[~(signed char)u];
+			closure->upvalues[i] = add_upvalue(vm, &vm_peek(vm, vm->fp + 1 + u));
 		}
 		closure->upvalues[i]->rc.refs++;
 	}
@@ -1175,6 +1167,7 @@ static void vm_exitframe_multi(struct VM *const vm, int len) {
 }
 
 static void vm_exitframe(struct VM *const vm) {
+	vm_close_all(vm);
 	vm_rm_range(vm, vm->fp, vm->sp);
 
 	struct CallFrame frame = vm->frames[vm->frame_num];
@@ -1284,20 +1277,24 @@ void vm_CALL_now(struct VM *const vm) {
 }
 
 static void vm_RET(struct VM *const vm) {
+	vm_close_all(vm);
 	unsigned char len = NCODE(vm);
 	vm_exitframe_multi(vm, len);
 }
 
-static struct Upvalue *vm_close_all_helper(struct YASL_Object *const end, struct Upvalue *const curr) {
-	if (curr == NULL) return NULL;
-	if (curr->location < end) return curr;
-	inc_ref(curr->location);
-	upval_close(curr);
-	return (vm_close_all_helper(end, curr->next));
+// Close over every captured variable from the given location on.
+static void vm_close_from(struct VM *const vm, const struct YASL_Object *const end) {
+	while (vm->pending && vm->pending->location >= end) {
+		struct Upvalue *const curr = vm->pending;
+		vm->pending = curr->next;
+		inc_ref(curr->location);
+		upval_close(curr);
+		upval_dec_ref(curr);
+	}
 }
 
 void vm_close_all(struct VM *const vm) {
-	vm->pending = vm_close_all_helper(vm->stack + vm->fp, vm->pending);
+	vm_close_from(vm, vm->stack + (vm->fp < 0 ? 0 : vm->fp));
 }
 
 static void vm_ECHO(struct VM *const vm) {
@@ -1363,7 +1360,7 @@ void vm_setupconstants(struct VM *const vm) {
 
 void vm_executenext(struct VM *const vm) {
 	unsigned char opcode = NCODE(vm);        // fetch
-	signed char offset;
+	unsigned char offset;
 	struct YASL_Object a, b;
 	yasl_int c;
 	YASL_VM_DEBUG_LOG("----------------"
@@ -1608,9 +1605,6 @@ void vm_executenext(struct VM *const vm) {
 		vm_CALL(vm);
 		break;
 	case O_CRET:
-		vm_close_all(vm);
-		vm_RET(vm);
-		break;
 	case O_RET:
 		vm_RET(vm);
 		break;
@@ -1630,6 +1624,10 @@ void vm_executenext(struct VM *const vm) {
 		c = NCODE(vm);
 		vm_rm(vm, vm->fp + 1 + c);
 		break;
+	case O_CLOSE:
+		c = NCODE(vm);
+		vm_close_from(vm, vm->stack + vm->fp + 1 + c);
+		break;
 	case O_SETSP:
 		c = NCODE(vm);
 		if (vm->sp > vm->fp + c) vm->sp = vm->fp + (int)c;
diff --git a/interpreter/closure.c b/interpreter/closure.c
index 39d7d5b..bd4028a 100644
--- a/interpreter/closure.c
+++ b/interpreter/closure.c
@@ -2,12 +2,7 @@
 
 void closure_del_data(struct Closure *closure) {
 	for (size_t i = 0; i < closure->num_upvalues; i++) {
-		struct Upvalue *upval = closure->upvalues[i];
-		upval->rc.refs--;
-		if (upval->rc.refs == 0) {
-			dec_ref(upval->location);
-			free(upval);
-		}
+		upval_dec_ref(closure->upvalues[i]);
 	}
 }
 
diff --git a/interpreter/upvalue.c b/interpreter/upvalue.c
index 828dc1c..924c387 100644
--- a/interpreter/upvalue.c
+++ b/interpreter/upvalue.c
@@ -22,3 +22,9 @@ void upval_close(struct Upvalue *const upval) {
 	upval->location = &upval->closed;
 }
 
+void upval_dec_ref(struct Upvalue *const upval) {
+	// upvalues that are still open are kept alive by the list of pending upvalues, so this one must be closed.
+	if (--upval->rc.refs) return;
+	dec_ref(upval->location);
+	free(upval);
+}
diff --git a/interpreter/upvalue.h b/interpreter/upvalue.h
index c99d9b0..322a937 100644
--- a/interpreter/upvalue.h
+++ b/interpreter/upvalue.h
@@ -15,5 +15,6 @@ struct Upvalue *upval_new(struct YASL_Object *const location);
 struct YASL_Object upval_get(const struct Upvalue *const upval);
 void upval_set(struct Upvalue *const upval, const struct YASL_Object v);
 void upval_close(struct Upvalue *const upval);
+void upval_dec_ref(struct Upvalue *const upval);
 
 #endif
diff --git a/opcode.h b/opcode.h
index a05add2..768188b 100644
--- a/opcode.h
+++ b/opcode.h
@@ -59,6 +59,7 @@ enum Opcode {
 	O_SWAP = 0xB7, // swap the top two elements of the stack.
 	O_DUP = 0xB8, // duplicate top value of stack
 	O_DEL_FP = 0xB9, // deletes an element from the stack. Takes a one-byte index, indicating which element to delete.
+	O_CLOSE = 0xBA, // close over all the locals from the nth one on. Takes a one-byte n.
 	O_SETSP = 0xBC, // discard everything above the first n locals. Takes a one-byte n.
 	O_DECSP = 0xBD,
 	O_INCSP = 0xBE,
-- 
2.43.0


From 1c4be0f0242ea2e83e58421d0308c64f61a26ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 03/25] fix: comprehensions used inside larger expressions,
 duplicate parameter names rejected, guarded last arm

---
 compiler/compiler.c | 128 +++++++++++++++++++++++++++++++++-----------
 compiler/compiler.h |   2 +
 interpreter/VM.c    |  10 +++-
 interpreter/VM.h    |   1 +
 opcode.h            |   1 +
 5 files changed, 111 insertions(+), 31 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index a0a83a5..241b42f 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -426,31 +426,27 @@ static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *c
 	}
 }
 
-static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
-	const size_t old_fn_checkpoints = compiler->fn_checkpoints;
+struct FnState {
+	size_t start;              // start of the function's code
+	size_t fn_checkpoints;
+};
+
+static struct FnState enter_fn(struct Compiler *const compiler) {
+	struct FnState state;
+	state.fn_checkpoints = compiler->fn_checkpoints;
 	compiler->fn_checkpoints = compiler->checkpoints.count;
 
 	compiler->params = env_new(compiler->params);
 
 	enter_scope(compiler);
 
-	FOR_CHILDREN(i, child, FnDecl_get_params(node)) {
-		decl_var(compiler, Decl_get_name(child), child->line);
-		if (child->nodetype == N_CONST) {
-			make_const(compiler, Decl_get_name(child));
-		}
-	}
-
 	compiler_add_byte(compiler, O_FCONST);
 	compiler_add_int(compiler, 0);
+	state.start = compiler->buffer->count;
+	return state;
+}
 
-	size_t old_size = compiler->buffer->count;
-
-	// TODO: verfiy that number of params is small enough. (same for the other casts below.)
-	compiler_add_byte(compiler, (unsigned char) Body_get_len(FnDecl_get_params(node)));
-	visit_Body(compiler, FnDecl_get_body(node));
-	// TODO: remove this when it's not required.
-	compiler_add_byte(compiler, O_NCONST);
+static void exit_fn(struct Compiler *const compiler, const struct FnState state, const struct Node *const node) {
 	compiler_add_byte(compiler, compiler->params->usedinclosure ? O_CRET : O_RET);
 	//compiler_add_byte(compiler, (unsigned char)1);
 	compiler_add_byte(compiler, (unsigned char)scope_len(get_scope_in_use(compiler)));
@@ -458,10 +454,10 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	exit_scope(compiler);
 
 	size_t new_size = compiler->buffer->count;
-	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, old_size - sizeof(yasl_int), new_size - old_size);
+	YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, state.start - sizeof(yasl_int), new_size - state.start);
 
 	if (compiler->params->isclosure) {
-		compiler->buffer->bytes[old_size - sizeof(yasl_int) - 1] = O_CCONST;
+		compiler->buffer->bytes[state.start - sizeof(yasl_int) - 1] = O_CCONST;
 		const size_t count = compiler->params->upval_indices.count;
 		if (count > 255) {
 			compiler_print_err_syntax(compiler, "Too many variables closed over in function (line %" PRI_SIZET ").\n", node->line);
@@ -485,7 +481,30 @@ static void visit_FnDecl(struct Compiler *const compiler, const struct Node *con
 	compiler->params->parent = NULL;
 	env_del(compiler->params);
 	compiler->params = tmp;
-	compiler->fn_checkpoints = old_fn_checkpoints;
+	compiler->fn_checkpoints = state.fn_checkpoints;
+}
+
+static void visit_FnDecl(struct Compiler *const compiler, const struct Node *const node) {
+	const struct FnState state = enter_fn(compiler);
+
+	FOR_CHILDREN(i, child, FnDecl_get_params(node)) {
+		if (contains_var_in_current_scope(compiler, Decl_get_name(child))) {
+			compiler_print_err_syntax(compiler, "Illegal redeclaration of %s (line %" PRI_SIZET ").\n", Decl_get_name(child), child->line);
+			handle_error(compiler);
+			continue;
+		}
+		decl_var(compiler, Decl_get_name(child), child->line);
+		if (child->nodetype == N_CONST) {
+			make_const(compiler, Decl_get_name(child));
+		}
+	}
+
+	// TODO: verfiy that number of params is small enough. (same for the other casts below.)
+	compiler_add_byte(compiler, (unsigned char) Body_get_len(FnDecl_get_params(node)));
+	visit_Body(compiler, FnDecl_get_body(node));
+	// TODO: remove this when it's not required.
+	compiler_add_byte(compiler, O_NCONST);
+	exit_fn(compiler, state, node);
 }
 
 static void visit_VariadicContext(struct Compiler *const compiler, const struct Node *const node) {
@@ -596,19 +615,14 @@ static void visit_Comp_cond(struct Compiler *const compiler, const struct Node *
 	}
 }
 
-static void visit_Comp(struct Compiler *const compiler, const struct Node *const node, unsigned char byte) {
-	enter_scope(compiler);
-
+// Expects the collection on top of the stack, with only the local variables in scope below it.
+static void visit_Comp_loop(struct Compiler *const compiler, const struct Node *const node, unsigned char byte) {
 	struct Node *expr = Comp_get_expr(node);
 	struct Node *cond = Comp_get_cond(node);
 	struct Node *iter = Comp_get_iter(node);
 
-	struct Node *collection = LetIter_get_collection(iter);
-
 	char *name = iter->value.sval.str;
 
-	visit(compiler, collection);
-
 	compiler_add_byte(compiler, O_INITFOR);
 	compiler_add_byte(compiler, O_END);
 	decl_var(compiler, name, iter->line);
@@ -629,12 +643,42 @@ static void visit_Comp(struct Compiler *const compiler, const struct Node *const
 
 	exit_conditional_false(compiler, &index_second);
 
+	if (get_scope_in_use(compiler)->captured) {
+		close_upvals(compiler, scope_len(get_scope_in_use(compiler)) - 1);
+	}
 	compiler_add_byte(compiler, byte);
 	compiler_add_byte(compiler, O_ENDCOMP);
+}
 
+static void visit_Comp(struct Compiler *const compiler, const struct Node *const node, unsigned char byte) {
+	const bool at_base = compiler->at_base;
+	compiler->at_base = false;
+	struct Node *collection = LetIter_get_collection(Comp_get_iter(node));
+
+	if (at_base) {
+		enter_scope(compiler);
+		visit(compiler, collection);
+		visit_Comp_loop(compiler, node, byte);
+		size_t curr = compiler->buffer->count;
+		exit_scope(compiler);
+		compiler->buffer->count = curr;
+		return;
+	}
+
+	// There may be temporaries on the stack above the local variables, so the comprehension gets a frame of its own.
+	visit(compiler, collection);
+	const struct FnState state = enter_fn(compiler);
+	compiler_add_byte(compiler, 1);
+	decl_var(compiler, ".0", node->line);
+	compiler_add_byte(compiler, O_LLOAD);
+	compiler_add_byte(compiler, 0);
+	enter_scope(compiler);
+	visit_Comp_loop(compiler, node, byte);
 	size_t curr = compiler->buffer->count;
 	exit_scope(compiler);
 	compiler->buffer->count = curr;
+	exit_fn(compiler, state, node);
+	compiler_add_byte(compiler, O_CALLCOMP);
 }
 
 static void visit_ListComp(struct Compiler *const compiler, const struct Node *const node) {
@@ -1062,13 +1106,14 @@ static void visit_Match_helper(struct Compiler *const compiler, const struct Nod
 	if (guard) {
 		YASL_ByteBuffer_rewrite_int_fast(compiler->buffer, start_guard, compiler->buffer->count - start_guard - 8);
 		// The expression being matched is above the bindings here. It has to be kept for the remaining patterns,
-		// unless the next one doesn't look at it.
-		const bool keep_expr = patterns->children_len <= curr ||
-			patterns->children[curr]->nodetype != N_PATANY || guards->children[curr];
+		// unless the next one doesn't look at it. (After the last pattern, the stack is reset instead.)
+		const bool is_last = patterns->children_len <= curr;
+		const bool keep_expr = !is_last &&
+			(patterns->children[curr]->nodetype != N_PATANY || guards->children[curr]);
 		if (captured) {
 			close_upvals(compiler, vars);
 		}
-		for (unsigned char i = bindings; i > 0; i--) {
+		for (unsigned char i = bindings; i > 0 && !is_last; i--) {
 			if (keep_expr) {
 				compiler_add_byte(compiler, O_DEL_FP);
 				compiler_add_byte(compiler, (unsigned char) vars);
@@ -1501,5 +1546,28 @@ static void visit(struct Compiler *const compiler, const struct Node *const node
 		compiler->line++;
 	}
 
+	switch (node->nodetype) {
+	case N_EXPRSTMT:
+	case N_ECHO:
+	case N_LET:
+	case N_CONST:
+	case N_ASSIGN:
+	case N_RET:
+	case N_ASS:
+	case N_IF:
+	case N_WHILE:
+	case N_FORITER:
+	case N_MATCH:
+		compiler->at_base = true;
+		break;
+	case N_LISTCOMP:
+	case N_TABLECOMP:
+		// depends on where the comprehension is used
+		break;
+	default:
+		compiler->at_base = false;
+		break;
+	}
+
 	jmp_table[node->nodetype](compiler, node);
 }
diff --git a/compiler/compiler.h b/compiler/compiler.h
index 66cdc63..d159ac5 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -24,6 +24,7 @@
 	.expected_returns = 1,\
 	.leftmost_pattern = true,\
 	.stack_dirty = false,\
+	.at_base = false,\
 	.seen_bindings = NEW_TABLE(),\
 	.strings = YASL_Table_new(),\
 	.buffer = YASL_ByteBuffer_new(16),\
@@ -51,6 +52,7 @@ struct Compiler {
 	int expected_returns;
 	bool leftmost_pattern;
 	bool stack_dirty;                  // there may be something left on the stack above the locals
+	bool at_base;                      // whether the next expression starts right above the locals on the stack
 	struct YASL_Table seen_bindings;
 	struct YASL_Table *strings;
 	struct YASL_ByteBuffer *buffer;    // temporary buffer during code-gen
diff --git a/interpreter/VM.c b/interpreter/VM.c
index c962528..9f98a2a 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -156,7 +156,9 @@ static void printline(struct VM *vm) {
 	if (vm->fp >= 0 && vm->stack[vm->fp].type == Y_CFN) vm_exitframe(vm);
 
 	while (vm->fp >= 0) {
+		const bool iscomp = vm->frames[vm->frame_num].iscomp;
 		vm_exitframe(vm);
+		if (iscomp) continue;
 		size_t line = vm_getcurrline(vm);
 		vm_print_err_wrapper(vm, "In function call on line %" PRI_SIZET "\n", line);
 	}
@@ -1133,7 +1135,7 @@ static void vm_enterframe_offset(struct VM *const vm, int offset, int num_return
 
 	int next_fp = vm->next_fp;
 	vm->next_fp = offset;
-	vm->frames[vm->frame_num] = ((struct CallFrame) { vm->pc, vm->fp, next_fp, vm->loopframe_num, num_returns });
+	vm->frames[vm->frame_num] = ((struct CallFrame) { vm->pc, vm->fp, next_fp, vm->loopframe_num, num_returns, false });
 }
 
 static void vm_fill_args(struct VM *const vm, const int num_args);
@@ -1604,6 +1606,12 @@ void vm_executenext(struct VM *const vm) {
 	case O_CALL:
 		vm_CALL(vm);
 		break;
+	case O_CALLCOMP:
+		vm_swaptop(vm);
+		vm_enterframe_offset(vm, vm->sp - 1, 1);
+		vm->frames[vm->frame_num].iscomp = true;
+		vm_CALL(vm);
+		break;
 	case O_CRET:
 	case O_RET:
 		vm_RET(vm);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index cb34e44..144ca08 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -84,6 +84,7 @@ struct CallFrame {
 	int curr_fp;
 	int lp;
 	int num_returns;
+	bool iscomp;                // whether this is the body of a comprehension
 };
 
 struct LoopFrame {
diff --git a/opcode.h b/opcode.h
index 768188b..f45bf55 100644
--- a/opcode.h
+++ b/opcode.h
@@ -78,6 +78,7 @@ enum Opcode {
 	O_INIT_MC = 0xE7,
 	O_INIT_CALL = 0xE8, // set up function call
 	O_CALL = 0xE9, // function call
+	O_CALLCOMP = 0xEA, // call the body of a comprehension, with the collection below it on the stack
 	O_RET = 0xEC,  // return from function
 	O_CRET = 0xED, // return from closure.
 
-- 
2.43.0


From 2bee9bf6bffa8cb04dd1bbf19fc924fa167db130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 04/25] fix: integer overflow wraps, INT_MIN // -1, exact
 integer powers, folding agrees with run time on NaN and identity

---
 compiler/middleend.c | 48 +++++++++++++++++++++++++------------
 interpreter/VM.c     | 37 +++++++++++------------------
 util/yasl_int.h      | 56 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 103 insertions(+), 38 deletions(-)
 create mode 100644 util/yasl_int.h

diff --git a/compiler/middleend.c b/compiler/middleend.c
index c4073b3..2b03d4a 100644
--- a/compiler/middleend.c
+++ b/compiler/middleend.c
@@ -1,5 +1,7 @@
 #include "middleend.h"
 
+#include "util/yasl_int.h"
+
 void fold_ExprStmt(struct Node *const node) {
 	fold(ExprStmt_get_expr(node));
 }
@@ -93,6 +95,10 @@ make_##type(node, (yasl_float)(left)->value.ival op (right)->value.dval);
 #define FOLD_BINOP_FLOAT_FLOAT(left, right, op, type) \
 make_##type(node, (left)->value.dval op (right)->value.dval);
 
+static bool float_isidentical(const yasl_float left, const yasl_float right) {
+	return memcmp(&left, &right, sizeof(yasl_float)) == 0;
+}
+
 static void fold_BinOp(struct Node *const node) {
 	fold(BinOp_get_left(node));
 	fold(BinOp_get_right(node));
@@ -136,31 +142,31 @@ static void fold_BinOp(struct Node *const node) {
 			// TODO
 			break;
 		case T_DGT:
-			FOLD_BINOP_INT_INT(left, right, >>, int);
+			make_int(node, yasl_int_shr(left->value.ival, right->value.ival));
 			break;
 		case T_DLT:
-			FOLD_BINOP_INT_INT(left, right, <<, int);
+			make_int(node, yasl_int_shl(left->value.ival, right->value.ival));
 			break;
 		case T_PLUS:
-			FOLD_BINOP_INT_INT(left, right, +, int);
+			make_int(node, yasl_int_add(left->value.ival, right->value.ival));
 			break;
 		case T_MINUS:
-			FOLD_BINOP_INT_INT(left, right, -, int);
+			make_int(node, yasl_int_sub(left->value.ival, right->value.ival));
 			break;
 		case T_STAR:
-			FOLD_BINOP_INT_INT(left, right, *, int);
+			make_int(node, yasl_int_mul(left->value.ival, right->value.ival));
 			break;
 		case T_SLASH:
 			make_float(node, (yasl_float)left->value.ival / (yasl_float)right->value.ival);
 			break;
 		case T_DSLASH:
 			if (right->value.ival != 0) {
-				FOLD_BINOP_INT_INT(left, right, /, int);
+				make_int(node, yasl_int_idiv(left->value.ival, right->value.ival));
 			}
 			break;
 		case T_MOD:
 			if (right->value.ival != 0) {
-				FOLD_BINOP_INT_INT(left, right, %, int);
+				make_int(node, yasl_int_mod(left->value.ival, right->value.ival));
 			}
 			break;
 		case T_DSTAR:
@@ -171,13 +177,17 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, ==, bool);
 			break;
+		case T_TEQ:
+			make_bool(node, float_isidentical(left->value.dval, right->value.dval));
+			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, !=, bool);
 			break;
+		case T_BANGDEQ:
+			make_bool(node, !float_isidentical(left->value.dval, right->value.dval));
+			break;
 		case T_GT:
 			FOLD_BINOP_FLOAT_FLOAT(left, right, >, bool);
 			break;
@@ -213,13 +223,17 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_FLOAT && right->nodetype == N_INT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, ==, bool);
 			break;
+		case T_TEQ:
+			make_bool(node, 0);
+			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_FLOAT_INT(left, right, !=, bool);
 			break;
+		case T_BANGDEQ:
+			make_bool(node, 1);
+			break;
 		case T_GT:
 			FOLD_BINOP_FLOAT_INT(left, right, >, bool);
 			break;
@@ -255,13 +269,17 @@ static void fold_BinOp(struct Node *const node) {
 	} else if (left->nodetype == N_INT && right->nodetype == N_FLOAT) {
 		switch (node->value.type) {
 		case T_DEQ:
-		case T_TEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, ==, bool);
 			break;
+		case T_TEQ:
+			make_bool(node, 0);
+			break;
 		case T_BANGEQ:
-		case T_BANGDEQ:
 			FOLD_BINOP_INT_FLOAT(left, right, !=, bool);
 			break;
+		case T_BANGDEQ:
+			make_bool(node, 1);
+			break;
 		case T_GT:
 			FOLD_BINOP_INT_FLOAT(left, right, >, bool);
 			break;
@@ -307,7 +325,7 @@ void fold_UnOp(struct Node *const node) {
 			make_int(node, +expr->value.ival);
 			break;
 		case T_MINUS:
-			make_int(node, -expr->value.ival);
+			make_int(node, yasl_int_neg(expr->value.ival));
 			break;
 		case T_BANG:
 			make_bool(node, 0);
@@ -337,7 +355,7 @@ void fold_UnOp(struct Node *const node) {
 			make_float(node, -expr->value.dval);
 			break;
 		case T_BANG:
-			make_bool(node, 0);  // NOTE: safe because we don't have NaN literals
+			make_bool(node, expr->value.dval != expr->value.dval);  // NaN is falsey
 			break;
 		default:
 			break;
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 9f98a2a..579a2bd 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -11,6 +11,7 @@
 #include "interpreter/refcount.h"
 
 #include "util/varint.h"
+#include "util/yasl_int.h"
 #include "interpreter/table_methods.h"
 #include "interpreter/list_methods.h"
 #include "interpreter/str_methods.h"
@@ -353,10 +354,6 @@ INT_BINOP(bor, |)
 INT_BINOP(bxor, ^)
 INT_BINOP(band, &)
 INT_BINOP(bandnot, &~)
-INT_BINOP(shift_left, <<)
-INT_BINOP(shift_right, >>)
-INT_BINOP(modulo, %)
-INT_BINOP(idiv, /)
 
 typedef yasl_int int_binop(yasl_int, yasl_int);
 typedef yasl_float float_binop(yasl_float, yasl_float);
@@ -390,15 +387,10 @@ static void vm_int_binop(struct VM *const vm, int_binop op, const char *opstr, c
 }
 
 #define FLOAT_BINOP(name, op) yasl_float name(yasl_float left, yasl_float right) { return left op right; }
-#define NUM_BINOP(name, op) INT_BINOP(int_ ## name, op) FLOAT_BINOP(float_ ## name, op)
 
-NUM_BINOP(add, +)
-NUM_BINOP(sub, -)
-NUM_BINOP(mul, *)
-
-static yasl_int int_pow(yasl_int left, yasl_int right) {
-    return (yasl_int)pow((double)left, (double)right);
-}
+FLOAT_BINOP(float_add, +)
+FLOAT_BINOP(float_sub, -)
+FLOAT_BINOP(float_mul, *)
 
 static void vm_num_binop(struct VM *const vm, int_binop int_op, float_binop float_op,
 			 const char *const opstr, const char *overload_name) {
@@ -450,7 +442,7 @@ static void vm_pow(struct VM *const vm) {
 		vm_pushfloat(vm, pow((double)obj_getint(&left), (double)obj_getint(&right)));
 	} else {
 		vm->sp++;
-		vm_num_binop(vm, &int_pow, &pow, "**", OP_BIN_POWER);
+		vm_num_binop(vm, &yasl_int_pow, &pow, "**", OP_BIN_POWER);
 	}
 }
 
@@ -459,7 +451,7 @@ static void vm_pow(struct VM *const vm) {
 #define NUM_UNOP(name, op) INT_UNOP(int_ ## name, op) FLOAT_UNOP(float_ ## name, op)
 
 INT_UNOP(bnot, ~)
-NUM_UNOP(neg, -)
+FLOAT_UNOP(float_neg, -)
 NUM_UNOP(pos, +)
 
 static void vm_int_unop(struct VM *const vm, yasl_int (*op)(yasl_int), const char *opstr, const char *overload_name) {
@@ -1405,19 +1397,19 @@ void vm_executenext(struct VM *const vm) {
 		vm_int_unop(vm, &bnot, "^", OP_UN_CARET);
 		break;
 	case O_BSL:
-		vm_int_binop(vm, &shift_left, "<<", OP_BIN_SHL);
+		vm_int_binop(vm, &yasl_int_shl, "<<", OP_BIN_SHL);
 		break;
 	case O_BSR:
-		vm_int_binop(vm, &shift_right, ">>", OP_BIN_SHR);
+		vm_int_binop(vm, &yasl_int_shr, ">>", OP_BIN_SHR);
 		break;
 	case O_ADD:
-		vm_num_binop(vm, &int_add, &float_add, "+", OP_BIN_PLUS);
+		vm_num_binop(vm, &yasl_int_add, &float_add, "+", OP_BIN_PLUS);
 		break;
 	case O_MUL:
-		vm_num_binop(vm, &int_mul, &float_mul, "*", OP_BIN_TIMES);
+		vm_num_binop(vm, &yasl_int_mul, &float_mul, "*", OP_BIN_TIMES);
 		break;
 	case O_SUB:
-		vm_num_binop(vm, &int_sub, &float_sub, "-", OP_BIN_MINUS);
+		vm_num_binop(vm, &yasl_int_sub, &float_sub, "-", OP_BIN_MINUS);
 		break;
 	case O_FDIV:
 		vm_fdiv(vm);   // handled differently because we always convert to float
@@ -1427,21 +1419,20 @@ void vm_executenext(struct VM *const vm) {
 			vm_print_err_divide_by_zero(vm);
 			vm_throw_err(vm, YASL_DIVIDE_BY_ZERO_ERROR);
 		}
-		vm_int_binop(vm, &idiv, "//", OP_BIN_IDIV);
+		vm_int_binop(vm, &yasl_int_idiv, "//", OP_BIN_IDIV);
 		break;
 	case O_MOD:
-		// TODO: handle undefined C behaviour for negative numbers.
 		if (vm_isint(vm) && vm_peekint(vm) == 0) {
 			vm_print_err_divide_by_zero(vm);
 			vm_throw_err(vm, YASL_DIVIDE_BY_ZERO_ERROR);
 		}
-		vm_int_binop(vm, &modulo, "%", OP_BIN_MOD);
+		vm_int_binop(vm, &yasl_int_mod, "%", OP_BIN_MOD);
 		break;
 	case O_EXP:
 		vm_pow(vm);
 		break;
 	case O_NEG:
-		vm_num_unop(vm, &int_neg, &float_neg, "-", OP_UN_MINUS);
+		vm_num_unop(vm, &yasl_int_neg, &float_neg, "-", OP_UN_MINUS);
 		break;
 	case O_POS:
 		vm_num_unop(vm, &int_pos, &float_pos, "+", OP_UN_PLUS);
diff --git a/util/yasl_int.h b/util/yasl_int.h
new file mode 100644
index 0000000..b259929
--- /dev/null
+++ b/util/yasl_int.h
@@ -0,0 +1,56 @@
+#ifndef YASL_YASL_INT_H_
+#define YASL_YASL_INT_H_
+
+#include <inttypes.h>
+#include <stdbool.h>
+
+#include "yasl_conf.h"
+
+// Integer arithmetic wraps around on overflow. Shifts only look at the low 6 bits of the right operand.
+
+static inline yasl_int yasl_int_add(const yasl_int left, const yasl_int right) {
+	return (yasl_int) ((uint64_t) left + (uint64_t) right);
+}
+
+static inline yasl_int yasl_int_sub(const yasl_int left, const yasl_int right) {
+	return (yasl_int) ((uint64_t) left - (uint64_t) right);
+}
+
+static inline yasl_int yasl_int_mul(const yasl_int left, const yasl_int right) {
+	return (yasl_int) ((uint64_t) left * (uint64_t) right);
+}
+
+static inline yasl_int yasl_int_neg(const yasl_int val) {
+	return (yasl_int) (0 - (uint64_t) val);
+}
+
+static inline yasl_int yasl_int_shl(const yasl_int left, const yasl_int right) {
+	return (yasl_int) ((uint64_t) left << (right & 63));
+}
+
+static inline yasl_int yasl_int_shr(const yasl_int left, const yasl_int right) {
+	return left >> (right & 63);
+}
+
+// right must not be 0.
+static inline yasl_int yasl_int_idiv(const yasl_int left, const yasl_int right) {
+	return right == -1 ? yasl_int_neg(left) : left / right;
+}
+
+// right must not be 0.
+static inline yasl_int yasl_int_mod(const yasl_int left, const yasl_int right) {
+	return right == -1 ? 0 : left % right;
+}
+
+// right must not be negative.
+static inline yasl_int yasl_int_pow(yasl_int left, yasl_int right) {
+	yasl_int result = 1;
+	while (right > 0) {
+		if (right & 1) result = yasl_int_mul(result, left);
+		left = yasl_int_mul(left, left);
+		right >>= 1;
+	}
+	return result;
+}
+
+#endif
-- 
2.43.0


From b29b690ac0f2738ada6dac9353d2719869be09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 05/25] fix: __call, operator entries that are not callable,
 operands kept alive, nested loop and binding limits checked, int powers
 saturate

---
 interpreter/VM.c | 81 ++++++++++++++++++++++++++++++------------------
 interpreter/VM.h |  5 +--
 util/yasl_int.h  | 16 +++++-----
 3 files changed, 61 insertions(+), 41 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 579a2bd..f0d7b41 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -24,7 +24,8 @@
 #include "closure.h"
 
 static struct RC_UserData **builtins_htable_new(struct VM *const vm) {
-	struct RC_UserData **ht = (struct RC_UserData **) malloc(sizeof(struct RC_UserData *) * NUM_TYPES);
+	// types without any builtin methods have no metatable.
+	struct RC_UserData **ht = (struct RC_UserData **) calloc(NUM_TYPES, sizeof(struct RC_UserData *));
 	ht[Y_UNDEF] = ud_new(undef_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
 	ht[Y_UNDEF]->rc.refs++;
 	ht[Y_FLOAT] = ud_new(float_builtins(vm), TABLE_NAME, NULL, rcht_del_data);
@@ -197,9 +198,11 @@ void vm_push(struct VM *const vm, const struct YASL_Object val) {
 
 	vm->sp++;
 
-	dec_ref(vm->stack + vm->sp);
+	// val may only be kept alive by what used to be in this stack slot.
+	struct YASL_Object old = vm->stack[vm->sp];
 	vm->stack[vm->sp] = val;
 	inc_ref(vm->stack + vm->sp);
+	dec_ref(&old);
 }
 
 void vm_pushend(struct VM *const vm) {
@@ -303,6 +306,7 @@ static int vm_lookup_method_helper(struct VM *vm, struct YASL_Object obj, struct
 static void vm_GET(struct VM *const vm);
 static void vm_INIT_CALL(struct VM *const vm, int expected_returns);
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
+struct YASL_Table *get_mt(const struct VM *const vm, struct YASL_Object v);
 void vm_CALL(struct VM *const vm);
 void vm_CALL_now(struct VM *const vm);
 
@@ -338,16 +342,6 @@ do {\
 	vm_CALL(vm);\
 } while (0)
 
-#define vm_call_method_now_2(vm, left, right, method_name, ...) do {\
-	inc_ref(&left);\
-	inc_ref(&right);\
-	vm_push(vm, left);\
-	vm_lookup_method_throwing(vm, method_name, __VA_ARGS__);\
-	vm_call_now_2(vm, left, right);\
-	dec_ref(&left);\
-	dec_ref(&right);\
-} while (0)
-
 #define INT_BINOP(name, op) yasl_int name(yasl_int left, yasl_int right) { return left op right; }
 
 INT_BINOP(bor, |)
@@ -501,38 +495,47 @@ void vm_EQ(struct VM *const vm) {
 }
 
 static void vm_CNCT(struct VM *const vm) {
-		vm_stringify_top(vm);
-		struct YASL_Object top = vm_peek(vm);
-		inc_ref(&top);
-		struct YASL_String *b = vm_popstr(vm);
-		vm_stringify_top(vm);
-		struct YASL_String *a = vm_popstr(vm);
+	vm_stringify_top(vm);
+	vm_swaptop(vm);
+	vm_stringify_top(vm);
+	struct YASL_String *a = vm_peekstr(vm);
+	struct YASL_String *b = vm_peekstr(vm, vm->sp - 1);
 
-		size_t size = YASL_String_len(a) + YASL_String_len(b);
-		char *ptr = (char *)malloc(size);
-		memcpy(ptr, YASL_String_chars(a), YASL_String_len(a));
-		memcpy(ptr + YASL_String_len(a), YASL_String_chars(b), YASL_String_len(b));
-		vm_pushstr(vm, YASL_String_new_sized_heap(0, size, ptr));
-		dec_ref(&top);
+	size_t size = YASL_String_len(a) + YASL_String_len(b);
+	char *ptr = (char *)malloc(size);
+	memcpy(ptr, YASL_String_chars(a), YASL_String_len(a));
+	memcpy(ptr + YASL_String_len(a), YASL_String_chars(b), YASL_String_len(b));
+	vm_pop(vm);
+	vm_pop(vm);
+	vm_pushstr(vm, YASL_String_new_sized_heap(0, size, ptr));
 }
 
 #define DEFINE_COMP(name, opstr, overload_name) \
 static void vm_##name(struct VM *const vm) {\
-	struct YASL_Object right = vm_pop(vm);\
-	struct YASL_Object left = vm_pop(vm);\
+	struct YASL_Object right = vm_peek(vm);\
+	struct YASL_Object left = vm_peek(vm, vm->sp - 1);\
 	bool c;\
 	if (obj_isstr(&left) && obj_isstr(&right)) {\
-		vm_pushbool(vm, name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0));\
+		c = name(YASL_String_cmp(obj_getstr(&left), obj_getstr(&right)), 0);\
+		vm_pop(vm);\
+		vm_pop(vm);\
+		vm_pushbool(vm, c);\
 		return;\
 	}\
 	if (obj_isnum(&left) && obj_isnum(&right)) {\
+		vm_pop(vm);\
+		vm_pop(vm);\
 		COMP(vm, left, right, name);\
 		return;\
 	}\
-	vm_call_method_now_2(vm, left, right, overload_name, "%s not supported for operands of types %s and %s.",\
+	vm_push(vm, left);\
+	vm_lookup_method_throwing(vm, overload_name, "%s not supported for operands of types %s and %s.",\
 		opstr,\
 		obj_typename(&left),\
 		obj_typename(&right));\
+	vm_shifttopdown(vm, 2);\
+	vm_INIT_CALL_offset(vm, vm->sp - 2, 1);\
+	vm_CALL(vm);\
 }
 
 DEFINE_COMP(GT, ">", "__gt")
@@ -898,7 +901,7 @@ static void vm_ITER_1(struct VM *const vm) {
 		return;
 	}
 	default:
-		vm_print_err_type(vm,  "object of type %s is not iterable.\n", obj_typename(&frame->iterable));
+		vm_print_err_type(vm,  "object of type %s is not iterable.", obj_typename(&frame->iterable));
 		vm_throw_err(vm, YASL_TYPE_ERROR);
 	}
 }
@@ -1071,6 +1074,10 @@ static bool vm_MATCH_subpattern(struct VM *const vm, struct YASL_Object *expr) {
 		   still on top of the stack. This is taken care of _after_ a successful match by a O_DEL_FP instruction.
 		  */
 		unsigned char offset = NCODE(vm);
+		if (vm->fp + offset + 2 >= STACK_SIZE) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		dec_ref(&vm_peek(vm, vm->fp + offset + 2));
 		vm_peek(vm, vm->fp + offset + 2) = *expr;
 		inc_ref(&vm_peek(vm, vm->fp + offset + 2));
@@ -1177,8 +1184,16 @@ static void vm_exitframe(struct VM *const vm) {
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns) {
 	if (!vm_isfn(vm, offset) && !vm_iscfn(vm, offset) && !vm_isclosure(vm, offset)) {
-		const char *name = (vm_peektypename(vm, offset));
-		vm_lookup_method_throwing(vm, "__call", "%s is not callable.", name);
+		struct YASL_Object obj = vm_peek(vm, offset);
+		struct YASL_Table *mt = get_mt(vm, obj);
+		struct YASL_Object call = mt ? YASL_Table_search_string_int(mt, "__call", strlen("__call")) : YASL_END();
+		if (!obj_isfn(&call) && !obj_iscfn(&call) && !obj_isclosure(&call)) {
+			vm_print_err_type(vm, "%s is not callable.", obj_typename(&obj));
+			vm_throw_err(vm, YASL_TYPE_ERROR);
+		}
+		inc_ref(&call);
+		vm_peek(vm, offset) = call;
+		dec_ref(&obj);
 	}
 
 	vm_enterframe_offset(vm, offset, expected_returns);
@@ -1508,6 +1523,10 @@ void vm_executenext(struct VM *const vm) {
 		break;
 	}
 	case O_INITFOR:
+		if (vm->loopframe_num + 1 >= NUM_LOOPFRAMES) {
+			vm_print_err(vm, "StackOverflow.");
+			vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
+		}
 		inc_ref(&vm_peek(vm));
 		vm->loopframe_num++;
 		vm->loopframes[vm->loopframe_num].iter = 0;
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 144ca08..78c81ef 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -16,7 +16,8 @@
 
 
 #define NUM_FRAMES 1000
-#define NUM_TYPES 13                                     // number of builtin types, each needs a vtable
+#define NUM_LOOPFRAMES 1000
+#define NUM_TYPES 16                                     // number of builtin types, each needs a vtable
 #define SCRATCH_SIZE 1024								// scratchspace size (needs tuning)
 
 #define vm_peek_offset(vm, offset) ((vm)->stack[offset])
@@ -100,7 +101,7 @@ struct VM {
 	struct YASL_Object *stack;     // stack
 	struct CallFrame frames[NUM_FRAMES];
 	int frame_num;
-	struct LoopFrame loopframes[16];
+	struct LoopFrame loopframes[NUM_LOOPFRAMES];
 	int loopframe_num;
 	struct YASL_Object *constants;
 	int64_t num_constants;
diff --git a/util/yasl_int.h b/util/yasl_int.h
index b259929..8c87b50 100644
--- a/util/yasl_int.h
+++ b/util/yasl_int.h
@@ -2,6 +2,7 @@
 #define YASL_YASL_INT_H_
 
 #include <inttypes.h>
+#include <math.h>
 #include <stdbool.h>
 
 #include "yasl_conf.h"
@@ -42,15 +43,14 @@ static inline yasl_int yasl_int_mod(const yasl_int left, const yasl_int right) {
 	return right == -1 ? 0 : left % right;
 }
 
+// Truncates towards 0. Anything that doesn't fit in an int gives the smallest int.
+static inline yasl_int yasl_int_from_float(const yasl_float val) {
+	return val >= -9223372036854775808.0 && val < 9223372036854775808.0 ? (yasl_int) val : INT64_MIN;
+}
+
 // right must not be negative.
-static inline yasl_int yasl_int_pow(yasl_int left, yasl_int right) {
-	yasl_int result = 1;
-	while (right > 0) {
-		if (right & 1) result = yasl_int_mul(result, left);
-		left = yasl_int_mul(left, left);
-		right >>= 1;
-	}
-	return result;
+static inline yasl_int yasl_int_pow(const yasl_int left, const yasl_int right) {
+	return yasl_int_from_float(pow((yasl_float) left, (yasl_float) right));
 }
 
 #endif
-- 
2.43.0


From a3004813a40ab5ee8d8c2c9222ce2cee13c3d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 06/25] fix: tables and sets count what they hold, keep undef
 entries, find float keys, and survive insert/remove churn

---
 data-structures/YASL_Set.c   | 53 ++++++++++++++++++-----------------
 data-structures/YASL_Set.h   |  2 ++
 data-structures/YASL_Table.c | 54 +++++++++++++++++++++---------------
 data-structures/YASL_Table.h | 11 +++++++-
 interpreter/VM.c             |  2 +-
 interpreter/table_methods.c  | 10 ++-----
 std/yasl-std-collections.c   |  9 +++---
 yasl.c                       |  4 +++
 8 files changed, 84 insertions(+), 61 deletions(-)

diff --git a/data-structures/YASL_Set.c b/data-structures/YASL_Set.c
index 34d6b3b..7f25d6f 100644
--- a/data-structures/YASL_Set.c
+++ b/data-structures/YASL_Set.c
@@ -1,5 +1,6 @@
 #include "YASL_Set.h"
 
+#include "data-structures/YASL_Table.h"
 #include "util/hash_function.h"
 #include "util/prime.h"
 
@@ -10,6 +11,7 @@ static struct YASL_Set *set_new_sized(const size_t base_size) {
 	set->base_size = base_size;
 	set->size = next_prime(set->base_size);
 	set->count = 0;
+	set->tombstones = 0;
 	set->items = (struct YASL_Object *)calloc((size_t) set->size, sizeof(struct YASL_Object));
 	return set;
 }
@@ -34,16 +36,9 @@ static void set_resize(struct YASL_Set *const set, const size_t base_size) {
 	FOR_SET(i, item, set) {
 			YASL_Set_insert(new_set, *item);
 	}
-	set->base_size = new_set->base_size;
-	set->count = new_set->count;
-
-	const size_t tmp_size = set->size;
-	set->size = new_set->size;
-	new_set->size = tmp_size;
-
-	struct YASL_Object *tmp_items = set->items;
-	set->items = new_set->items;
-	new_set->items = tmp_items;
+	const struct YASL_Set tmp = *set;
+	*set = *new_set;
+	*new_set = tmp;
 
 	YASL_Set_del(new_set);
 }
@@ -59,38 +54,38 @@ static void set_resize_down(struct YASL_Set *set) {
 }
 
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) {
-	if (!ishashable(&value)) {
+	if (!ishashable(&value) || obj_isundef(&value)) {
 		return false;
 	}
 
 	const size_t load = set->count * 100 / set->size;
 	if (load > 70) set_resize_up(set);
+	else if ((set->count + set->tombstones) * 100 / set->size > 70) set_resize(set, set->base_size);
 	size_t index = get_hash(value, set->size, 0);
-	inc_ref(&value);
 	struct YASL_Object curr_item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&curr_item)) {
-		if (curr_item.type != Y_END) {
-			if ((isequal(&curr_item, &value))) {
-				dec_ref(&curr_item);
-				set->items[index] = value;
-				return true;
-			}
+		if (isequal_typed(&curr_item, &value)) {
+			return true;
 		}
 		index = get_hash(value, set->size, i++);
 		curr_item = set->items[index];
 	}
+	inc_ref(&value);
 	set->items[index] = value;
 	set->count++;
 	return true;
 }
 
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key) {
+	if (!ishashable(&key)) {
+		return false;
+	}
 	size_t index = get_hash(key, set->size, 0);
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
-		if ((isequal(&item, &key))) {
+		if (isequal_typed(&item, &key)) {
 			return true;
 		}
 		index = get_hash(key, set->size, i++);
@@ -109,16 +104,24 @@ void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key) {
 	struct YASL_Object item = set->items[index];
 	size_t i = 1;
 	while (!obj_isundef(&item)) {
-		if (item.type != Y_END) {
-			if ((isequal(&item, &key))) {
-				dec_ref(&item);
-				set->items[index] = YASL_END();
-			}
+		if (isequal_typed(&item, &key)) {
+			set->items[index] = YASL_END();
+			set->count--;
+			set->tombstones++;
+			dec_ref(&item);
+			return;
 		}
 		index = get_hash(key, set->size, i++);
 		item = set->items[index];
 	}
-	set->count--;
+}
+
+void YASL_Set_clear(struct YASL_Set *const set) {
+	struct YASL_Set *empty = YASL_Set_new();
+	const struct YASL_Set tmp = *set;
+	*set = *empty;
+	*empty = tmp;
+	YASL_Set_del(empty);
 }
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right) {
diff --git a/data-structures/YASL_Set.h b/data-structures/YASL_Set.h
index 919b590..62d8bd6 100644
--- a/data-structures/YASL_Set.h
+++ b/data-structures/YASL_Set.h
@@ -10,6 +10,7 @@ struct YASL_Set {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t tombstones;
 	struct YASL_Object *items;
 };
 
@@ -17,6 +18,7 @@ struct YASL_Set *YASL_Set_new(void);
 void YASL_Set_del(void *s);
 bool YASL_Set_insert(struct YASL_Set *const set, struct YASL_Object value) /* YASL_WARN_UNUSED */;
 bool YASL_Set_search(const struct YASL_Set *const set, const struct YASL_Object key);
+void YASL_Set_clear(struct YASL_Set *const set);
 void YASL_Set_rm(struct YASL_Set *const set, struct YASL_Object key);
 
 struct YASL_Set *YASL_Set_union(const struct YASL_Set *const left, const struct YASL_Set *const right);
diff --git a/data-structures/YASL_Table.c b/data-structures/YASL_Table.c
index 40fdcb0..7244488 100644
--- a/data-structures/YASL_Table.c
+++ b/data-structures/YASL_Table.c
@@ -21,6 +21,10 @@ static struct YASL_Table_Item new_item(const struct YASL_Object k, const struct
 	return item;
 }
 
+bool item_isempty(const struct YASL_Table_Item *const item) {
+	return obj_isundef(&item->key) && obj_isundef(&item->value);
+}
+
 void del_item(struct YASL_Table_Item *const item) {
 	dec_ref(&item->key);
 	dec_ref(&item->value);
@@ -31,6 +35,7 @@ struct YASL_Table *table_new_sized(const size_t base_size) {
 	table->base_size = base_size;
 	table->size = next_prime(table->base_size);
 	table->count = 0;
+	table->tombstones = 0;
 	table->items = (struct YASL_Table_Item *)calloc((size_t) table->size, sizeof(struct YASL_Table_Item));
 	return table;
 }
@@ -71,19 +76,13 @@ void rcht_del_data(void *hashtable) {
 static void table_resize(struct YASL_Table *const table, const size_t base_size) {
 	if (base_size < TABLE_BASESIZE) return;
 	struct YASL_Table *new_table = table_new_sized(base_size);
-	FOR_TABLE(i, item, table) {
+	FOR_TABLE_ALL(i, item, table) {
 			YASL_Table_insert_fast(new_table, item->key, item->value);
 	}
-	table->base_size = new_table->base_size;
-	table->count = new_table->count;
 
-	const size_t tmp_size = table->size;
-	table->size = new_table->size;
-	new_table->size = tmp_size;
-
-	struct YASL_Table_Item *tmp_items = table->items;
-	table->items = new_table->items;
-	new_table->items = tmp_items;
+	const struct YASL_Table tmp = *table;
+	*table = *new_table;
+	*new_table = tmp;
 
 	YASL_Table_del(new_table);
 }
@@ -99,14 +98,17 @@ static void table_resize_down(struct YASL_Table *const table) {
 }
 
 bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b) {
-	return a->type == b->type && isequal(a, b);
+	if (a->type != b->type) return false;
+	// floats are hashed on their representation, so they have to be compared that way too.
+	if (obj_isfloat(a)) return a->value.ival == b->value.ival;
+	return isequal(a, b);
 }
 
 size_t YASL_Table_getindex(struct YASL_Table *const table, const struct YASL_Object key) {
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item curr_item = table->items[index];
 	size_t i = 1;
-	while (curr_item.value.type != Y_UNDEF) {
+	while (!item_isempty(&curr_item)) {
 		if (curr_item.key.type != Y_END) {
 			if (isequal_typed(&curr_item.key, &key)) {
 				return index;
@@ -123,16 +125,16 @@ void YASL_Table_insert_fast(struct YASL_Table *const table, const struct YASL_Ob
 
 	const size_t load = table->count * 100 / table->size;
 	if (load > 70) table_resize_up(table);
+	else if ((table->count + table->tombstones) * 100 / table->size > 70) table_resize(table, table->base_size);
 	struct YASL_Table_Item item = new_item(key, value);
 	const size_t index = YASL_Table_getindex(table, key);
 	struct YASL_Table_Item curr_item = table->items[index];
-	if (isequal_typed(&curr_item.key, &key)) {
-		del_item(&curr_item);
-	} else {
+	table->items[index] = item;
+	if (item_isempty(&curr_item)) {
 		table->count++;
+	} else {
+		del_item(&curr_item);
 	}
-	
-	table->items[index] = item;
 }
 
 bool YASL_Table_insert(struct YASL_Table *const table, const struct YASL_Object key, const struct YASL_Object value) {
@@ -160,8 +162,8 @@ struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const
 	if (!ishashable(&key)) return YASL_END();
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item item = table->items[index];
-	int i = 1;
-	while (!obj_isundef(&item.key)) {
+	size_t i = 1;
+	while (!item_isempty(&item)) {
 		if ((isequal_typed(&item.key, &key))) {
 			return item.value;
 		}
@@ -188,15 +190,23 @@ void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key)
 	size_t index = get_hash(key, table->size, 0);
 	struct YASL_Table_Item item = table->items[index];
 	size_t i = 1;
-	while (!obj_isundef(&item.key)) {
+	while (!item_isempty(&item)) {
 		if (item.key.type != Y_END) {
 			if ((isequal_typed(&item.key, &key))) {
-				del_item(&item);
 				table->items[index] = TOMBSTONE;
+				table->count--;
+				table->tombstones++;
+				del_item(&item);
+				return;
 			}
 		}
 		index = get_hash(key, table->size, i++);
 		item = table->items[index];
 	}
-	table->count--;
+}
+
+void YASL_Table_clear(struct YASL_Table *const table) {
+	struct YASL_Table old = *table;
+	*table = NEW_TABLE();
+	DEL_TABLE(&old);
 }
diff --git a/data-structures/YASL_Table.h b/data-structures/YASL_Table.h
index dac5f43..a8e6aa5 100644
--- a/data-structures/YASL_Table.h
+++ b/data-structures/YASL_Table.h
@@ -11,15 +11,20 @@
                                                   if (item = &(table)->items[i], item->key.type != Y_END && !obj_isundef(&item->value))
 
 
+// Like FOR_TABLE, but also visits entries whose value is undef (such as globals that have been declared only).
+#define FOR_TABLE_ALL(i, item, table) struct YASL_Table_Item *item; for (size_t i = 0; i < (table)->size; i++) \
+                                                  if (item = &(table)->items[i], item->key.type != Y_END && !item_isempty(item))
+
 #define NEW_TABLE() ((struct YASL_Table){\
 	.size = next_prime(TABLE_BASESIZE),\
 	.base_size = TABLE_BASESIZE,\
 	.count = 0,\
+	.tombstones = 0,\
 	.items = (struct YASL_Table_Item *)calloc((size_t) next_prime(TABLE_BASESIZE), sizeof(struct YASL_Table_Item))\
 })
 
 #define DEL_TABLE(table) do {\
-        FOR_TABLE(i, item, table) {\
+        FOR_TABLE_ALL(i, item, table) {\
                 del_item(item);\
         }\
         free((table)->items);\
@@ -35,11 +40,14 @@ struct YASL_Table {
 	size_t size;
 	size_t base_size;
 	size_t count;
+	size_t tombstones;
 	struct YASL_Table_Item *items;
 };
 
 extern struct YASL_Table_Item TOMBSTONE;
 
+bool item_isempty(const struct YASL_Table_Item *const item);
+bool isequal_typed(const struct YASL_Object *const a, const struct YASL_Object *const b);
 void del_item(struct YASL_Table_Item *const item);
 
 struct YASL_Table *YASL_Table_new(void);
@@ -55,6 +63,7 @@ struct YASL_Object YASL_Table_search(const struct YASL_Table *const table, const
 struct YASL_Object YASL_Table_search_string_int(const struct YASL_Table *const table, const char *const key,
 						const size_t key_len);
 void YASL_Table_rm(struct YASL_Table *const table, const struct YASL_Object key);
+void YASL_Table_clear(struct YASL_Table *const table);
 
 struct RC_UserData* rcht_new(void);
 struct RC_UserData* rcht_new_sized(const size_t base_size);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index f0d7b41..a8f812c 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -877,7 +877,7 @@ static void vm_ITER_1(struct VM *const vm) {
 	case Y_TABLE: {
 		struct YASL_Table *table = YASL_GETTABLE(frame->iterable);
 		while (table->size > (size_t) frame->iter &&
-		       (table->items[frame->iter].key.type == Y_END || table->items[frame->iter].key.type == Y_UNDEF)) {
+		       (table->items[frame->iter].key.type == Y_END || obj_isundef(&table->items[frame->iter].value))) {
 			frame->iter++;
 		}
 		if (table->size <= (size_t) frame->iter) {
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 41a02b5..20e68fb 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -230,6 +230,7 @@ int table_remove(struct YASL_State *S) {
 int table_copy(struct YASL_State *S) {
 	struct YASL_Table *ht = YASLX_checkntable(S, "table.copy", 0);
 	struct RC_UserData *new_ht = rcht_new_sized(ht->base_size);
+	ud_setmt(new_ht, S->vm.builtins_htable[Y_TABLE]);
 
 	FOR_TABLE(i, item, ht) {
 		YASL_Table_insert_fast((struct YASL_Table *) new_ht->data, item->key, item->value);
@@ -246,14 +247,7 @@ int table_clear(struct YASL_State *S) {
 	}
 	struct YASL_Table *ht = YASL_GETTABLE(vm_peek((struct VM *) S));
 	inc_ref(&vm_peek((struct VM *) S));
-	FOR_TABLE(i, item, ht) {
-		del_item(item);
-	}
-
-	ht->count = 0;
-	ht->size = TABLE_BASESIZE;
-	free(ht->items);
-	ht->items = (struct YASL_Table_Item *) calloc((size_t) ht->size, sizeof(struct YASL_Table_Item));
+	YASL_Table_clear(ht);
 	dec_ref(&vm_peek((struct VM *) S));
 	vm_pop((struct VM *) S);
 
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 20642a3..3b4a8d6 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -82,13 +82,16 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 	while (i > 0) {
 		struct YASL_Object value = vm_pop((struct VM *)S);
 		struct YASL_Object key = vm_pop((struct VM *)S);
+		i -= 2;
+		if (obj_isundef(&value)) {
+			continue;
+		}
 		if (!YASL_Table_insert((struct YASL_Table *) table->data, key, value)) {
 			rcht_del(table);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
 					  obj_typename(&key));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
-		i -= 2;
 	}
 	ud_setmt(table, S->vm.builtins_htable[Y_TABLE]);
 	vm_pushtable((struct VM *)S, table);
@@ -295,9 +298,7 @@ static int YASL_collections_set_copy(struct YASL_State *S) {
 static int YASL_collections_set_clear(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".clear", 0);
 
-	FOR_SET(i, item, set) {
-		YASL_Set_rm(set, *item);
-	}
+	YASL_Set_clear(set);
 	return 1;
 }
 
diff --git a/yasl.c b/yasl.c
index a7da9bb..0ce648c 100644
--- a/yasl.c
+++ b/yasl.c
@@ -398,6 +398,10 @@ int YASL_tableset(struct YASL_State *S) {
 
 	if (!obj_istable(&table))
 		return YASL_TYPE_ERROR;
+	if (obj_isundef(&value)) {
+		YASL_Table_rm(YASL_GETTABLE(table), key);
+		return YASL_SUCCESS;
+	}
 	if (!YASL_Table_insert(YASL_GETTABLE(table), key, value)) {
 		return YASL_TYPE_ERROR;
 	}
-- 
2.43.0


From 3d6031b7d9532b032ed6e126673aaf9232f4debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 07/25] fix: string and list methods stay in bounds, terminate,
 and give the right answers on slices, empty needles and large values

---
 data-structures/YASL_String.c |  35 +++++-----
 data-structures/YASL_String.h |   2 +-
 interpreter/VM.c              |  13 +++-
 interpreter/YASL_Object.c     |   2 +
 interpreter/list_methods.c    | 124 ++++++++++++++--------------------
 interpreter/str_methods.c     |  16 ++++-
 interpreter/table_methods.c   |  77 +++++++++++----------
 interpreter/table_methods.h   |  18 +++++
 8 files changed, 156 insertions(+), 131 deletions(-)

diff --git a/data-structures/YASL_String.c b/data-structures/YASL_String.c
index e7f7f73..56057a2 100644
--- a/data-structures/YASL_String.c
+++ b/data-structures/YASL_String.c
@@ -101,10 +101,10 @@ void str_del(struct YASL_String *const str) {
 
 
 bool isvaliddouble(const char *str) {
-	long len = strlen(str);
+	size_t len = strlen(str);
 	bool hasdot = false;
 	bool hase = false;
-	for (size_t i = 0; i < strlen(str); i++) {
+	for (size_t i = 0; i < len; i++) {
 		switch (str[i]) {
 		case '0':
 		case '1':
@@ -135,7 +135,7 @@ bool isvaliddouble(const char *str) {
 
 		}
 	}
-	return hasdot && isdigit((int)str[len-1]) && isdigit((int)str[0]);
+	return hasdot && isdigit((unsigned char)str[len-1]) && isdigit((unsigned char)str[0]);
 }
 
 int64_t str_find_index(const struct YASL_String *const haystack, const struct YASL_String *const needle) {
@@ -186,13 +186,14 @@ yasl_float YASL_String_tofloat(struct YASL_String *str) {
 	const size_t length = YASL_String_len(str);
 	const char *chars = YASL_String_chars(str);
 	char *buffer = (char *)malloc(length + 1);
-	if (!isdigit((int)chars[0])) {
+	const size_t sign = length > 0 && (chars[0] == '-' || chars[0] == '+');
+	if (length == sign || (!isdigit((unsigned char)chars[sign]) && chars[sign] != 'i')) {
 		free(buffer);
 		return NAN;
 	}
 	size_t curr = 0;
 	for (size_t i = 0; i < length; ++i) {
-		if (chars[i] == '_' && chars[i-1] != '.') {
+		if (i > 0 && chars[i] == '_' && chars[i-1] != '.') {
 			continue;
 		}
 		buffer[curr++] = chars[i];
@@ -230,7 +231,7 @@ yasl_int YASL_String_toint(struct YASL_String *str) {
 		return tmp;
 	}
 
-	if (chars[0] == '0' && (isalpha((int)chars[1]))) {
+	if (chars[0] == '0' && (isalpha((unsigned char)chars[1]))) {
 		size_t curr = 2;
 		buffer[0] = chars[0];
 		buffer[1] = chars[1];
@@ -294,7 +295,7 @@ DEFINE_STR_TO_X(lower, LOWER);
 	char curr;\
 	while (i < length) {\
 		curr = chars[i++];\
-		if (!fun(curr)) \
+		if (!fun((unsigned char)curr)) \
 			return false;\
 	}\
 	return true;\
@@ -385,12 +386,12 @@ struct YASL_String *YASL_String_replace_fast(struct YASL_String *str, struct YAS
 	STR_REPLACE_START
 	while (i < str_len) {
 		if (search_len <= str_len - i && memcmp(str_ptr + i, search_str_ptr, search_len) == 0 && max > 0) {
+			max--;
 			YASL_ByteBuffer_extend(buff, replace_str_ptr, YASL_String_len(replace_str));
 			i += search_len;
 		} else {
 			YASL_ByteBuffer_add_byte(buff, str_ptr[i++]);
 		}
-		max--;
 	}
 
 	STR_REPLACE_END
@@ -449,7 +450,7 @@ void YASL_String_split_fast(struct YASL_List *data, struct YASL_String *haystack
 		}
 	}
 	struct YASL_Object to = YASL_STR(
-		YASL_String_new_substring(start + haystack->start, end + haystack->start, haystack));
+		YASL_String_new_substring(start + haystack->start, haystack->end, haystack));
 	YASL_List_append(data, to);
 }
 
@@ -472,7 +473,7 @@ struct YASL_String *YASL_String_ltrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	int64_t start = 0;
-	while(haystack_len - start >= needle_len &&
+	while(needle_len > 0 && haystack_len - start >= needle_len &&
 	      !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
 	}
@@ -497,7 +498,7 @@ struct YASL_String *YASL_String_rtrim(struct YASL_String *haystack, struct YASL_
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
 	size_t end = YASL_String_len(haystack);
-	while (end >= needle_len &&
+	while (needle_len > 0 && end >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
@@ -514,7 +515,7 @@ struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack) {
 	}
 
 	int64_t end = haystack_len;
-	while (end >= 1 && iswhitespace(haystack_chars[end - 1])) {
+	while (end > start && iswhitespace(haystack_chars[end - 1])) {
 		end--;
 	}
 
@@ -526,14 +527,14 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	const size_t needle_len = YASL_String_len(needle);
 	const char *haystack_chars = YASL_String_chars(haystack);
 	const char *needle_chars = YASL_String_chars(needle);
-	int64_t start = 0;
-	while (haystack_len - start >= needle_len &&
+	size_t start = 0;
+	while (needle_len > 0 && haystack_len - start >= needle_len &&
 	       !memcmp(haystack_chars + start, needle_chars, needle_len)) {
 		start += needle_len;
 	}
 
 	size_t end = haystack_len;
-	while (end >= needle_len &&
+	while (needle_len > 0 && end - start >= needle_len &&
 	       !memcmp(haystack_chars + end - needle_len, needle_chars, needle_len)) {
 		end -= needle_len;
 	}
@@ -541,12 +542,14 @@ struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_S
 	return YASL_String_new_substring(haystack->start + start, haystack->start + end, haystack);
 }
 
-// Caller ensures num is greater than or equal to zero
+// Caller ensures num is greater than or equal to zero. Returns NULL if the result is too large.
 struct YASL_String *YASL_String_rep_fast(struct YASL_String *string, yasl_int num) {
 	YASL_ASSERT(num >= 0, "num must be nonnegative");
 	const size_t string_len = YASL_String_len(string);
+	if (string_len > 0 && (uint64_t)num > PTRDIFF_MAX / string_len) return NULL;
 	size_t size = num * string_len;
 	char *str = (char *)malloc(size);
+	if (size > 0 && !str) return NULL;
 	for (size_t i = 0; i < size; i += string_len) {
 		memcpy(str + i, string->str + string->start, string_len);
 	}
diff --git a/data-structures/YASL_String.h b/data-structures/YASL_String.h
index f218de6..893466c 100644
--- a/data-structures/YASL_String.h
+++ b/data-structures/YASL_String.h
@@ -53,7 +53,7 @@ struct YASL_String *YASL_String_rtrim_default(struct YASL_String *haystack);
 struct YASL_String *YASL_String_rtrim(struct YASL_String *haystack, struct YASL_String *needle);
 struct YASL_String *YASL_String_trim_default(struct YASL_String *haystack);
 struct YASL_String *YASL_String_trim(struct YASL_String *haystack, struct YASL_String *needle);
-// Caller ensures num is greater than or equal to zero
+// Caller ensures num is greater than or equal to zero. Returns NULL if the result is too large.
 struct YASL_String *YASL_String_rep_fast(struct YASL_String *string, yasl_int num);
 
 #endif
diff --git a/interpreter/VM.c b/interpreter/VM.c
index a8f812c..99e4082 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -190,8 +190,11 @@ void vm_throw_err(struct VM *const vm, int error) {
 	longjmp(vm->buf, 1);
 }
 
-void vm_push(struct VM *const vm, const struct YASL_Object val) {
+void vm_push(struct VM *const vm, struct YASL_Object val) {
 	if (vm->sp + 1 >= STACK_SIZE) {
+		// Frees val if nothing else refers to it.
+		inc_ref(&val);
+		dec_ref(&val);
 		vm_print_err(vm, "StackOverflow.");
 		vm_throw_err(vm, YASL_STACK_OVERFLOW_ERROR);
 	}
@@ -695,7 +698,11 @@ static void vm_SLICE_str(struct VM *const vm){
 
 	struct YASL_String *str = vm_popstr(vm);
 
-	vm_push(vm, YASL_STR(YASL_String_new_substring((size_t)start, (size_t)end, str)));
+	if (end < start) {
+		start = end = 0;
+	}
+
+	vm_push(vm, YASL_STR(YASL_String_new_substring(str->start + (size_t)start, str->start + (size_t)end, str)));
 }
 
 static void vm_SLICE(struct VM *const vm) {
@@ -893,7 +900,7 @@ static void vm_ITER_1(struct VM *const vm) {
 		if (YASL_String_len(str) <= (size_t) frame->iter) {
 			vm_pushbool(vm, false);
 		} else {
-			size_t i = (size_t) frame->iter;
+			size_t i = str->start + (size_t) frame->iter;
 			vm_pushstr(vm, YASL_String_new_substring(i, i + 1, str));
 			frame->iter++;
 			vm_pushbool(vm, true);
diff --git a/interpreter/YASL_Object.c b/interpreter/YASL_Object.c
index b0c57a7..22bb85f 100644
--- a/interpreter/YASL_Object.c
+++ b/interpreter/YASL_Object.c
@@ -58,6 +58,8 @@ int yasl_object_cmp(struct YASL_Object a, struct YASL_Object b) {
 	YASL_ASSERT(obj_isstr(&a) && obj_isstr(&b) || obj_isnum(&a) && obj_isnum(&b), "Both must be either numeric or strings");
 	if (obj_isstr(&a) && obj_isstr(&b)) {
 		return YASL_String_cmp(obj_getstr(&a), obj_getstr(&b));
+	} else if (obj_isint(&a) && obj_isint(&b)) {
+		return (obj_getint(&a) > obj_getint(&b)) - (obj_getint(&a) < obj_getint(&b));
 	} else if (obj_isnum(&a) && obj_isnum(&b)) {
 		yasl_float aVal, bVal;
 		if(obj_isint(&a)) {
diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 6f1e769..1fc56b5 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -4,6 +4,7 @@
 #include "yasl_aux.h"
 #include "data-structures/YASL_List.h"
 #include "yasl_error.h"
+#include "table_methods.h"
 #include "yasl_state.h"
 
 static struct YASL_List *YASLX_checknlist(struct YASL_State *S, const char *name, unsigned pos) {
@@ -23,7 +24,7 @@ int list___len(struct YASL_State *S) {
 
 void list___get_helper(struct YASL_State *S, struct YASL_List *ls, yasl_int index) {
 	if (index < -(int64_t) ls->count || index >= (int64_t) ls->count) {
-		vm_print_err_value(&S->vm, "unable to index list of length %" PRI_SIZET " with index %" PRI_SIZET ".", ls->count, index);
+		vm_print_err_value(&S->vm, "unable to index list of length %" PRI_SIZET " with index %" PRId64 ".", ls->count, index);
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	} else {
 		if (index >= 0) {
@@ -60,22 +61,19 @@ int list___set(struct YASL_State *S) {
 	return 1;
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
-bool buffer_contains(void **buffer, size_t buffer_count, void *val);
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t));
+int table_tostr_helper(struct YASL_State *S, const struct Ancestor *const parent);
 
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
-
-	YASL_ByteBuffer_add_byte(&bb, '[');
+int list_tostr_helper(struct YASL_State *S, const struct Ancestor *const parent) {
+	const struct Ancestor self = { vm_peeklist((struct VM *) S), parent };
 	struct YASL_List *list = vm_peeklist((struct VM *) S);
+	struct YASL_ByteBuffer *bb = bb_push((struct VM *) S);
+	YASL_ByteBuffer_add_byte(bb, '[');
 	if (list->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, ']');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+		YASL_ByteBuffer_add_byte(bb, ']');
+		bb_finish((struct VM *) S);
 		return YASL_SUCCESS;
 	}
 
@@ -83,37 +81,35 @@ int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, s
 		vm_push((struct VM *) S, obj);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = ancestors_contain(&self, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				list_tostr_helper(S, &self);
 			}
 		} else if (vm_istable((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = ancestors_contain(&self, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				table_tostr_helper(S, &self);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
 		}
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, ']');
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, ']');
 
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	bb_finish((struct VM *) S);
 
 	return YASL_SUCCESS;
 }
@@ -123,10 +119,7 @@ int list_tostr(struct YASL_State *S) {
 		YASLX_print_err_bad_arg_type(S, "list.tostr", 0, "list", YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peeklist((struct VM *) S, S->vm.sp);
-	list_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	list_tostr_helper(S, NULL);
 	return 1;
 }
 
@@ -202,7 +195,7 @@ int list___eq(struct YASL_State *S) {
 		return 1;
 	}
 
-	for (size_t i = 0; i < left->count; i++) {
+	for (size_t i = 0; i < left->count && i < right->count; i++) {
 		vm_push((struct VM *)S, left->items[i]);
 		vm_push((struct VM *)S, right->items[i]);
 		vm_EQ((struct VM *)S);
@@ -212,7 +205,7 @@ int list___eq(struct YASL_State *S) {
 		}
 	}
 
-	YASL_pushbool(S, true);
+	YASL_pushbool(S, left->count == right->count);
 	return 1;
 }
 
@@ -222,7 +215,9 @@ int list_pop(struct YASL_State *S) {
 		vm_print_err((struct VM *)S, "ValueError: %s expected nonempty list as arg 0.", "list.pop");
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
-	vm_push((struct VM *) S, ls->items[--ls->count]);
+	struct YASL_Object value = ls->items[--ls->count];
+	vm_push((struct VM *) S, value);
+	dec_ref(&value);
 	return 1;
 }
 
@@ -276,52 +271,24 @@ int list_join(struct YASL_State *S) {
 		return 1;
 	}
 
-	size_t buffer_count = 0;
-	size_t buffer_size = 8;
-	char *buffer = (char *) malloc(buffer_size);
-
-	vm_push((struct VM *)S, list->items[0]);
-	vm_stringify_top((struct VM *)S);
-	struct YASL_String *str = vm_popstr((struct VM *) S);
-
-	while (buffer_count + YASL_String_len(str) >= buffer_size) {
-		buffer_size *= 2;
-		buffer = (char *) realloc(buffer, buffer_size);
-	}
-
-	memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-	buffer_count += YASL_String_len(str);
-
+	struct YASL_ByteBuffer *bb = bb_push((struct VM *) S);
 
-	for (size_t i = 1; i < list->count; i++) {
-		while (buffer_count + YASL_String_len(string) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
+	for (size_t i = 0; i < list->count; i++) {
+		if (i > 0) {
+			YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(string), YASL_String_len(string));
 		}
 
-		memcpy(buffer + buffer_count, YASL_String_chars(string), YASL_String_len(string));
-		buffer_count += YASL_String_len(string);
-
 		vm_push((struct VM *) S, list->items[i]);
 		vm_stringify_top((struct VM *)S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-
-		while (buffer_count + YASL_String_len(str) >= buffer_size) {
-			buffer_size *= 2;
-			buffer = (char *) realloc(buffer, buffer_size);
-		}
-
-		memcpy(buffer + buffer_count, YASL_String_chars(str), YASL_String_len(str));
-		buffer_count += YASL_String_len(str);
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 	}
-	vm_pop((struct VM *) S);
-	vm_pop((struct VM *) S);
-	vm_pushstr((struct VM *) S, YASL_String_new_sized_heap(0, buffer_count, buffer));
+	bb_finish((struct VM *) S);
 	return 1;
 }
 
 int list_spread(struct YASL_State *S) {
-	struct YASL_List *ls = YASLX_checknlist(S, "list.reverse", 0);
+	struct YASL_List *ls = YASLX_checknlist(S, "list.spread", 0);
 	const yasl_int len = YASL_List_length(ls);
 
 	FOR_LIST(i, elmt, ls) {
@@ -347,12 +314,25 @@ int list_count(struct YASL_State *S) {
 static const int SORT_TYPE_EMPTY = 0;
 static const int SORT_TYPE_STR = -1;
 static const int SORT_TYPE_NUM = 1;
+
+static bool isnan_obj(const struct YASL_Object *const v) {
+	return obj_isfloat(v) && obj_getfloat(v) != obj_getfloat(v);
+}
+
+// NaN is not ordered, but sorting requires a total order, so we put it after every other number.
+static int sort_cmp(const struct YASL_Object a, const struct YASL_Object b) {
+	if (isnan_obj(&a) || isnan_obj(&b)) {
+		return isnan_obj(&a) - isnan_obj(&b);
+	}
+	return yasl_object_cmp(a, b);
+}
+
 void sort(struct YASL_Object *list, const size_t len) {
 	// Base cases
 	struct YASL_Object tmpObj;
 	if (len < 2) return;
 	if (len == 2) {
-		if (yasl_object_cmp(list[0], list[1]) > 0) {
+		if (sort_cmp(list[0], list[1]) > 0) {
 			tmpObj = list[0];
 			list[0] = list[1];
 			list[1] = tmpObj;
@@ -373,20 +353,20 @@ void sort(struct YASL_Object *list, const size_t len) {
 	size_t ltCount = 0;
 	int seenDifferent = 0;
 	for (size_t i = 0; i < len; i++) {
-		if (yasl_object_cmp(list[i], mid) < 0) ltCount++;
-		if (seenDifferent == 0 && yasl_object_cmp(list[0], list[i]) != 0) seenDifferent = 1;
+		if (sort_cmp(list[i], mid) < 0) ltCount++;
+		if (seenDifferent == 0 && sort_cmp(list[0], list[i]) != 0) seenDifferent = 1;
 	}
 	if (seenDifferent == 0) return;
 
 	// Ensure all items are on the correct side of mid
 	while (left < right) {
-		while (yasl_object_cmp(list[left], mid) < 0) left++;
-		while (yasl_object_cmp(list[right], mid) >= 0) {
+		while (sort_cmp(list[left], mid) < 0) left++;
+		while (sort_cmp(list[right], mid) >= 0) {
 			if (right == 0) break;
 			right--;
 		}
 
-		int cmp = yasl_object_cmp(list[left], list[right]);
+		int cmp = sort_cmp(list[left], list[right]);
 		if (cmp > 0 && left < right) {
 			tmpObj = list[right];
 			list[right] = list[left];
diff --git a/interpreter/str_methods.c b/interpreter/str_methods.c
index f5fc41f..bdb8469 100644
--- a/interpreter/str_methods.c
+++ b/interpreter/str_methods.c
@@ -28,7 +28,7 @@ int str___get(struct YASL_State *S) {
 	if (index < -(yasl_int) YASL_String_len(str) ||
 		   index >= (yasl_int) YASL_String_len(
 			   str)) {
-		vm_print_err_value(&S->vm, "unable to index str of length %" PRI_SIZET " with index %" PRI_SIZET ".", YASL_String_len(str), index);
+		vm_print_err_value(&S->vm, "unable to index str of length %" PRI_SIZET " with index %" PRId64 ".", YASL_String_len(str), index);
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	} else {
 		if (index >= 0)
@@ -175,6 +175,12 @@ int str_search(struct YASL_State *S) {
 int str_count(struct YASL_State *S) {
 	struct YASL_String *needle = YASLX_checknstr(S, "str.count", 1);
 	struct YASL_String *haystack = YASLX_checknstr(S, "str.count", 0);
+
+	if (YASL_String_len(needle) == 0) {
+		vm_print_err_value((struct VM *)S, "%s expected a nonempty str as arg 1.", "str.count");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
 	YASL_pushint(S, YASL_String_count(haystack, needle));
 	return 1;
 }
@@ -277,6 +283,12 @@ int str_repeat(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_VALUE_ERROR);
 	}
 
-	vm_push((struct VM *) S, YASL_STR(YASL_String_rep_fast(string, num)));
+	struct YASL_String *result = YASL_String_rep_fast(string, num);
+	if (!result) {
+		vm_print_err_value((struct VM *)S, "%s result is too large.", "str.rep");
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+
+	vm_push((struct VM *) S, YASL_STR(result));
 	return 1;
 }
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 20e68fb..c948e09 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -95,39 +95,47 @@ int table___eq(struct YASL_State *S) {
 	return 1;
 }
 
-int list_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count);
+int list_tostr_helper(struct YASL_State *S, const struct Ancestor *const parent);
 
 #define FOUND_LIST "[...], "
 #define FOUND_TABLE "{...}, "
 
-bool buffer_contains(void **buffer, size_t buffer_count, void *val) {
-	for (size_t j = 0; j < buffer_count; j++) {
-		if (buffer[j] == val) {
+bool ancestors_contain(const struct Ancestor *curr, const void *const val) {
+	for (; curr; curr = curr->parent) {
+		if (curr->val == val) {
 			return true;
 		}
 	}
 	return false;
 }
 
-void rec_call(struct YASL_State *S, void **buffer, const size_t buffer_count, const size_t buffer_size, int (*f)(struct YASL_State *, void **, size_t, size_t)) {
-	size_t tmp_buffer_size =
-		buffer_count == buffer_size ? buffer_size * 2 : buffer_size;
-	void **tmp_buffer = (void **) malloc(tmp_buffer_size * sizeof(void *));
-	memcpy(tmp_buffer, buffer, sizeof(void *) * buffer_count);
-	tmp_buffer[buffer_count] = vm_peeklist((struct VM *) S);
-	f(S, tmp_buffer, tmp_buffer_size, buffer_count + 1);
-	free(tmp_buffer);
+static void bb_del(void *bb) {
+	YASL_ByteBuffer_del((struct YASL_ByteBuffer *)bb);
 }
 
-int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size, size_t buffer_count) {
-	struct YASL_ByteBuffer bb = NEW_BB(8);
+struct YASL_ByteBuffer *bb_push(struct VM *vm) {
+	struct YASL_ByteBuffer *bb = YASL_ByteBuffer_new(8);
+	vm_push(vm, YASL_USERDATA(ud_new(bb, "buffer", NULL, bb_del)));
+	return bb;
+}
+
+void bb_finish(struct VM *vm) {
+	struct YASL_ByteBuffer *bb = (struct YASL_ByteBuffer *)vm_peek(vm).value.uval->data;
+	struct YASL_String *str = YASL_String_new_sized_heap(0, bb->count, (char *)bb->bytes);
+	bb->bytes = NULL;
+	vm_pop(vm);
+	vm_pop(vm);
+	vm_pushstr(vm, str);
+}
 
-	YASL_ByteBuffer_add_byte(&bb, '{');
+int table_tostr_helper(struct YASL_State *S, const struct Ancestor *const parent) {
+	const struct Ancestor self = { vm_peektable((struct VM *) S), parent };
 	struct YASL_Table *table = vm_peektable((struct VM *) S);
+	struct YASL_ByteBuffer *bb = bb_push((struct VM *) S);
+	YASL_ByteBuffer_add_byte(bb, '{');
 	if (table->count == 0) {
-		vm_pop((struct VM *) S);
-		YASL_ByteBuffer_add_byte(&bb, '}');
-		vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+		YASL_ByteBuffer_add_byte(bb, '}');
+		bb_finish((struct VM *) S);
 		return YASL_SUCCESS;
 	}
 
@@ -137,44 +145,42 @@ int table_tostr_helper(struct YASL_State *S, void **buffer, size_t buffer_size,
 		vm_stringify_top(&S->vm);
 
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)": ", strlen(": "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)": ", strlen(": "));
 
 		vm_push((struct VM *) S, item->value);
 
 		if (vm_islist((struct VM *) S)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = ancestors_contain(&self, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_LIST, strlen(FOUND_LIST));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &list_tostr_helper);
+				list_tostr_helper(S, &self);
 			}
 		} else if (vm_istable((struct VM *) S, S->vm.sp)) {
-			bool found = buffer_contains(buffer, buffer_count, vm_peeklist((struct VM *) S));
+			bool found = ancestors_contain(&self, vm_peeklist((struct VM *) S));
 			if (found) {
-				YASL_ByteBuffer_extend(&bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
+				YASL_ByteBuffer_extend(bb, (unsigned char *)FOUND_TABLE, strlen(FOUND_TABLE));
 				vm_pop((struct VM *) S);
 				continue;
 			} else {
-				rec_call(S, buffer, buffer_count, buffer_size, &table_tostr_helper);
+				table_tostr_helper(S, &self);
 			}
 		} else {
 			vm_stringify_top((struct VM *) S);
 		}
 
 		str = vm_popstr((struct VM *) S);
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
-		YASL_ByteBuffer_extend(&bb, (unsigned char *)", ", strlen(", "));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
 
-	vm_pop((struct VM *) S);
-
-	bb.count -= 2;
-	YASL_ByteBuffer_add_byte(&bb, '}');
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, '}');
 
-	vm_push((struct VM *) S, YASL_STR(YASL_String_new_sized_heap(0, bb.count, (char *)bb.bytes)));
+	bb_finish((struct VM *) S);
 
 	return YASL_SUCCESS;
 }
@@ -185,10 +191,7 @@ int table_tostr(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
-	void **buffer = (void **) malloc(8 * sizeof(void *));
-	buffer[0] = vm_peektable((struct VM *) S, S->vm.sp);
-	table_tostr_helper(S, buffer, 8, 1);
-	free(buffer);
+	table_tostr_helper(S, NULL);
 	return 1;
 }
 
diff --git a/interpreter/table_methods.h b/interpreter/table_methods.h
index ecdb79f..6e2aacf 100644
--- a/interpreter/table_methods.h
+++ b/interpreter/table_methods.h
@@ -1,8 +1,26 @@
 #ifndef YASL_TABLE_METHODS_H_
 #define YASL_TABLE_METHODS_H_
 
+#include <stdbool.h>
+
+struct VM;
+struct YASL_ByteBuffer;
 struct YASL_State;
 
+// Chain of the containers we're currently in the middle of converting to strings.
+struct Ancestor {
+	const void *val;
+	const struct Ancestor *parent;
+};
+
+bool ancestors_contain(const struct Ancestor *curr, const void *const val);
+
+// The buffer lives on the stack of `vm`, so that it's freed if we stop with an error.
+struct YASL_ByteBuffer *bb_push(struct VM *vm);
+
+// Replaces the buffer on top of the stack and the value below it with the contents of the buffer as a string.
+void bb_finish(struct VM *vm);
+
 int table___len(struct YASL_State *S);
 
 int table___get(struct YASL_State *S);
-- 
2.43.0


From 94dab47c23fd804b52b82854f68a9e28a1ea0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 08/25] fix: calls inside calls give one value, for-loop
 updates balance the stack, malformed literals and statements are rejected
 cleanly

---
 compiler/ast.c      |  12 +++-
 compiler/compiler.c |  11 +++-
 compiler/lexer.c    |  14 ++++-
 compiler/parser.c   | 132 ++++++++++++++++++++++++++------------------
 4 files changed, 107 insertions(+), 62 deletions(-)

diff --git a/compiler/ast.c b/compiler/ast.c
index eeb25bd..5865541 100644
--- a/compiler/ast.c
+++ b/compiler/ast.c
@@ -268,9 +268,7 @@ struct Node *new_VariadicContext(struct Parser *parser, const struct Node *const
 	return node;
 }
 
-void node_del(struct Node *node) {
-	if (!node) return;
-	node_del(node->next);
+static void node_del_one(struct Node *const node) {
 	switch (node->nodetype) {
 	case N_PATALT:
 	case N_BINOP:
@@ -301,6 +299,14 @@ void node_del(struct Node *node) {
 	free(node);
 }
 
+void node_del(struct Node *node) {
+	while (node) {
+		struct Node *const next = node->next;
+		node_del_one(node);
+		node = next;
+	}
+}
+
 struct Node *Block_get_block(const struct Node *const node) {
 	YASL_ASSERT(node->nodetype == N_BLOCK, "Expected Block");
 	return node->children[0];
diff --git a/compiler/compiler.c b/compiler/compiler.c
index 241b42f..8976d69 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -515,26 +515,33 @@ static void visit_VariadicContext(struct Compiler *const compiler, const struct
 }
 
 static void visit_Call(struct Compiler *const compiler, const struct Node *const node) {
+	// what the call is used for says nothing about the calls it is made of
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, Call_get_object(node));
 	compiler_add_byte(compiler, O_INIT_CALL);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	visit_Body(compiler, Call_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_MethodCall(struct Compiler *const compiler, const struct Node *const node) {
 	char *str = MethodCall_get_name(node);
 	size_t len = strlen(str);
+	const int expected_returns = compiler->expected_returns;
+	compiler->expected_returns = 1;
 	visit(compiler, MethodCall_get_object(node));
 
 	yasl_int index = compiler_intern_string(compiler, str, len);
 
 	compiler_add_byte(compiler, O_INIT_MC);
-	compiler_add_byte(compiler, (unsigned char)compiler->expected_returns);
+	compiler_add_byte(compiler, (unsigned char)expected_returns);
 	compiler_add_int(compiler, index);
 
 	visit_Body(compiler, MethodCall_get_params(node));
 	compiler_add_byte(compiler, O_CALL);
+	compiler->expected_returns = expected_returns;
 }
 
 static void visit_Return(struct Compiler *const compiler, const struct Node *const node) {
diff --git a/compiler/lexer.c b/compiler/lexer.c
index 0a2171a..f1387e2 100644
--- a/compiler/lexer.c
+++ b/compiler/lexer.c
@@ -111,6 +111,7 @@ static bool lex_eatcommentsandwhitespace(struct Lexer * lex) {
 					return true;
 				}
 				if (addsemi && ispotentialend(lex)) {
+					lex->c = '\n';
 					lex->type = T_SEMI;
 					return true;
 				}
@@ -236,6 +237,15 @@ static bool lex_eatfloat(struct Lexer *const lex) {
 			lex_getchar(lex);
 			lex_val_append(lex, 'e');
 			while (lex->c == NUM_SEPERATOR) lex_getchar(lex);
+			if (lex->c == '+' || lex->c == '-') {
+				lex_val_append(lex, lex->c);
+				lex_getchar(lex);
+			}
+			if (lxeof(lex->file) || !isdigit(lex->c)) {
+				lex_print_err_syntax(lex, "Invalid float literal in line %" PRI_SIZET ".\n", lex->line);
+				lex_error(lex);
+				return true;
+			}
 			lex_eatnumber_fill(lex, &isddigit);
 		}
 
@@ -341,10 +351,10 @@ static bool handle_escapes(struct Lexer *const lex, char delim) {
 		break;
 	case 'x':
 		buffer[0] = lex_getchar(lex);
-		buffer[1] = lex_getchar(lex);
+		buffer[1] = isxdigit(lex->c) ? lex_getchar(lex) : '\0';
 		buffer[2] = '\0';
 		tmp = (char) strtol(buffer, &end, 16);
-		if (end != buffer + 2) {
+		if (!isxdigit(buffer[0]) || end != buffer + 2) {
 			lex_print_err_syntax(lex, "Invalid hex string escape in line %" PRI_SIZET ".\n", lex->line);
 			goto error;
 		}
diff --git a/compiler/parser.c b/compiler/parser.c
index f9427a1..a896997 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -158,10 +158,12 @@ enum Token eattok(struct Parser *const parser, const enum Token token) {
 }
 
 static char *eatname(struct Parser *const parser) {
-	char *tmp = parser->lex.value;
+	char *tmp = TOKEN_MATCHES(parser, T_ID) ? parser->lex.value : NULL;
 	eattok(parser, T_ID);
-	if (parser->status)
+	if (parser->status) {
+		free(tmp);
 		handle_error(parser);
+	}
 	return tmp;
 }
 
@@ -196,54 +198,60 @@ struct Node *parse_assign_or_exprstmt(struct Parser *const parser) {
 		struct Node *set = new_Set(parser, Get_get_collection(expr), Get_get_value(expr), NULL, line);
 		body_append(parser, &buffer, set);
 
-		return parse_decl_helper(parser, buffer, 0);
-
+		return parse_decl_helper(parser, buffer, 1);
 	}
 
 	return new_ExprStmt(parser, expr, line);
 }
 
+/*
+ * Looks at the token after the current one, and leaves the lexer where it was.
+ */
+static enum Token peektok(struct Parser *const parser) {
+	struct Lexer *const lex = &parser->lex;
+	const long curr = lxtell(lex->file);
+	const enum Token type = lex->type;
+	const int c = lex->c;
+	const size_t line = lex->line;
+	const int mode = lex->mode;
+	const size_t val_cap = lex->val_cap;
+	const size_t val_len = lex->val_len;
+	char *const value = lex->value;
+
+	gettok(lex);
+	const enum Token result = lex->type;
+	free(lex->value);
+
+	lxseek(lex->file, curr, SEEK_SET);
+	lex->type = type;
+	lex->c = c;
+	lex->line = line;
+	lex->mode = mode;
+	lex->val_cap = val_cap;
+	lex->val_len = val_len;
+	lex->value = value;
+	return result;
+}
+
 /*
  * Checks for function statement `fn <id> ...` vs function expr `fn ( ...`.
  */
 static bool isfndecl(struct Parser *const parser) {
-	long curr = lxtell(parser->lex.file);
-	eattok(parser, T_FN);
-	free(parser->lex.value);
-	parser->lex.value = NULL;
-	bool result = TOKEN_MATCHES(parser, T_ID);
-	lxseek(parser->lex.file, curr, SEEK_SET);
-	parser->lex.type = T_FN;
-	return result;
+	return peektok(parser) == T_ID;
 }
 
 /*
  * Checks for const function statement `const fn ...` vs const decl `const <id> ...`.
  */
 static bool isconstfndecl(struct Parser *const parser) {
-	long curr = lxtell(parser->lex.file);
-	eattok(parser, T_CONST);
-	free(parser->lex.value);
-	bool result = TOKEN_MATCHES(parser, T_FN);
-	lxseek(parser->lex.file, curr, SEEK_SET);
-	parser->lex.type = T_CONST;
-	return result;
+	return peektok(parser) == T_FN;
 }
 
 /*
  * Checks for multiple assignment `<id>, ...` vs other uses of identifiers.
  */
 static bool ismultiassign(struct Parser *const parser) {
-	long curr = lxtell(parser->lex.file);
-	char *name = parser->lex.value;
-	parser->lex.value = NULL;
-	eattok(parser, T_ID);
-	bool result = TOKEN_MATCHES(parser, T_COMMA);
-	lxseek(parser->lex.file, curr, SEEK_SET);
-	free(parser->lex.value);
-	parser->lex.type = T_ID;
-	parser->lex.value = name;
-	return result;
+	return peektok(parser) == T_COMMA;
 }
 
 static struct Node *parse_program(struct Parser *const parser) {
@@ -255,7 +263,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 		return new_Echo(parser, parse_expr(parser), line);
 	case T_FN:
 		if (isfndecl(parser)) return parse_fn(parser);
-		else return parse_expr(parser);
+		else return parse_assign_or_exprstmt(parser);
 	case T_RET:
 		return parse_return(parser);
 	case T_EXPORT:
@@ -348,7 +356,10 @@ static struct Node *parse_return(struct Parser *const parser) {
 		}
 		return new_MultiReturn(parser, block, line);
 	}
-	return new_Return(parser, new_VariadicContext(parser, expr, -1, line), line);
+	if (will_var_expand(expr)) {
+		expr = new_VariadicContext(parser, expr, -1, line);
+	}
+	return new_Return(parser, expr, line);
 }
 
 static struct Node *parse_fn(struct Parser *const parser) {
@@ -373,6 +384,7 @@ static struct Node *parse_fn(struct Parser *const parser) {
 
 		return new_Set(parser, collection, index, new_FnDecl(parser, block, body, NULL, 0, line), line);
 	}
+	struct Node *let = new_Let(parser, NULL, name, line);
 	eattok(parser, T_LPAR);
 	struct Node *block = parse_function_params(parser);
 	eattok(parser, T_RPAR);
@@ -381,7 +393,8 @@ static struct Node *parse_fn(struct Parser *const parser) {
 
 	char *name2 = (char *)malloc(name_len + 1);
 	strcpy(name2, name);
-	return new_Let(parser, new_FnDecl(parser, block, body, name2, strlen(name2), line), name, line);
+	let->children[0] = new_FnDecl(parser, block, body, name2, strlen(name2), line);
+	return let;
 	// TODO Fix this ^
 }
 
@@ -392,6 +405,7 @@ static struct Node *parse_const_fn(struct Parser *const parser) {
 	size_t line = parserline(parser);
 	char *name = eatname(parser);
 	size_t name_len = strlen(name);
+	struct Node *decl = new_Const(parser, NULL, name, line);
 	eattok(parser, T_LPAR);
 	struct Node *block = parse_function_params(parser);
 	eattok(parser, T_RPAR);
@@ -401,7 +415,8 @@ static struct Node *parse_const_fn(struct Parser *const parser) {
 	// TODO: clean this up
 	char *name2 = (char *)malloc(name_len + 1);
 	strcpy(name2, name);
-	return new_Const(parser, new_FnDecl(parser, block, body, name2, strlen(name2), line), name, line);
+	decl->children[0] = new_FnDecl(parser, block, body, name2, strlen(name2), line);
+	return decl;
 }
 
 static struct Node *parse_let_const_or_var(struct Parser *const parser) {
@@ -421,7 +436,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
-			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s", YASL_TOKEN_NAMES[curtok(parser)]);
+			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
 	}
@@ -433,7 +448,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	int j = 0;
 	do {
 		body_append(parser, &rvals, parse_expr(parser));
-	} while (j++ < expected && matcheattok(parser, T_COMMA));
+	} while (++j < expected && matcheattok(parser, T_COMMA));
 
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
@@ -441,6 +456,11 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 			body_append(parser, &rvals, new_Undef(parser, parserline(parser)));
 		}
 	} else {
+		// the number of values wanted has to fit in a signed byte
+		if (expected - j + 1 > 127) {
+			parser_print_err_syntax(parser, "Too many variables on the left of a call (line %" PRI_SIZET ").\n", parserline(parser));
+			handle_error(parser);
+		}
 		rvals->children[rvals->children_len - 1] = new_VariadicContext(parser, last, expected - j + 1, last ? last->line : 0);
 	}
 
@@ -478,18 +498,20 @@ static struct Node *parse_let(struct Parser *const parser) {
 	eattok(parser, T_LET);
 	size_t line = parserline(parser);
 	char *name = eatname(parser);
+	struct Node *let = new_Let(parser, NULL, name, line);
 	eattok(parser, T_EQ);
-	struct Node *expr = parse_expr(parser);
-	return new_Let(parser, expr, name, line);
+	let->children[0] = parse_expr(parser);
+	return let;
 }
 
 static struct Node *parse_iterate(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing let <- in line %" PRI_SIZET "\n", parserline(parser));
 	size_t line = parserline(parser);
 	char *name = eatname(parser);
+	struct Node *iter = new_LetIter(parser, NULL, name, line);
 	eattok(parser, T_LEFT_ARR);
-	struct Node *collection = parse_expr(parser);
-	return new_LetIter(parser, collection, name, line);
+	iter->children[0] = parse_expr(parser);
+	return iter;
 }
 
 static struct Node *parse_let_iterate_or_let(struct Parser *const parser) {
@@ -517,7 +539,7 @@ static struct Node *parse_for(struct Parser *const parser) {
 		struct Node *body = parse_body(parser);
 		struct Node *outer_body = new_Body(parser, line);
 		body_append(parser, &outer_body, iter);
-		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), new_ExprStmt(parser, post, line), line));
+		body_append(parser, &outer_body, new_While(parser, cond, new_Block(parser, body, line), post, line));
 		struct Node *block = new_Block(parser, outer_body, line);
 		return block;
 	}
@@ -569,9 +591,11 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		}
 	case T_STR:
 		if (parser->lex.mode == L_INTERP) {
-			while (parser->lex.c != '"') {
+			while (parser->lex.c != '"' && !lxeof(parser->lex.file)) {
 				lex_getchar(&parser->lex);
 			}
+			free(parser->lex.value);
+			parser->lex.value = NULL;
 			eattok(parser, T_STR);
 			parser_print_err_syntax(parser, "Interpolated strings cannot be used in patterns (line %" PRI_SIZET ").\n", line);
 			handle_error(parser);
@@ -601,6 +625,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->nodetype = N_PATTABLETYPE;
 		} else {
 			parser_print_err_syntax(parser, "Invalid pattern: %s (line %" PRI_SIZET ").\n", name, line);
+			free(name);
 			handle_error(parser);
 		}
 		free(name);
@@ -651,7 +676,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			body_append(parser, &n, parse_primitivepattern(parser));
 			eattok(parser, T_COLON);
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing table pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -662,7 +687,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				eattok(parser, T_COLON);
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 		}
 		eattok(parser, T_RBRC);
 		return n;
@@ -675,7 +700,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 			n->nodetype = N_PATVLS;
 		} else if (curtok(parser) != T_RSQB) {
 			body_append(parser, &n, parse_pattern(parser));
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 			while (matcheattok(parser, T_COMMA)) {
 				YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list pattern");
 				if (matcheattok(parser, T_TDOT)) {
@@ -684,7 +709,7 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 				}
 				body_append(parser, &n, parse_pattern(parser));
 			}
-			while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+			while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 		}
 		eattok(parser, T_RSQB);
 		return n;
@@ -922,10 +947,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 			}
 		} else if (matcheattok(parser, T_DOT)) {
 			struct Node *right = parse_constant(parser);
-			if (right->nodetype == N_CALL) {
-				cur_node = new_Set(parser, cur_node, Call_get_params(right)->children[0],
-						   Call_get_params(right)->children[1], parserline(parser));
-			} else if (right->nodetype == N_VAR) {
+			if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
 				cur_node = new_Get(parser, cur_node, right, parserline(parser));
 			} else {
@@ -1146,7 +1168,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 	eattok(parser, T_COLON);
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 	if (matcheattok(parser, T_FOR)) {
 		struct Node *iter = parse_iterate(parser);
 
@@ -1155,7 +1177,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 		eattok(parser, T_RBRC);
 		struct Node *table_comp = new_TableComp(parser, keys, iter, cond, line);
 		return table_comp;
@@ -1165,7 +1187,7 @@ static struct Node *parse_table(struct Parser *const parser) {
 		eattok(parser, T_COLON);
 		body_append(parser, &keys, parse_expr(parser));
 	}
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 	eattok(parser, T_RBRC);
 	return new_Table(parser, keys, line);
 }
@@ -1185,7 +1207,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 
 	body_append(parser, &keys, parse_expr(parser));
 
-	while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+	while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 
 	// non-empty list
 	if (matcheattok(parser, T_FOR)) {
@@ -1196,7 +1218,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			cond = parse_expr(parser);
 		}
 
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 		eattok(parser, T_RSQB);
 		struct Node *table_comp = new_ListComp(parser, keys->children[0], iter, cond, line);
 		return table_comp;
@@ -1205,7 +1227,7 @@ static struct Node *parse_list(struct Parser *const parser) {
 			YASL_PARSE_DEBUG_LOG("%s\n", "Parsing list");
 			body_append(parser, &keys, parse_expr(parser));
 		}
-		while (parser->lex.c == '\n') eattok(parser, T_SEMI);
+		while (parser->lex.c == '\n' && matcheattok(parser, T_SEMI)) ;
 		eattok(parser, T_RSQB);
 		return new_List(parser, keys, line);
 	}
-- 
2.43.0


From 11ba4f6910ce03c81e2504d5c97899839f42bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 09/25] fix: source nested too deeply is a syntax error instead
 of a crash, interpolated strings nest

---
 compiler/ast.c    | 29 +++++++++++++++++----
 compiler/ast.h    |  2 ++
 compiler/parser.c | 66 +++++++++++++++++++++++++++++++++++++++--------
 compiler/parser.h |  2 ++
 4 files changed, 83 insertions(+), 16 deletions(-)

diff --git a/compiler/ast.c b/compiler/ast.c
index 5865541..af81571 100644
--- a/compiler/ast.c
+++ b/compiler/ast.c
@@ -8,6 +8,17 @@
 void parser_register_node(struct Parser *parser, struct Node *node);
 void parser_unregister_node(struct Parser *parser, struct Node *node);
 
+static void node_deepen(struct Node *const node, const struct Node *const child) {
+	if (child && child->depth >= node->depth) {
+		node->depth = child->depth + 1;
+	}
+}
+
+void node_set_child(struct Node *node, size_t i, struct Node *child) {
+	node->children[i] = child;
+	node_deepen(node, child);
+}
+
 struct Node *node_clone(const struct Node *const node) {
 	if (node == NULL) return NULL;
 	struct Node *clone = (struct Node *)malloc(sizeof(struct Node) + node->children_len * sizeof(struct Node *));
@@ -44,6 +55,7 @@ struct Node *node_clone(const struct Node *const node) {
 	}
 
 	clone->line = node->line;
+	clone->depth = node->depth;
 	return clone;
 }
 
@@ -58,10 +70,11 @@ static struct Node *new_Node(struct Parser *parser, const enum NodeType nodetype
 	node->value.sval.str = name;
 
 	node->line = line;
+	node->depth = 0;
 	va_list children;
 	va_start(children, n);
 	for (size_t i = 0; i < n; i++) {
-		node->children[i] = va_arg(children, struct Node*);
+		node_set_child(node, i, va_arg(children, struct Node*));
 	}
 	va_end(children);
 
@@ -151,7 +164,7 @@ void body_append(struct Parser *parser, struct Node **node, struct Node *const c
 	parser_unregister_node(parser, *node);
 	*node = (struct Node*)realloc(*node, sizeof(struct Node) + (++(*node)->children_len) * sizeof(struct Node *));
 	parser_register_node(parser, *node);
-	(*node)->children[(*node)->children_len - 1] = child;
+	node_set_child(*node, (*node)->children_len - 1, child);
 }
 
 struct Node *body_last(struct Node *body) {
@@ -201,9 +214,10 @@ struct Node *new_TriOp(struct Parser *parser, enum Token op, struct Node *left,
 	node->children_len = 3;
 	node->value.type = op;
 	node->line = line;
-	node->children[0] = left;
-	node->children[1] = middle;
-	node->children[2] = right;
+	node->depth = 0;
+	node_set_child(node, 0, left);
+	node_set_child(node, 1, middle);
+	node_set_child(node, 2, right);
 
 	parser_register_node(parser, node);
 	return node;
@@ -216,6 +230,9 @@ struct Node *new_BinOp(struct Parser *parser, enum Token op, struct Node *left,
 	node->children_len = 0;
 	node->value.binop = ((struct BinOpNode) { op, left, right });
 	node->line = line;
+	node->depth = 0;
+	node_deepen(node, left);
+	node_deepen(node, right);
 
 	parser_register_node(parser, node);
 	return node;
@@ -228,6 +245,8 @@ struct Node *new_UnOp(struct Parser *parser, enum Token op, struct Node *child,
 	node->children_len = 0;
 	node->value.unop = ((struct UnOpNode) { op, child });
 	node->line = line;
+	node->depth = 0;
+	node_deepen(node, child);
 
 	parser_register_node(parser, node);
 	return node;
diff --git a/compiler/ast.h b/compiler/ast.h
index 4bc4124..2145e9b 100644
--- a/compiler/ast.h
+++ b/compiler/ast.h
@@ -65,6 +65,7 @@ struct Node {
 		struct BinOpNode binop;
 	} value;
 	size_t line;
+	size_t depth;
 	size_t children_len;
 	struct Node *children[];
 };
@@ -73,6 +74,7 @@ struct Parser;
 
 void body_append(struct Parser *parser, struct Node **node, struct Node *const child);
 struct Node *body_last(struct Node *node);
+void node_set_child(struct Node *node, size_t i, struct Node *child);
 
 struct Node *node_clone(const struct Node *const node);
 
diff --git a/compiler/parser.c b/compiler/parser.c
index a896997..a29abd4 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -95,6 +95,17 @@ void parser_unregister_node(struct Parser *parser, struct Node *node) {
 	}
 }
 
+// How deeply constructs can be nested in the source. Brackets and blocks take more stack than operators do.
+#define MAX_NESTING 20000
+#define NESTED_OPERATOR 1
+#define NESTED_BRACKET 20
+// How deep the tree for a statement can get. Long chains of left associative operators make deep trees without nesting.
+#define MAX_TREE_DEPTH 20000
+
+static void leave_nested(struct Parser *const parser, const size_t cost) {
+	parser->nesting -= cost;
+}
+
 int peof(const struct Parser *const parser) {
 	return parser->lex.type == T_EOF;
 }
@@ -137,6 +148,14 @@ static YASL_NORETURN void handle_error(struct Parser *const parser) {
 	longjmp(parser->env, 1);
 }
 
+static void enter_nested(struct Parser *const parser, const size_t cost) {
+	parser->nesting += cost;
+	if (parser->nesting > MAX_NESTING) {
+		parser_print_err_syntax(parser, "Constructs nested too deeply (line %" PRI_SIZET ").\n", parserline(parser));
+		handle_error(parser);
+	}
+}
+
 enum Token eattok(struct Parser *const parser, const enum Token token) {
 	if (curtok(parser) != token) {
 		if (curtok(parser) == T_UNKNOWN) {
@@ -176,6 +195,7 @@ bool matcheattok(struct Parser *const parser, const enum Token token) {
 }
 
 struct Node *parse(struct Parser *const parser) {
+	parser->nesting = 0;
 	if (setjmp(parser->env)) {
 		return NULL;
 	}
@@ -311,6 +331,7 @@ static struct Node *parse_program(struct Parser *const parser) {
 
 static struct Node *parse_body(struct Parser *const parser) {
 	size_t line = parserline(parser);
+	enter_nested(parser, NESTED_BRACKET);
 	eattok(parser, T_LBRC);
 	struct Node *body = new_Body(parser, line);
 	while (curtok(parser) != T_RBRC && curtok(parser) != T_EOF) {
@@ -318,6 +339,7 @@ static struct Node *parse_body(struct Parser *const parser) {
 		eattok(parser, T_SEMI);
 	}
 	eattok(parser, T_RBRC);
+	leave_nested(parser, NESTED_BRACKET);
 	return body;
 }
 
@@ -393,7 +415,7 @@ static struct Node *parse_fn(struct Parser *const parser) {
 
 	char *name2 = (char *)malloc(name_len + 1);
 	strcpy(name2, name);
-	let->children[0] = new_FnDecl(parser, block, body, name2, strlen(name2), line);
+	node_set_child(let, 0, new_FnDecl(parser, block, body, name2, strlen(name2), line));
 	return let;
 	// TODO Fix this ^
 }
@@ -415,7 +437,7 @@ static struct Node *parse_const_fn(struct Parser *const parser) {
 	// TODO: clean this up
 	char *name2 = (char *)malloc(name_len + 1);
 	strcpy(name2, name);
-	decl->children[0] = new_FnDecl(parser, block, body, name2, strlen(name2), line);
+	node_set_child(decl, 0, new_FnDecl(parser, block, body, name2, strlen(name2), line));
 	return decl;
 }
 
@@ -500,7 +522,7 @@ static struct Node *parse_let(struct Parser *const parser) {
 	char *name = eatname(parser);
 	struct Node *let = new_Let(parser, NULL, name, line);
 	eattok(parser, T_EQ);
-	let->children[0] = parse_expr(parser);
+	node_set_child(let, 0, parse_expr(parser));
 	return let;
 }
 
@@ -510,7 +532,7 @@ static struct Node *parse_iterate(struct Parser *const parser) {
 	char *name = eatname(parser);
 	struct Node *iter = new_LetIter(parser, NULL, name, line);
 	eattok(parser, T_LEFT_ARR);
-	iter->children[0] = parse_expr(parser);
+	node_set_child(iter, 0, parse_expr(parser));
 	return iter;
 }
 
@@ -725,12 +747,14 @@ static struct Node *parse_patternsingle(struct Parser *const parser) {
 
 static struct Node *parse_alt(struct Parser *const parser) {
 	size_t line = parserline(parser);
+        enter_nested(parser, NESTED_BRACKET);
         struct Node *cur_node = parse_patternsingle(parser);
         if (matcheattok(parser, T_BAR)) {
                 struct Node *tmp = new_BinOp(parser, T_BAR, cur_node, parse_alt(parser), line);
                 tmp->nodetype = N_PATALT;
-                return tmp;
+                cur_node = tmp;
         }
+        leave_nested(parser, NESTED_BRACKET);
         return cur_node;
 }
 
@@ -779,7 +803,10 @@ static struct Node *parse_if(struct Parser *const parser) {
 	}
 	if (curtok(parser) == T_ELSEIF) {
 		YASL_PARSE_DEBUG_LOG("%s\n", "elseif");
-		return new_If(parser, cond, new_Block(parser, then_block, line), parse_if(parser), line);
+		enter_nested(parser, NESTED_OPERATOR);
+		struct Node *if_node = new_If(parser, cond, new_Block(parser, then_block, line), parse_if(parser), line);
+		leave_nested(parser, NESTED_OPERATOR);
+		return if_node;
 	}
 	if (matcheattok(parser, T_ELSE)) {
 		size_t else_line = parserline(parser);
@@ -800,6 +827,10 @@ static struct Node *parse_assert(struct Parser *const parser) {
 static struct Node *parse_expr(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("%s\n", "parsing expression.");
 	struct Node *node = parse_ternary(parser);
+	if (node->depth > MAX_TREE_DEPTH) {
+		parser_print_err_syntax(parser, "Expression too long (line %" PRI_SIZET ").\n", parserline(parser));
+		handle_error(parser);
+	}
 	fold(node);
 	return node;
 }
@@ -848,12 +879,16 @@ static struct Node *parse_assign(struct Parser *const parser, struct Node *cur_n
 
 static struct Node *parse_ternary(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing ?: in line %" PRI_SIZET "\n", parserline(parser));
+	enter_nested(parser, NESTED_BRACKET);
 	struct Node *cur_node = parse_undef_or(parser);
+	leave_nested(parser, NESTED_BRACKET);
 	if (matcheattok(parser, T_QMARK)) {
+		enter_nested(parser, NESTED_OPERATOR);
 		struct Node *left = parse_ternary(parser);
 		eattok(parser, T_COLON);
 		struct Node *right = parse_ternary(parser);
-		return new_TriOp(parser, T_QMARK, cur_node, left, right, parserline(parser));
+		cur_node = new_TriOp(parser, T_QMARK, cur_node, left, right, parserline(parser));
+		leave_nested(parser, NESTED_OPERATOR);
 	}
 	return cur_node;
 }
@@ -866,7 +901,9 @@ static struct Node *parse_##name(struct Parser *const parser) {\
         struct Node *cur_node = parse_##next(parser);\
         if (TOKEN_MATCHES(parser, __VA_ARGS__)) {\
                 enum Token op = eattok(parser, curtok(parser));\
-                return new_BinOp(parser, op, cur_node, parse_##name(parser), line);\
+                enter_nested(parser, NESTED_OPERATOR);\
+                cur_node = new_BinOp(parser, op, cur_node, parse_##name(parser), line);\
+                leave_nested(parser, NESTED_OPERATOR);\
         }\
         return cur_node;\
 }
@@ -902,7 +939,10 @@ static struct Node *parse_unary(struct Parser *const parser) {
 	if (curtok(parser) == T_PLUS || curtok(parser) == T_MINUS || curtok(parser) == T_BANG ||
 	    curtok(parser) == T_CARET || curtok(parser) == T_LEN) {
 		enum Token op = eattok(parser, curtok(parser));
-		return new_UnOp(parser, op, parse_unary(parser), line);
+		enter_nested(parser, NESTED_OPERATOR);
+		struct Node *cur_node = new_UnOp(parser, op, parse_unary(parser), line);
+		leave_nested(parser, NESTED_OPERATOR);
+		return cur_node;
 	} else {
 		return parse_power(parser);
 	}
@@ -913,7 +953,9 @@ static struct Node *parse_power(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing ** in line %" PRI_SIZET "\n", parserline(parser));
 	struct Node *cur_node = parse_call(parser);
 	if (matcheattok(parser, T_DSTAR)) {
-		return new_BinOp(parser, T_DSTAR, cur_node, parse_unary(parser), line);
+		enter_nested(parser, NESTED_OPERATOR);
+		cur_node = new_BinOp(parser, T_DSTAR, cur_node, parse_unary(parser), line);
+		leave_nested(parser, NESTED_OPERATOR);
 	}
 	return cur_node;
 }
@@ -945,6 +987,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 			if (last && will_var_expand(last)) {
 				body->children[body->children_len - 1] = new_VariadicContext(parser, last, -1, last->line);
 			}
+			node_set_child(cur_node, 0, body);
 		} else if (matcheattok(parser, T_DOT)) {
 			struct Node *right = parse_constant(parser);
 			if (right->nodetype == N_VAR) {
@@ -985,6 +1028,7 @@ static struct Node *parse_call(struct Parser *const parser) {
 			if (last && will_var_expand(last)) {
 				body->children[body->children_len - 1] = new_VariadicContext(parser, last, -1, last->line);
 			}
+			node_set_child(cur_node, 0, body);
 		}
 	}
 	return cur_node;
@@ -1125,8 +1169,8 @@ static struct Node *parse_string(struct Parser *const parser) {
 	// interpolated strings
 	while (parser->lex.mode == L_INTERP) {
 		eattok(parser, T_STR);
-		eattok(parser, T_LBRC);
 		parser->lex.mode = L_NORMAL;
+		eattok(parser, T_LBRC);
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
diff --git a/compiler/parser.h b/compiler/parser.h
index fe8de9c..699627e 100644
--- a/compiler/parser.h
+++ b/compiler/parser.h
@@ -19,6 +19,7 @@
 	.status = YASL_SUCCESS,\
 	.head = NULL,\
 	.tail = NULL,\
+	.nesting = 0,\
 })
 
 struct Parser {
@@ -26,6 +27,7 @@ struct Parser {
 	int status;
 	struct Node *head;
 	struct Node *tail;
+	size_t nesting;
 	jmp_buf env;
 };
 
-- 
2.43.0


From df0f89c9117cd690e70efa402969c14185512ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 10/25] fix: a state can be given more source after success or
 failure, host calls run script functions, names and captures are owned by the
 state

---
 compiler/compiler.c |  37 ++++++++++-
 compiler/compiler.h |   1 +
 compiler/env.c      |  12 +++-
 compiler/env.h      |   2 +
 interpreter/VM.c    |  69 ++++++++++++++++----
 interpreter/VM.h    |   6 ++
 util/IO.c           |  11 ++++
 util/IO.h           |   3 +
 yasl.c              | 153 +++++++++++++++++++++++++++++---------------
 yasl_aux.c          |   6 +-
 10 files changed, 230 insertions(+), 70 deletions(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 8976d69..4e773bc 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -56,6 +56,37 @@ void compiler_cleanup(struct Compiler *const compiler) {
 	free(compiler->checkpoints.items);
 }
 
+// Gets the compiler ready for another source. Globals and constants stay.
+void compiler_reset(struct Compiler *const compiler, struct LEXINPUT *const lp) {
+	struct IO err = compiler->parser.lex.err;
+	lxclose(compiler->parser.lex.file);
+	compiler->parser.lex = NEW_LEXER(lp);
+	compiler->parser.lex.err = err;
+	compiler->parser.status = YASL_SUCCESS;
+	compiler->parser.nesting = 0;
+	node_del(compiler->parser.head);
+	compiler->parser.head = NULL;
+	compiler->parser.tail = NULL;
+
+	scope_del(compiler->stack);
+	compiler->stack = NULL;
+	env_del(compiler->params);
+	compiler->params = NULL;
+	compiler->expected_returns = 1;
+	compiler->leftmost_pattern = true;
+	compiler->stack_dirty = false;
+	compiler->at_base = false;
+	DEL_TABLE(&compiler->seen_bindings);
+	compiler->seen_bindings = NEW_TABLE();
+	compiler->buffer->count = 0;
+	compiler->code->count = 0;
+	compiler->lines->count = 0;
+	compiler->line = 0;
+	compiler->checkpoints.count = 0;
+	compiler->fn_checkpoints = 0;
+	compiler->status = YASL_SUCCESS;
+}
+
 static void handle_error(struct Compiler *const compiler) {
 	compiler->status = YASL_SYNTAX_ERROR;
 }
@@ -385,6 +416,7 @@ unsigned char *compile(struct Compiler *const compiler) {
 
 unsigned char *compile_REPL(struct Compiler *const compiler) {
 	struct Node *node;
+	const size_t num_globals = compiler->globals->vars.count;
 	gettok(&compiler->parser.lex);
 	while (!peof(&compiler->parser)) {
 		if (peof(&compiler->parser)) break;
@@ -401,7 +433,10 @@ unsigned char *compile_REPL(struct Compiler *const compiler) {
 		}
 	}
 
-	return return_bytes(compiler);
+	unsigned char *const bytecode = return_bytes(compiler);
+	// nothing in a rejected source was declared
+	if (!bytecode) scope_truncate(compiler->globals, num_globals);
+	return bytecode;
 }
 
 static void visit_ExprStmt(struct Compiler *const compiler, const struct Node *const node) {
diff --git a/compiler/compiler.h b/compiler/compiler.h
index d159ac5..b0f26f4 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -70,6 +70,7 @@ struct Compiler *compiler_new(FILE *const fp);
 struct Compiler *compiler_new_bb(const char *const buf, const size_t len);
 yasl_int compiler_intern_string(struct Compiler *const compiler, const char *const str, const size_t len);
 void compiler_cleanup(struct Compiler *const compiler);
+void compiler_reset(struct Compiler *const compiler, struct LEXINPUT *const lp);
 unsigned char *compile(struct Compiler *const compiler);
 unsigned char *compile_REPL(struct Compiler *const compiler);
 
diff --git a/compiler/env.c b/compiler/env.c
index 60d194b..de96d04 100644
--- a/compiler/env.c
+++ b/compiler/env.c
@@ -51,7 +51,6 @@ struct Scope *scope_new(struct Scope *const parent) {
 void scope_del(struct Scope *const scope) {
 	if (scope == NULL) return;
 	scope_del(scope->parent);
-	free(scope->parent);
 	scope_del_current_only(scope);
 }
 
@@ -214,6 +213,17 @@ int64_t scope_decl_var(struct Scope *const scope, const char *const name) {
 	return scope_len(scope);
 }
 
+void scope_truncate(struct Scope *const scope, const size_t count) {
+	for (size_t i = 0; i < scope->vars.size; i++) {
+		struct YASL_Table_Item *item = &scope->vars.items[i];
+		if (item->key.type == Y_END || item_isempty(item)) continue;
+		if ((size_t) get_index(item->value.value.ival) >= count) {
+			YASL_Table_rm(&scope->vars, item->key);
+			i = (size_t) -1;    // the table may have been resized, so start over
+		}
+	}
+}
+
 static struct YASL_Table *get_closest_scope_with_var(struct Scope *const scope, const char *const name, const size_t name_len) {
 	struct YASL_Object key = YASL_Table_search_string_int(&scope->vars, name, name_len);
 	return key.type != Y_END ? &scope->vars : get_closest_scope_with_var(scope->parent, name, name_len);
diff --git a/compiler/env.h b/compiler/env.h
index 50660c9..262c7a1 100644
--- a/compiler/env.h
+++ b/compiler/env.h
@@ -29,6 +29,8 @@ int64_t scope_get(const struct Scope *const scope, const char *const name);
 int64_t scope_decl_var(struct Scope *const scope, const char *const name);
 bool scope_used_in_closure(const struct Scope *const scope);
 void scope_make_const(struct Scope *const scope, const char *const name);
+// forgets every variable declared after the first `count` ones.
+void scope_truncate(struct Scope *const scope, const size_t count);
 void scope_mark_captured(struct Scope *scope, const char *const name);
 
 bool env_contains(const struct Env *env, const char *const name);
diff --git a/interpreter/VM.c b/interpreter/VM.c
index 99e4082..4a69e18 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -62,7 +62,11 @@ void vm_init(struct VM *const vm,
 	vm->globals = YASL_Table_new();
 	vm->pc = code + pc;
 	vm->fp = -1;
+	vm->next_fp = -1;
 	vm->sp = -1;
+	vm->status = YASL_SUCCESS;
+	vm->running = false;
+	vm->require_depth = 0;
 	vm->num_constants = 0;
 	vm->constants = NULL;
 	vm->stack = (struct YASL_Object *)calloc(sizeof(struct YASL_Object), STACK_SIZE);
@@ -78,16 +82,31 @@ void vm_init(struct VM *const vm,
 void vm_close_all(struct VM *const vm);
 static void vm_close_from(struct VM *const vm, const struct YASL_Object *const end);
 
-void vm_cleanup(struct VM *const vm) {
+void vm_unwind(struct VM *const vm, const int sp) {
 	// If we've exited early somehow, without closing over some upvalues, we need to do that first.
-	vm_close_from(vm, vm->stack);
+	vm_close_from(vm, vm->stack + sp + 1);
 
 	// Exit out of all loops (in case we're exiting with an error).
 	while (vm->loopframe_num >= 0) {
-		dec_ref(&vm->loopframes[vm->loopframe_num].iterable);
-		vm->loopframe_num--;
+		struct YASL_Object iterable = vm->loopframes[vm->loopframe_num--].iterable;
+		dec_ref(&iterable);
 	}
 
+	vm->frame_num = -1;
+	vm->fp = -1;
+	vm->next_fp = -1;
+	vm->sp = sp;
+
+	for (int i = sp + 1; i < STACK_SIZE; i++) {
+		struct YASL_Object old = vm->stack[i];
+		vm->stack[i] = YASL_END();
+		dec_ref(&old);
+	}
+}
+
+void vm_cleanup(struct VM *const vm) {
+	vm_unwind(vm, -1);
+
 	for (size_t i = 0; i < STACK_SIZE; i++) {
  		dec_ref(vm->stack + i);
 	}
@@ -139,11 +158,21 @@ static void vm_exitframe(struct VM *const vm);
 void vm_executenext(struct VM *const vm);
 
 static size_t vm_getcurrline(struct VM *vm) {
-	size_t start = ((int64_t *)vm->code)[0];
-	size_t line_start = ((int64_t *)vm->code)[1];
-	const unsigned char *tmp = vm->code + line_start;
+	// the function being executed may come from another source than the one being run.
+	const unsigned char *code = NULL;
+	for (size_t i = 0; i < vm->headers_size; i++) {
+		const unsigned char *const header = vm->headers[i];
+		if (header && header <= vm->pc && vm->pc <= header + ((int64_t *)header)[1]) {
+			code = header;
+			break;
+		}
+	}
+	if (!code) return 0;
+	size_t start = ((int64_t *)code)[0];
+	size_t line_start = ((int64_t *)code)[1];
+	const unsigned char *tmp = code + line_start;
 	long unsigned i = 0;
-	while (vint_decode(tmp) < vm->pc - vm->code - start) {
+	while (vint_decode(tmp) < vm->pc - code - start) {
 		tmp = vint_next(tmp);
 		i++;
 	}
@@ -160,7 +189,7 @@ static void printline(struct VM *vm) {
 	while (vm->fp >= 0) {
 		const bool iscomp = vm->frames[vm->frame_num].iscomp;
 		vm_exitframe(vm);
-		if (iscomp) continue;
+		if (iscomp || !vm->pc) continue;
 		size_t line = vm_getcurrline(vm);
 		vm_print_err_wrapper(vm, "In function call on line %" PRI_SIZET "\n", line);
 	}
@@ -1126,9 +1155,9 @@ static void vm_GSTORE_8(struct VM *const vm) {
 static void vm_GLOAD_8(struct VM *const vm) {
 	yasl_int addr = vm_read_int(vm);
 
-	vm_push(vm, YASL_Table_search(vm->globals, vm->constants[addr]));
-
-	YASL_ASSERT(vm_peek(vm).type != Y_END, "global not found");
+	struct YASL_Object val = YASL_Table_search(vm->globals, vm->constants[addr]);
+	// it may be used before its declaration has run.
+	vm_push(vm, val.type == Y_END ? YASL_UNDEF() : val);
 }
 
 static void vm_enterframe_offset(struct VM *const vm, int offset, int num_returns) {
@@ -1336,14 +1365,20 @@ static void vm_ECHO(struct VM *const vm) {
 }
 
 void vm_setupconstants(struct VM *const vm) {
+	// Constants from earlier sources come first, and are already set up.
+	const int64_t old_num_constants = vm->num_constants;
 	vm->num_constants = ((int64_t *)vm->code)[2];
-	vm->constants = (struct YASL_Object *)malloc(sizeof(struct YASL_Object) * vm->num_constants);
+	vm->constants = (struct YASL_Object *)realloc(vm->constants, sizeof(struct YASL_Object) * (vm->num_constants + 1));
 	unsigned char *tmp = vm->code + 3*sizeof(int64_t);
 	for (int64_t i = 0; i < vm->num_constants; i++) {
 		switch (*tmp++) {
 		case C_STR: {
 			int64_t len = *((int64_t *) tmp);
 			tmp += sizeof(int64_t);
+			if (i < old_num_constants) {
+				tmp += len;
+				break;
+			}
 			char *str = (char *) malloc((size_t) len);
 			memcpy(str, tmp, (size_t) len);
 			vm->constants[i] = YASL_STR(YASL_String_new_sized_heap(0, (size_t) len, str));
@@ -1353,7 +1388,8 @@ void vm_setupconstants(struct VM *const vm) {
 			;
 		}
 		case C_INT_1: {
-			vm->constants[i] = YASL_INT((signed char)*tmp++);
+			vm->constants[i] = YASL_INT((signed char)*tmp);
+			tmp++;
 			break;
 		}
 		case C_INT_8: {
@@ -1682,10 +1718,15 @@ void vm_executenext(struct VM *const vm) {
 }
 
 int vm_run(struct VM *const vm) {
+	const int sp = vm->sp;
 	if (setjmp(vm->buf)) {
+		vm->running = false;
+		// A module leaves what it exports on the stack.
+		if (vm->status != YASL_MODULE_SUCCESS) vm_unwind(vm, sp);
 		return vm->status;
 	}
 
+	vm->running = true;
 	vm_setupconstants(vm);
 
 	while (true) {
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 78c81ef..4cd3099 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -117,6 +117,8 @@ struct VM {
 	struct Upvalue *pending;
 	jmp_buf buf;
 	int status;
+	int require_depth;              // number of modules being loaded that led to this one
+	bool running;                   // whether there is somewhere to go when an error is thrown
 	uint8_t scratch[SCRATCH_SIZE];
 };
 
@@ -124,6 +126,9 @@ void vm_init(struct VM *const vm, unsigned char *const code, const size_t pc, co
 
 void vm_cleanup(struct VM *const vm);
 
+// Leaves everything that is still running, and everything on the stack above `sp`.
+void vm_unwind(struct VM *const vm, const int sp);
+
 void vvm_print_err(struct VM *vm, const char *const fmt, va_list args);
 void vm_print_err(struct VM *vm, const char *const fmt, ...);
 
@@ -135,6 +140,7 @@ void vm_EQ(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
+void vm_CALL_now(struct VM *const vm);
 
 struct YASL_Object vm_pop(struct VM *const vm);
 bool vm_popbool(struct VM *const vm);
diff --git a/util/IO.c b/util/IO.c
index 3c1285a..185f3e3 100644
--- a/util/IO.c
+++ b/util/IO.c
@@ -57,6 +57,17 @@ size_t io_str_strip_char(char *dest, const char *src, size_t n, char rem)
 	return ct;
 }
 
+void io_append(struct IO *const to, struct IO *const from) {
+	if (from->len == 0) return;
+	to->string = (char *)realloc(to->string, to->len + from->len + 1);
+	memcpy(to->string + to->len, from->string, from->len);
+	to->len += from->len;
+	to->string[to->len] = '\0';
+	io_cleanup(from);
+	from->string = NULL;
+	from->len = 0;
+}
+
 void io_cleanup(struct IO *const io) {
 	free(io->string);
 	//fclose(io->file);
diff --git a/util/IO.h b/util/IO.h
index e20ab44..556b504 100644
--- a/util/IO.h
+++ b/util/IO.h
@@ -19,6 +19,9 @@ struct IO {
 
 void io_cleanup(struct IO *const io);
 
+// moves what has been captured in `from` to the end of `to`.
+void io_append(struct IO *const to, struct IO *const from);
+
 void io_print_none(struct IO *const io, const char *const format, va_list args);
 void io_print_file(struct IO *const io, const char *const format, va_list);
 void io_print_string(struct IO *const io, const char *const format, va_list);
diff --git a/yasl.c b/yasl.c
index 0ce648c..71290ef 100644
--- a/yasl.c
+++ b/yasl.c
@@ -69,11 +69,21 @@ void YASL_loadprintout(struct YASL_State *S) {
 }
 
 void YASL_loadprinterr(struct YASL_State *S) {
-	if (S->compiler.status != YASL_SUCCESS) {
-		YASL_pushlstr(S, S->compiler.parser.lex.err.string, S->compiler.parser.lex.err.len);
-	} else {
-		YASL_pushlstr(S, S->vm.err.string, S->vm.err.len);
-	}
+	// Everything that was printed for earlier sources comes before what was printed while compiling this one.
+	const struct IO *const vm_err = &S->vm.err;
+	const struct IO *const lex_err = &S->compiler.parser.lex.err;
+	char *const buffer = (char *) malloc(vm_err->len + lex_err->len + 1);
+	if (vm_err->len) memcpy(buffer, vm_err->string, vm_err->len);
+	if (lex_err->len) memcpy(buffer + vm_err->len, lex_err->string, lex_err->len);
+	YASL_pushlstr(S, buffer, vm_err->len + lex_err->len);
+	free(buffer);
+}
+
+static void resetstate(struct YASL_State *S, struct LEXINPUT *lp) {
+	io_append(&S->vm.err, &S->compiler.parser.lex.err);
+	compiler_reset(&S->compiler, lp);
+	if (S->vm.status == YASL_MODULE_SUCCESS) vm_unwind(&S->vm, -1);
+	S->vm.status = YASL_SUCCESS;
 }
 
 int YASL_resetstate(struct YASL_State *S, const char *filename) {
@@ -84,13 +94,7 @@ int YASL_resetstate(struct YASL_State *S, const char *filename) {
 
 	fseek(fp, 0, SEEK_SET);
 
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
-	lex_cleanup(&S->compiler.parser.lex);
-
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_file(fp));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
+	resetstate(S, lexinput_new_file(fp));
 
 	return YASL_SUCCESS;
 }
@@ -109,14 +113,7 @@ struct YASL_State *YASL_newstate_bb(const char *buf, size_t len) {
 }
 
 int YASL_resetstate_bb(struct YASL_State *S, const char *buf, size_t len) {
-	S->compiler.status = YASL_SUCCESS;
-	S->compiler.parser.status = YASL_SUCCESS;
-	lex_cleanup(&S->compiler.parser.lex);
-	S->compiler.parser.lex = NEW_LEXER(lexinput_new_bb(buf, len));
-	S->compiler.code->count = 0;
-	S->compiler.buffer->count = 0;
-	if (S->vm.code)	free(S->vm.code);
-	S->vm.code = NULL;
+	resetstate(S, lexinput_new_bb(buf, len));
 
 	return YASL_SUCCESS;
 }
@@ -130,23 +127,35 @@ int YASL_delstate(struct YASL_State *S) {
 	return YASL_SUCCESS;
 }
 
-int YASL_execute_REPL(struct YASL_State *S) {
-	unsigned char *bc = compile_REPL(&S->compiler);
-	if (!bc) return S->compiler.status;
+static int execute(struct YASL_State *S, unsigned char *const bc) {
+	struct VM *const vm = &S->vm;
+	size_t num = (size_t) S->compiler.num;
+	if (vm->headers[num]) {
+		// Functions from earlier sources may still be around, so their code has to stay.
+		num = vm->headers_size++;
+		vm->headers = (unsigned char **) realloc(vm->headers, vm->headers_size * sizeof(unsigned char *));
+	}
 
-	int64_t entry_point = *((int64_t*)bc);
+	int64_t entry_point = *((int64_t *) bc);
 	// TODO: use this in VM.
 	// int64_t num_globals = *((int64_t*)bc+1);
 
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
+	vm->pc = bc + entry_point;
+	vm->code = bc;
+	vm->headers[num] = bc;
 
-	return vm_run((struct VM *)S);  // TODO: error handling for runtime errors.
+	return vm_run(vm);  // TODO: error handling for runtime errors.
+}
+
+int YASL_execute_REPL(struct YASL_State *S) {
+	unsigned char *bc = compile_REPL(&S->compiler);
+	if (!bc) return S->compiler.status;
+
+	return execute(S, bc);
 }
 
 int YASL_compile(struct YASL_State *S) {
-	compile(&S->compiler);
+	free(compile(&S->compiler));
 	return S->compiler.status;
 }
 
@@ -154,15 +163,7 @@ int YASL_execute(struct YASL_State *S) {
 	unsigned char *bc = compile(&S->compiler);
 	if (!bc) return S->compiler.status;
 
-	int64_t entry_point = *((int64_t *) bc);
-	// TODO: use this in VM.
-	// int64_t num_globals = *((int64_t*)bc+1);
-
-	S->vm.pc = bc + entry_point;
-	S->vm.code = bc;
-	S->vm.headers[S->compiler.num] = bc;
-
-	return vm_run((struct VM *) S);  // TODO: error handling for runtime errors.
+	return execute(S, bc);
 }
 
 int YASL_declglobal(struct YASL_State *S, const char *name) {
@@ -176,6 +177,12 @@ static inline int is_const(int64_t value) {
 	return (MASK & value) != 0;
 }
 
+// The name may not outlive the call, but what is stored under it does.
+static struct YASL_Object new_name(const char *const name) {
+	const size_t len = strlen(name);
+	return YASL_STR(YASL_String_new_sized_heap(0, len, copy_char_buffer(len, name)));
+}
+
 int YASL_setglobal(struct YASL_State *S, const char *name) {
 
 	if (!scope_contains(S->compiler.globals, name)) return YASL_ERROR;
@@ -183,8 +190,7 @@ int YASL_setglobal(struct YASL_State *S, const char *name) {
 	int64_t index = scope_get(S->compiler.globals, name);
 	if (is_const(index)) return YASL_ERROR;
 
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
-	YASL_Table_insert_fast(S->vm.globals, YASL_STR(string), vm_peek((struct VM *) S));
+	YASL_Table_insert_fast(S->vm.globals, new_name(name), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
 	return YASL_SUCCESS;
@@ -202,8 +208,7 @@ int YASL_loadglobal(struct YASL_State *S, const char *name) {
 }
 
 int YASL_registermt(struct YASL_State *S, const char *name) {
-	struct YASL_String *string = YASL_String_new_sized(strlen(name), name);
-	YASL_Table_insert_fast(S->vm.metatables, YASL_STR(string), vm_peek((struct VM *) S));
+	YASL_Table_insert_fast(S->vm.metatables, new_name(name), vm_peek((struct VM *) S));
 	YASL_pop(S);
 
 	return YASL_SUCCESS;
@@ -320,8 +325,8 @@ void YASL_pushzstr(struct YASL_State *S, const char *value) {
 }
 
 void YASL_pushlstr(struct YASL_State *S, const char *value, size_t len) {
-	char *buffer = (char *)malloc(len);
-	memcpy(buffer, value, len);
+	char *buffer = (char *)malloc(len + 1);
+	if (len) memcpy(buffer, value, len);
 	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, len, buffer));
 }
 
@@ -442,12 +447,25 @@ int YASL_listpush(struct YASL_State *S) {
 
 int YASL_functioncall(struct YASL_State *S, int n) {
 	struct VM *vm = &S->vm;
-	vm_INIT_CALL_offset(vm, vm->sp - n, -1);
+	const int fn = vm->sp - n;
+	const bool outermost = !vm->running;
+	if (outermost) {
+		if (setjmp(vm->buf)) {
+			vm->running = false;
+			vm_unwind(vm, fn - 1);
+			return -vm->status;
+		}
+		vm->running = true;
+		vm->pc = NULL;    // it's not called from any line
+	}
+
+	vm_INIT_CALL_offset(vm, fn, -1);
+	vm_CALL_now(vm);
 
-	const int old_sp = vm->sp;
-	vm_CALL(vm);
+	if (outermost) vm->running = false;
 
-	return old_sp - vm->sp - 1;
+	// the function and its arguments have been replaced by what it returned.
+	return vm->sp - fn + 1;
 }
 
 bool YASL_isundef(struct YASL_State *S) {
@@ -487,6 +505,14 @@ bool YASL_isnuserdata(struct YASL_State *S, const char *tag, unsigned n) {
 	       YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->tag == tag;
 }
 
+bool YASL_isuserptr(struct YASL_State *S) {
+	return vm_isuserptr(&S->vm);
+}
+
+bool YASL_isnuserptr(struct YASL_State *S, unsigned n) {
+	return vm_isuserptr(&S->vm, S->vm.fp + 1 + n);
+}
+
 bool YASL_isstr(struct YASL_State *S) {
 	return vm_isstr(&S->vm);
 }
@@ -534,6 +560,7 @@ bool YASL_popbool(struct YASL_State *S) {
 	if (YASL_isbool(S)) {
 		return vm_popbool(&S->vm);
 	}
+	YASL_pop(S);
 	return false;
 }
 
@@ -556,6 +583,7 @@ yasl_float YASL_popfloat(struct YASL_State *S) {
 	if (YASL_isfloat(S)) {
 		return vm_popfloat(&S->vm);
 	}
+	YASL_pop(S);
 	return 0.0;
 }
 
@@ -578,6 +606,7 @@ yasl_int YASL_popint(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		return vm_popint(&S->vm);
 	}
+	YASL_pop(S);
 	return 0;
 }
 
@@ -600,13 +629,35 @@ char *YASL_popcstr(struct YASL_State *S) {
 }
 
 void *YASL_peeknuserdata(struct YASL_State *S, unsigned n) {
-	return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
+	// lists and tables are kept in userdata as well.
+	if (YASL_isnlist(S, n) || YASL_isntable(S, n) || vm_isuserdata(&S->vm, S->vm.fp + 1 + n)) {
+		return YASL_GETUSERDATA(vm_peek(&S->vm, S->vm.fp + 1 + n))->data;
+	}
+	return NULL;
+}
+
+void *YASL_peekuserdata(struct YASL_State *S) {
+	if (YASL_islist(S) || YASL_istable(S) || vm_isuserdata(&S->vm)) {
+		return YASL_GETUSERDATA(vm_peek(&S->vm))->data;
+	}
+	return NULL;
 }
 
 void *YASL_popuserdata(struct YASL_State *S) {
-	return YASL_GETUSERDATA(vm_pop(&S->vm))->data;
+	void *data = YASL_peekuserdata(S);
+	YASL_pop(S);
+	return data;
+}
+
+void *YASL_peekuserptr(struct YASL_State *S) {
+	if (vm_isuserptr(&S->vm)) {
+		return vm_peekuserptr(&S->vm);
+	}
+	return NULL;
 }
 
 void *YASL_popuserptr(struct YASL_State *S) {
-	return YASL_GETUSERPTR(vm_pop(&S->vm));
+	void *ptr = YASL_peekuserptr(S);
+	YASL_pop(S);
+	return ptr;
 }
diff --git a/yasl_aux.c b/yasl_aux.c
index f5f8573..3380165 100644
--- a/yasl_aux.c
+++ b/yasl_aux.c
@@ -27,7 +27,7 @@ void YASLX_print_err_bad_arg_type(struct YASL_State *S,
 
 yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnint(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "int", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknint(S, n);
@@ -35,7 +35,7 @@ yasl_int YASLX_checknint(struct YASL_State *S, const char *name, unsigned n) {
 
 yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnfloat(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "float", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknfloat(S, n);
@@ -43,7 +43,7 @@ yasl_float YASLX_checknfloat(struct YASL_State *S, const char *name, unsigned n)
 
 bool YASLX_checknbool(struct YASL_State *S, const char *name, unsigned n) {
 	if (!YASL_isnbool(S, n)) {
-		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peektypename(S));
+		YASLX_print_err_bad_arg_type(S, name, n, "bool", YASL_peekntypename(S, n));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 	return YASL_peeknbool(S, n);
-- 
2.43.0


From 98d05ff63abf86f2bf8da8846dbc91b295e22ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 11/25] fix: required modules share output and constants, leave
 the caller's globals alone, and report failure as an error

---
 std/yasl-std-require.c | 130 +++++++++++++++++++++++++++--------------
 1 file changed, 86 insertions(+), 44 deletions(-)

diff --git a/std/yasl-std-require.c b/std/yasl-std-require.c
index 37f004a..17a7d61 100644
--- a/std/yasl-std-require.c
+++ b/std/yasl-std-require.c
@@ -5,6 +5,9 @@
 #include "yasl_plat.h"
 #include "yasl_aux.h"
 
+// how deeply modules requiring other modules can be nested
+#define MAX_REQUIRE_DEPTH 100
+
 #define LOAD_LIB_FUN_NAME "YASL_load_dyn_lib"
 
 struct YASL_State *YASL_newstate_num(const char *filename, size_t num);
@@ -34,77 +37,116 @@ static struct YASL_State *open_on_path(const char *path, const char *name, const
 	return YASL_newstate_num(name, num);
 }
 
-int YASL_require(struct YASL_State *S) {
-	if (!YASL_isstr(S)) {
-		// TODO error message
-		YASL_throw_err(S, YASL_TYPE_ERROR);
-	}
-
-	char *mode_str = YASL_peekcstr(S);
-	YASL_pop(S);
-
-	struct YASL_State *Ss = open_on_path(YASL_DEFAULT_PATH, mode_str, YASL_PATH_MARK, YASL_PATH_SEP, S->vm.headers_size);
-
-	if (!Ss) {
-		YASL_print_err(S, "could not open package %s.", mode_str);
-		YASL_throw_err(S, YASL_ERROR);
+// Adds whatever is in `from` but not in `to`, and gets rid of `from`.
+static void merge_into(struct YASL_Table *const to, struct YASL_Table *const from) {
+	FOR_TABLE_ALL(i, item, from) {
+		if (YASL_Table_search(to, item->key).type == Y_END) {
+			YASL_Table_insert_fast(to, item->key, item->value);
+		}
 	}
+	YASL_Table_del(from);
+}
 
+// The module uses the constants, globals and output of S while it runs.
+static void share_state(struct YASL_State *S, struct YASL_State *Ss) {
 	YASL_Table_del(Ss->compiler.strings);
 	Ss->compiler.strings = S->compiler.strings;
 	YASL_ByteBuffer_del(Ss->compiler.header);
 	Ss->compiler.header = S->compiler.header;
-	YASL_Table_del(Ss->vm.globals);
-	Ss->vm.globals = S->vm.globals;
-	// Ss->vm.constants = S->vm.constants;
 
 	// Load Standard Libraries
 	YASLX_decllibs(Ss);
 
-	YASL_Table_del(Ss->vm.metatables);
+	merge_into(S->vm.globals, Ss->vm.globals);
+	Ss->vm.globals = S->vm.globals;
+	merge_into(S->vm.metatables, Ss->vm.metatables);
 	Ss->vm.metatables = S->vm.metatables;
 
-	int status = YASL_execute(Ss);
-
-	if (status != YASL_MODULE_SUCCESS) {
-		puts("Not a valid module");
-		YASL_throw_err(S, YASL_ERROR);
+	Ss->vm.constants = S->vm.constants;
+	Ss->vm.num_constants = S->vm.num_constants;
+	Ss->vm.require_depth = S->vm.require_depth + 1;
+	Ss->vm.out = S->vm.out;
+	Ss->vm.err = S->vm.err;
+	Ss->compiler.parser.lex.err.print = S->vm.err.print;
+	for (size_t i = 0; i < S->vm.headers_size; i++) {
+		Ss->vm.headers[i] = S->vm.headers[i];
 	}
+}
 
-	inc_ref(&vm_peek(&Ss->vm));
-	struct YASL_Object exported = vm_pop(&Ss->vm);
-
-	vm_pushundef(&Ss->vm);
+static void unshare_state(struct YASL_State *S, struct YASL_State *Ss) {
+	Ss->compiler.strings = NULL;
+	Ss->compiler.header = YASL_ByteBuffer_new(1);
+	Ss->vm.globals = NULL;
+	Ss->vm.metatables = NULL;
 
-	size_t old_headers_size = S->vm.headers_size;
-	size_t new_headers_size = Ss->vm.headers_size;
+	S->vm.constants = Ss->vm.constants;
+	S->vm.num_constants = Ss->vm.num_constants;
+	Ss->vm.constants = NULL;
+	Ss->vm.num_constants = 0;
+	io_append(&Ss->vm.err, &Ss->compiler.parser.lex.err);
+	S->vm.out = Ss->vm.out;
+	S->vm.err = Ss->vm.err;
+	Ss->vm.out = NEW_IO(stdout);
+	Ss->vm.err = NEW_IO(stderr);
+
+	// Functions from the module may still be called, so its code has to stay.
+	const size_t old_headers_size = S->vm.headers_size;
+	const size_t new_headers_size = Ss->vm.headers_size;
 	S->vm.headers = (unsigned char **) realloc(S->vm.headers, new_headers_size * sizeof(unsigned char *));
 	for (size_t i = old_headers_size; i < new_headers_size; i++) {
 		S->vm.headers[i] = Ss->vm.headers[i];
+	}
+	for (size_t i = 0; i < new_headers_size; i++) {
 		Ss->vm.headers[i] = NULL;
 	}
+	S->vm.headers_size = new_headers_size;
+	Ss->vm.code = NULL;
+}
+
+int YASL_require(struct YASL_State *S) {
+	if (!YASL_isstr(S)) {
+		YASLX_print_err_bad_arg_type(S, "require", 0, YASL_STR_NAME, YASL_peektypename(S));
+		YASL_throw_err(S, YASL_TYPE_ERROR);
+	}
 
-	Ss->vm.globals = NULL;
-	Ss->vm.metatables = NULL;
+	if (S->vm.require_depth >= MAX_REQUIRE_DEPTH) {
+		YASL_print_err(S, "%s", "StackOverflow.");
+		YASL_throw_err(S, YASL_STACK_OVERFLOW_ERROR);
+	}
 
-	Ss->vm.code = NULL;
-	Ss->compiler.strings = NULL;
-	Ss->compiler.header = YASL_ByteBuffer_new(0);
-	for (int i = 0; i < S->vm.num_constants; i++) {
-		dec_ref(S->vm.constants + i);
+	char *mode_str = YASL_popcstr(S);
+
+	struct YASL_State *Ss = open_on_path(YASL_DEFAULT_PATH, mode_str, YASL_PATH_MARK, YASL_PATH_SEP, S->vm.headers_size);
+
+	if (!Ss) {
+		YASL_print_err(S, "could not open package %s.", mode_str);
+		free(mode_str);
+		YASL_throw_err(S, YASL_ERROR);
 	}
-	free(S->vm.constants);
-	S->vm.constants = Ss->vm.constants;
-	S->vm.num_constants = Ss->vm.num_constants;
-	Ss->vm.constants = NULL;
-	Ss->vm.num_constants = 0;
 
+	share_state(S, Ss);
+
+	int status = YASL_execute(Ss);
+
+	struct YASL_Object exported = YASL_UNDEF();
+	if (status == YASL_MODULE_SUCCESS) {
+		inc_ref(&vm_peek(&Ss->vm));
+		exported = vm_pop(&Ss->vm);
+	}
+
+	unshare_state(S, Ss);
 	YASL_delstate(Ss);
 
+	if (status != YASL_MODULE_SUCCESS) {
+		YASL_print_err(S, "%s is not a valid module.", mode_str);
+		free(mode_str);
+		YASL_throw_err(S, YASL_ERROR);
+	}
+	free(mode_str);
+
 	vm_push(&S->vm, exported);
 	dec_ref(&vm_peek(&S->vm));
 
-	free(mode_str);
 	return 1;
 }
 
@@ -149,8 +191,7 @@ int YASL_require_c(struct YASL_State *S) {
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
 
-	char *path = YASL_peekcstr(S);
-	YASL_pop(S);
+	char *path = YASL_popcstr(S);
 
 #if defined(YASL_USE_WIN)
 #ifndef _MSC_VER
@@ -173,6 +214,7 @@ int YASL_require_c(struct YASL_State *S) {
 	fun(S);
 #elif defined(YASL_USE_UNIX) || defined(YASL_USE_APPLE)
 	void *lib = search_on_path(YASL_DEFAULT_CPATH, path, YASL_PATH_MARK, YASL_PATH_SEP);
+	free(path);
 	if (!lib) {
 		vm_print_err_value((struct VM *) S, "%s\n", dlerror());
 		YASL_throw_err(S, YASL_VALUE_ERROR);
-- 
2.43.0


From 25406eb683fb915758bce31f13fd6ec959b6d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 12/25] fix: files can be closed once, read when they cannot be
 seeked, and written with any bytes

---
 std/yasl-std-io.c | 59 +++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/std/yasl-std-io.c b/std/yasl-std-io.c
index db37066..4506219 100644
--- a/std/yasl-std-io.c
+++ b/std/yasl-std-io.c
@@ -13,12 +13,24 @@
 
 static const char *const FILE_NAME = "io.file";
 
+static void close_file(void *ptr) {
+	if (ptr) fclose((FILE *)ptr);
+}
+
+static FILE *check_open(struct YASL_State *S, const char *name, FILE *f) {
+	if (!f) {
+		vm_print_err_value((struct VM *)S, "%s expected an open file.", name);
+		YASL_throw_err(S, YASL_VALUE_ERROR);
+	}
+	return f;
+}
+
 static FILE *YASLX_checkfile(struct YASL_State *S, const char *name, int pos) {
 	if (!YASL_isuserdata(S, FILE_NAME)) {
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_popuserdata(S);
+	return check_open(S, name, (FILE *)YASL_popuserdata(S));
 }
 
 static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned pos) {
@@ -26,11 +38,7 @@ static FILE *YASLX_checknfile(struct YASL_State *S, const char *name, unsigned p
 		YASLX_print_err_bad_arg_type(S, name, pos, FILE_NAME, YASL_peekntypename(S, pos));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	return (FILE *)YASL_peeknuserdata(S, pos);
-}
-
-static void close_file(void *ptr) {
-	fclose((FILE *)ptr);
+	return check_open(S, name, (FILE *)YASL_peeknuserdata(S, pos));
 }
 
 static int YASL_io_open(struct YASL_State *S) {
@@ -135,15 +143,21 @@ static int YASL_io_read(struct YASL_State *S) {
 
 	switch (mode_str[0]) {
 	case 'a': {
-		fseek(f, 0, SEEK_END);
-		size_t fsize = ftell(f);
-		fseek(f, 0, SEEK_SET);
-
-		char *string = (char *) malloc(fsize);
-		int result = fread(string, fsize, 1, f);
-		(void) result;
-		// TODO clean this up.
-		YASL_pushlstr(S, string, fsize);
+		// If this isn't possible, as for a pipe, then we read what is left.
+		(void) fseek(f, 0, SEEK_SET);
+
+		size_t size = 1024;
+		char *string = (char *) malloc(size);
+		size_t count = 0;
+		size_t result;
+		while ((result = fread(string + count, 1, size - count, f)) > 0) {
+			count += result;
+			if (count == size) {
+				size *= 2;
+				string = (char *) realloc(string, size);
+			}
+		}
+		YASL_pushlstr(S, string, count);
 		free(string);
 		return 1;
 	}
@@ -177,15 +191,11 @@ static int YASL_io_write(struct YASL_State *S) {
 		vm_print_err_bad_arg_type_name((struct VM *)S, FILE_PRE ".write", 1, YASL_STR_NAME, YASL_peektypename(S));
 		YASL_throw_err(S, YASL_TYPE_ERROR);
 	}
-	char *str = YASL_peekcstr(S);
-	YASL_pop(S);
+	struct YASL_String *str = vm_peekstr((struct VM *)S);
 
-	size_t len = strlen(str);
-
-	size_t write_len = fwrite(str, 1, len, f);
+	size_t write_len = fwrite(YASL_String_chars(str), 1, YASL_String_len(str), f);
 
 	YASL_pushint(S, write_len);
-	free(str);
 	return 1;
 }
 
@@ -238,9 +248,12 @@ static int YASL_io_seek(struct YASL_State *S) {
 }
 
 static int YASL_io_close(struct YASL_State *S) {
-	FILE *f = YASLX_checkfile(S, FILE_PRE ".close", 0);
+	FILE *f = YASLX_checknfile(S, FILE_PRE ".close", 0);
+
+	YASL_GETUSERDATA(vm_peek((struct VM *)S))->data = NULL;
 
-	int success = fclose(f);
+	// the standard streams are still used after this, even if scripts can't use them.
+	int success = f == stdin || f == stdout || f == stderr ? fflush(f) : fclose(f);
 	YASL_pushbool(S, success == 0);
 	return 1;
 }
-- 
2.43.0


From 9c6fdaab626750ed73379cb20581ee135e02b010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 13/25] fix: math functions at integer extremes, out of range
 floats to int, end of input in the REPL, -C declares args

---
 interpreter/float_methods.c |   3 +-
 main.c                      |  12 ++---
 std/yasl-std-math.c         | 100 ++++++++++++------------------------
 util/prime.c                |   3 +-
 4 files changed, 41 insertions(+), 77 deletions(-)

diff --git a/interpreter/float_methods.c b/interpreter/float_methods.c
index 873c2fe..a703b0a 100644
--- a/interpreter/float_methods.c
+++ b/interpreter/float_methods.c
@@ -5,10 +5,11 @@
 #include "yasl.h"
 #include "yasl_aux.h"
 #include "yasl_float.h"
+#include "util/yasl_int.h"
 
 int float_toint(struct YASL_State *S) {
 	yasl_float val = YASLX_checknfloat(S, "float.toint", 0);
-	YASL_pushint(S, (yasl_int)val);
+	YASL_pushint(S, yasl_int_from_float(val));
 	return 1;
 }
 
diff --git a/main.c b/main.c
index 0d900ca..0608fae 100644
--- a/main.c
+++ b/main.c
@@ -79,14 +79,9 @@ static int main_compile(int argc, char **argv) {
 	// Load Standard Libraries
 	YASLX_decllibs(S);
 
-	int status = YASL_compile(S);
 	YASL_declglobal(S, "args");
-	YASL_pushlist(S);
-	for (int i = 1; i < argc; i++) {
-		YASL_pushlit(S, argv[i]);
-		YASL_listpush(S);
-	}
-	YASL_setglobal(S, "args");
+
+	int status = YASL_compile(S);
 
 	YASL_delstate(S);
 
@@ -143,9 +138,10 @@ static int main_REPL(int argc, char **argv) {
 	puts(VERSION_PRINTOUT);
 	while (true) {
 		printf("yasl> ");
-		while ((next = getchar()) != '\n') {
+		while ((next = getchar()) != '\n' && next != EOF) {
 			YASL_ByteBuffer_add_byte(buffer, next);
 		}
+		if (next == EOF && buffer->count == 0) break;
 		YASL_ByteBuffer_add_byte(buffer, '\n');
 
 		YASL_resetstate_bb(S, (const char *)buffer->bytes, buffer->count);
diff --git a/std/yasl-std-math.c b/std/yasl-std-math.c
index d73bc76..8bd05f1 100644
--- a/std/yasl-std-math.c
+++ b/std/yasl-std-math.c
@@ -7,6 +7,7 @@
 #include <interpreter/VM.h>
 
 #include "util/prime.h"
+#include "util/yasl_int.h"
 #include "interpreter/YASL_Object.h"
 #include "yasl_conf.h"
 #include "yasl.h"
@@ -51,15 +52,13 @@ static yasl_float YASLX_checknum(struct YASL_State *S, const char *name, int pos
 static int YASL_math_abs(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		yasl_int i = YASL_popint(S);
-		if (i < 0) i = -i;
+		if (i < 0) i = yasl_int_neg(i);
 		YASL_pushint(S, i);
 		return 1;
 	}
 
 	if (YASL_isfloat(S)) {
-		yasl_float f = YASL_popfloat(S);
-		if (f < 0) f = -f;
-		YASL_pushfloat(S, f);
+		YASL_pushfloat(S, fabs(YASL_popfloat(S)));
 		return 1;
 	}
 
@@ -85,69 +84,38 @@ DEFINE_MATH_UN_FLOAT_FUN(atan);
 DEFINE_MATH_UN_FLOAT_FUN(ceil);
 DEFINE_MATH_UN_FLOAT_FUN(floor);
 
-static int YASL_math_max(struct YASL_State *S) {
-	struct YASL_Object max = YASL_FLOAT(-YASL_INF);
+static bool num_lt(const struct YASL_Object *const left, const struct YASL_Object *const right) {
+	if (obj_isint(left) && obj_isint(right)) return obj_getint(left) < obj_getint(right);
+	return obj_getnum(left) < obj_getnum(right);
+}
 
-	yasl_int num_va_args = YASL_peekvargscount(S);
-	if (num_va_args == 0) {
-		YASL_pushfloat(S, -YASL_INF);
-		return 1;
-	}
+// Leaves the largest (or smallest) of all arguments, or the left-most one of several such.
+static int math_extremum(struct YASL_State *S, const char *name, const bool want_max) {
+	struct YASL_Object best = YASL_FLOAT(want_max ? -YASL_INF : YASL_INF);
+	bool isnan = false;
 
+	yasl_int num_va_args = YASL_peekvargscount(S);
 	for (yasl_int i = 0; i < num_va_args; i++) {
-		if (vm_isint((struct VM *)S)) {
-			yasl_int top = vm_popint((struct VM *)S);
-			if ((top >= obj_getnum(&max))) {
-				max = YASL_INT(top);
-			}
-		} else if (vm_isfloat((struct VM *)S)) {
-			yasl_float top = vm_popfloat((struct VM *)S);
-			if (top != top) {
-				YASL_pushfloat(S, YASL_NAN);
-				return 1;
-			}
-			if ((top >= obj_getnum(&max))) {
-				max = YASL_FLOAT(top);
-			}
-		} else {
-			vm_print_err_bad_arg_type_name((struct VM*)S, "math.max", (int)(num_va_args - i - 1), YASL_FLOAT_NAME, YASL_peektypename(S));
+		if (!YASL_isnum(S)) {
+			vm_print_err_bad_arg_type_name((struct VM*)S, name, (int)(num_va_args - i - 1), YASL_FLOAT_NAME, YASL_peektypename(S));
 			YASL_throw_err(S, YASL_TYPE_ERROR);
 		}
+		struct YASL_Object top = vm_pop((struct VM *)S);
+		isnan = isnan || obj_getnum(&top) != obj_getnum(&top);
+		if (want_max ? !num_lt(&top, &best) : !num_lt(&best, &top)) {
+			best = top;
+		}
 	}
-	vm_push((struct VM *)S, max);
+	vm_push((struct VM *)S, isnan ? YASL_FLOAT(YASL_NAN) : best);
 	return 1;
 }
-static int YASL_math_min(struct YASL_State *S) {
-	struct YASL_Object max = YASL_FLOAT(YASL_INF);
 
-	yasl_int num_va_args = YASL_peekvargscount(S);
-	if (num_va_args == 0) {
-		YASL_pushfloat(S, YASL_INF);
-		return 1;
-	}
+static int YASL_math_max(struct YASL_State *S) {
+	return math_extremum(S, "math.max", true);
+}
 
-	for (yasl_int i = 0; i < num_va_args; i++) {
-		if (vm_isint((struct VM *)S)) {
-			yasl_int top = vm_popint((struct VM *)S);
-			if ((top <= obj_getnum(&max))) {
-				max = YASL_INT(top);
-			}
-		} else if (vm_isfloat((struct VM *)S)) {
-			yasl_float top = vm_popfloat((struct VM *)S);
-			if (top != top) {
-				YASL_pushfloat(S, YASL_NAN);
-				return 1;
-			}
-			if ((top <= obj_getnum(&max))) {
-				max = YASL_FLOAT(top);
-			}
-		} else {
-			vm_print_err_bad_arg_type_name((struct VM*)S,"math.min", (int)(num_va_args - i - 1), YASL_FLOAT_NAME, YASL_peektypename(S));
-			YASL_throw_err(S, YASL_TYPE_ERROR);
-		}
-	}
-	vm_push((struct VM *)S, max);
-	return 1;
+static int YASL_math_min(struct YASL_State *S) {
+	return math_extremum(S, "math.min", false);
 }
 
 static int YASL_math_deg(struct YASL_State *S) {
@@ -175,12 +143,10 @@ static int YASL_math_isprime(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		n = YASL_popint(S);
 	} else {
-		n = (yasl_int)YASL_popfloat(S);
+		n = yasl_int_from_float(YASL_popfloat(S));
 	}
 
-	int p = is_prime(n);
-	if (p < 0) YASL_pushundef(S);
-	else YASL_pushbool(S, (bool)p);
+	YASL_pushbool(S, n > 0 && is_prime(n));
 	return 1;
 }
 yasl_int gcd_helper(yasl_int a, yasl_int b) {
@@ -208,7 +174,7 @@ static int YASL_math_gcd(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		a = YASL_popint(S);
 	} else {
-		a = (yasl_int)YASL_popfloat(S);
+		a = yasl_int_from_float(YASL_popfloat(S));
 	}
 
 	if (!YASL_isnum(S)) {
@@ -220,7 +186,7 @@ static int YASL_math_gcd(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		b = YASL_popint(S);
 	} else {
-		b = (yasl_int)YASL_popfloat(S);
+		b = yasl_int_from_float(YASL_popfloat(S));
 	}
 
 	if (!(a > 0 && b > 0)) {
@@ -241,7 +207,7 @@ static int YASL_math_lcm(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		a = YASL_popint(S);
 	} else {
-		a = (yasl_int)YASL_popfloat(S);
+		a = yasl_int_from_float(YASL_popfloat(S));
 	}
 
 	if (!YASL_isnum(S)) {
@@ -253,21 +219,21 @@ static int YASL_math_lcm(struct YASL_State *S) {
 	if (YASL_isint(S)) {
 		b = YASL_popint(S);
 	} else {
-		b = (yasl_int)YASL_popfloat(S);
+		b = yasl_int_from_float(YASL_popfloat(S));
 	}
 
 	if (!(a > 0 && b > 0)) {
 		YASL_pushundef(S);
 	} else {
 		yasl_int gcd = gcd_helper(a, b);
-		YASL_pushint(S, b*a/gcd);
+		YASL_pushint(S, yasl_int_mul(a/gcd, b));
 	}
 	return 1;
 }
 
 static int YASL_math_rand(struct YASL_State *S) {
 	// rand() is only guarenteed to return a maximum of ~32000. Ensure all 64 bits are used
-	yasl_int r = (yasl_int) rand() ^((yasl_int) rand() << 16) ^((yasl_int) rand() << 32) ^((yasl_int) rand() << 48);
+	yasl_int r = (yasl_int) ((uint64_t) rand() ^((uint64_t) rand() << 16) ^((uint64_t) rand() << 32) ^((uint64_t) rand() << 48));
 	YASL_pushint(S, r);
 	return 1;
 }
diff --git a/util/prime.c b/util/prime.c
index cf2ea6e..4a8399c 100644
--- a/util/prime.c
+++ b/util/prime.c
@@ -12,7 +12,8 @@ bool is_prime(const size_t x) {
 	for (int64_t i = 0; i < (int64_t) (sizeof(PRIMES_UNDER_200) / sizeof(unsigned)); i++) {
 		if ((x % PRIMES_UNDER_200[i]) == 0) return (x == PRIMES_UNDER_200[i]);
 	}
-	for (int64_t i = 201; i <= floor(sqrt((double) x)); i += 2) {
+	const int64_t root = (int64_t) sqrt((double) x);
+	for (int64_t i = 201; i <= root; i += 2) {
 		if ((x % i) == 0) {
 			return false;
 		}
-- 
2.43.0


From 2abd631ced8810c154dd052c86c531b29eeb64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 14/25] fix: error traces list active calls only, a script
 __get is run for method calls

---
 interpreter/VM.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 4a69e18..5f18dbd 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -188,8 +188,10 @@ static void printline(struct VM *vm) {
 
 	while (vm->fp >= 0) {
 		const bool iscomp = vm->frames[vm->frame_num].iscomp;
+		// a call whose arguments were still being evaluated.
+		const bool ispending = vm->frames[vm->frame_num].prev_fp == vm->fp;
 		vm_exitframe(vm);
-		if (iscomp || !vm->pc) continue;
+		if (iscomp || ispending || !vm->pc) continue;
 		size_t line = vm_getcurrline(vm);
 		vm_print_err_wrapper(vm, "In function call on line %" PRI_SIZET "\n", line);
 	}
@@ -346,7 +348,7 @@ static void vm_call_now_2(struct VM *vm, struct YASL_Object a, struct YASL_Objec
 	vm_INIT_CALL(vm, 1);
 	vm_push(vm, a);
 	vm_push(vm, b);
-	vm_CALL(vm);
+	vm_CALL_now(vm);
 }
 
 #define vm_lookup_method_throwing(vm, method_name, err_str, ...) \
-- 
2.43.0


From 0a6e8b071f6e309d3f09b535b594bea949cae2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 15/25] fix: ternaries, member accesses and padded assignments
 are reported on their own line

---
 compiler/parser.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index a29abd4..0d77ab8 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -475,7 +475,7 @@ static struct Node *parse_var_pack(struct Parser *const parser, int expected) {
 	struct Node *last = body_last(rvals);
 	if (last && !will_var_expand(last)) {
 		while (j++ < expected) {
-			body_append(parser, &rvals, new_Undef(parser, parserline(parser)));
+			body_append(parser, &rvals, new_Undef(parser, rvals->line));
 		}
 	} else {
 		// the number of values wanted has to fit in a signed byte
@@ -879,6 +879,7 @@ static struct Node *parse_assign(struct Parser *const parser, struct Node *cur_n
 
 static struct Node *parse_ternary(struct Parser *const parser) {
 	YASL_PARSE_DEBUG_LOG("parsing ?: in line %" PRI_SIZET "\n", parserline(parser));
+	const size_t line = parserline(parser);
 	enter_nested(parser, NESTED_BRACKET);
 	struct Node *cur_node = parse_undef_or(parser);
 	leave_nested(parser, NESTED_BRACKET);
@@ -887,7 +888,7 @@ static struct Node *parse_ternary(struct Parser *const parser) {
 		struct Node *left = parse_ternary(parser);
 		eattok(parser, T_COLON);
 		struct Node *right = parse_ternary(parser);
-		cur_node = new_TriOp(parser, T_QMARK, cur_node, left, right, parserline(parser));
+		cur_node = new_TriOp(parser, T_QMARK, cur_node, left, right, line);
 		leave_nested(parser, NESTED_OPERATOR);
 	}
 	return cur_node;
@@ -989,10 +990,11 @@ static struct Node *parse_call(struct Parser *const parser) {
 			}
 			node_set_child(cur_node, 0, body);
 		} else if (matcheattok(parser, T_DOT)) {
+			const size_t line = parserline(parser);
 			struct Node *right = parse_constant(parser);
 			if (right->nodetype == N_VAR) {
 				right->nodetype = N_STR;
-				cur_node = new_Get(parser, cur_node, right, parserline(parser));
+				cur_node = new_Get(parser, cur_node, right, line);
 			} else {
 				parser_print_err_syntax(parser, "Invalid member access (line %" PRI_SIZET ").\n", parserline(parser));
 				handle_error(parser);
-- 
2.43.0


From 6fbc471b1043a31fed3d18e0a8226ad6d46103b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 16/25] fix: comparing collections and taking lengths run the
 script functions their elements are overloaded with

---
 interpreter/VM.c            | 24 +++++++++++++++++++++---
 interpreter/VM.h            |  1 +
 interpreter/list_methods.c  |  2 +-
 interpreter/table_methods.c |  2 +-
 yasl.c                      |  4 ++--
 5 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index 5f18dbd..c7f9353 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1315,14 +1315,32 @@ void vm_CALL(struct VM *const vm) {
 	}
 }
 
-void vm_CALL_now(struct VM *const vm) {
-	int fp = vm->fp;
-	vm_CALL(vm);
+// Runs whatever has been called since fp was the frame being executed.
+static void vm_finish_calls(struct VM *const vm, const int fp) {
 	while (fp < vm->fp) {
 		vm_executenext(vm);
 	}
 }
 
+// An operator may be overloaded by a function of the script. The plain version only starts that function.
+void vm_EQ_now(struct VM *const vm) {
+	const int fp = vm->fp;
+	vm_EQ(vm);
+	vm_finish_calls(vm, fp);
+}
+
+void vm_len_unop_now(struct VM *const vm) {
+	const int fp = vm->fp;
+	vm_len_unop(vm);
+	vm_finish_calls(vm, fp);
+}
+
+void vm_CALL_now(struct VM *const vm) {
+	int fp = vm->fp;
+	vm_CALL(vm);
+	vm_finish_calls(vm, fp);
+}
+
 static void vm_RET(struct VM *const vm) {
 	vm_close_all(vm);
 	unsigned char len = NCODE(vm);
diff --git a/interpreter/VM.h b/interpreter/VM.h
index 4cd3099..82b9100 100644
--- a/interpreter/VM.h
+++ b/interpreter/VM.h
@@ -137,6 +137,7 @@ YASL_NORETURN void vm_throw_err(struct VM *const vm, int error);
 void vm_get_metatable(struct VM *const vm);
 void vm_stringify_top(struct VM *const vm);
 void vm_EQ(struct VM *const vm);
+void vm_EQ_now(struct VM *const vm);
 
 void vm_INIT_CALL_offset(struct VM *const vm, int offset, int expected_returns);
 void vm_CALL(struct VM *const vm);
diff --git a/interpreter/list_methods.c b/interpreter/list_methods.c
index 1fc56b5..2bb0c78 100644
--- a/interpreter/list_methods.c
+++ b/interpreter/list_methods.c
@@ -198,7 +198,7 @@ int list___eq(struct YASL_State *S) {
 	for (size_t i = 0; i < left->count && i < right->count; i++) {
 		vm_push((struct VM *)S, left->items[i]);
 		vm_push((struct VM *)S, right->items[i]);
-		vm_EQ((struct VM *)S);
+		vm_EQ_now((struct VM *)S);
 		if (!YASL_popbool(S)) {
 			YASL_pushbool(S, false);
 			return 1;
diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index c948e09..06e3f5f 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -84,7 +84,7 @@ int table___eq(struct YASL_State *S) {
 		}
 		vm_push((struct VM *) S, item->value);
 		vm_push((struct VM *) S, search);
-		vm_EQ((struct VM *) S);
+		vm_EQ_now((struct VM *) S);
 		if (!YASL_popbool(S)) {
 			YASL_pushbool(S, false);
 			return 1;
diff --git a/yasl.c b/yasl.c
index 71290ef..d4e2a55 100644
--- a/yasl.c
+++ b/yasl.c
@@ -415,10 +415,10 @@ int YASL_tableset(struct YASL_State *S) {
 
 void list___get_helper(struct YASL_State *S, struct YASL_List *ls, yasl_int index);
 
-void vm_len_unop(struct VM *const vm);
+void vm_len_unop_now(struct VM *const vm);
 
 void YASL_len(struct YASL_State *S) {
-	vm_len_unop(&S->vm);
+	vm_len_unop_now(&S->vm);
 }
 
 int YASL_listget(struct YASL_State *S, yasl_int n) {
-- 
2.43.0


From 1126c21c1727a5fd58d82cd544ba1e9e54cdbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 17/25] fix: diagnostics for statements and patterns that start
 with an invalid token do not read outside the token names

---
 compiler/parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/compiler/parser.c b/compiler/parser.c
index 0d77ab8..1eabb1c 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -148,6 +148,13 @@ static YASL_NORETURN void handle_error(struct Parser *const parser) {
 	longjmp(parser->env, 1);
 }
 
+// Lexical errors have already been reported.
+static void skip_unknown(struct Parser *const parser) {
+	if (curtok(parser) == T_UNKNOWN) {
+		handle_error(parser);
+	}
+}
+
 static void enter_nested(struct Parser *const parser, const size_t cost) {
 	parser->nesting += cost;
 	if (parser->nesting > MAX_NESTING) {
@@ -458,6 +465,7 @@ static struct Node *parse_let_const_or_var(struct Parser *const parser) {
 			struct Node *set = new_Set(parser, Get_get_collection(node), Get_get_value(node), NULL, line);
 			return set;
 		} else {
+			skip_unknown(parser);
 			parser_print_err_syntax(parser, "Expected `let`, `const`, or id, got %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
@@ -608,6 +616,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 			n->value.dval *= -1;
 			return n;
 		} else {
+			skip_unknown(parser);
 			parser_print_err_syntax(parser, "Expected numeric pattern, got pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 			handle_error(parser);
 		}
@@ -654,6 +663,7 @@ static struct Node *parse_primitivepattern(struct Parser *const parser) {
 		return n;
 	}
 	default:
+		skip_unknown(parser);
 		parser_print_err_syntax(parser, "Invalid pattern starting in %s (line %" PRI_SIZET ").\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 		handle_error(parser);
 	}
@@ -792,6 +802,7 @@ static struct Node *parse_if(struct Parser *const parser) {
 	if (matcheattok(parser, T_IF)) ;
 	else if (matcheattok(parser, T_ELSEIF)) ;
 	else {
+		skip_unknown(parser);
 		parser_print_err_syntax(parser, "Expected `if` or `elseif`, got `%s` (line %" PRI_SIZET ")\n", YASL_TOKEN_NAMES[curtok(parser)], line);
 		handle_error(parser);
 	}
@@ -814,6 +825,7 @@ static struct Node *parse_if(struct Parser *const parser) {
 		struct Node *else_block = parse_body(parser);
 		return new_If(parser, cond, new_Block(parser, then_block, line), new_Block(parser, else_block, else_line), line);
 	}
+	skip_unknown(parser);
 	parser_print_err_syntax(parser, "Expected newline, got `%s`.\n", YASL_TOKEN_NAMES[curtok(parser)]);
 	handle_error(parser);
 }
-- 
2.43.0


From 957b5fe9ba802d8ea743eaa9474b42db9d49a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 18/25] fix: printing tables and sets whose elements'
 conversion changes them, sets made from lists with overloaded lengths

---
 interpreter/table_methods.c |  4 ++--
 std/yasl-std-collections.c  | 45 +++++++++++--------------------------
 2 files changed, 15 insertions(+), 34 deletions(-)

diff --git a/interpreter/table_methods.c b/interpreter/table_methods.c
index 06e3f5f..af3766b 100644
--- a/interpreter/table_methods.c
+++ b/interpreter/table_methods.c
@@ -140,6 +140,8 @@ int table_tostr_helper(struct YASL_State *S, const struct Ancestor *const parent
 	}
 
 	FOR_TABLE(i, item, table) {
+		// stringifying the key may run a function that changes the table.
+		vm_push((struct VM *) S, item->value);
 		vm_push((struct VM *) S, item->key);
 
 		vm_stringify_top(&S->vm);
@@ -148,8 +150,6 @@ int table_tostr_helper(struct YASL_State *S, const struct Ancestor *const parent
 		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
 		YASL_ByteBuffer_extend(bb, (unsigned char *)": ", strlen(": "));
 
-		vm_push((struct VM *) S, item->value);
-
 		if (vm_islist((struct VM *) S)) {
 			bool found = ancestors_contain(&self, vm_peeklist((struct VM *) S));
 			if (found) {
diff --git a/std/yasl-std-collections.c b/std/yasl-std-collections.c
index 3b4a8d6..4c08d27 100644
--- a/std/yasl-std-collections.c
+++ b/std/yasl-std-collections.c
@@ -1,6 +1,7 @@
 #include "yasl-std-collections.h"
 
 #include "data-structures/YASL_Set.h"
+#include "interpreter/table_methods.h"
 #include "yasl_state.h"
 #include "yasl_aux.h"
 
@@ -16,12 +17,9 @@ static struct YASL_Set *YASLX_checknset(struct YASL_State *S, const char *name,
 static int YASL_collections_set_fromlist(struct YASL_State *S) {
 	struct YASL_Set *set = YASL_Set_new();
 
-	YASL_duptop(S);
-	YASL_len(S);
-	yasl_int len = YASL_popint(S);
-
-	for (yasl_int i = 0; i < len; i++) {
-		YASL_listget(S, i);
+	struct YASL_List *list = vm_peeklist((struct VM *)S);
+	FOR_LIST(i, elmt, list) {
+		vm_push((struct VM *)S, elmt);
 		if (!YASL_Set_insert(set, vm_peek((struct VM *) S))) {
 			YASL_Set_del(set);
 			vm_print_err_type(&S->vm, "unable to use mutable object of type %s as key.",
@@ -101,41 +99,24 @@ static int YASL_collections_table_new(struct YASL_State *S) {
 static int YASL_collections_set_tostr(struct YASL_State *S) {
 	struct YASL_Set *set = YASLX_checknset(S, SET_PRE ".tostr", 0);
 
-	size_t string_count = 0;
-	size_t string_size = 8;
-	char *string = (char *)malloc(string_size);
-	string_count += strlen("set(");
-	memcpy(string, "set(", strlen("set("));
+	struct YASL_ByteBuffer *bb = bb_push((struct VM *)S);
+	YASL_ByteBuffer_extend(bb, (unsigned char *)"set(", strlen("set("));
 	if (YASL_Set_length(set) == 0) {
-		string[string_count++] = ')';
-		YASL_pushlstr(S, string, string_count);
-		free(string);
+		YASL_ByteBuffer_add_byte(bb, ')');
+		bb_finish((struct VM *)S);
 		return 1;
 	}
 	FOR_SET(i, item, set) {
 		vm_push((struct VM *)S, *item);
 		vm_stringify_top((struct VM *) S);
 		struct YASL_String *str = vm_popstr((struct VM *) S);
-		while (string_count + YASL_String_len(str) >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		memcpy(string + string_count, str->str + str->start, YASL_String_len(str));
-		string_count += YASL_String_len(str);
-
-		if (string_count + 2 >= string_size) {
-			string_size *= 2;
-			string = (char *) realloc(string, string_size);
-		}
-
-		string[string_count++] = ',';
-		string[string_count++] = ' ';
+		YASL_ByteBuffer_extend(bb, (unsigned char *)YASL_String_chars(str), YASL_String_len(str));
+		YASL_ByteBuffer_extend(bb, (unsigned char *)", ", strlen(", "));
 	}
 
-	string_count -= 2;
-	string[string_count++] = ')';
-	vm_pushstr((struct VM *)S, YASL_String_new_sized_heap(0, string_count, string));
+	bb->count -= 2;
+	YASL_ByteBuffer_add_byte(bb, ')');
+	bb_finish((struct VM *)S);
 	return 1;
 }
 
-- 
2.43.0


From a1dfed80f2c7ee625e7ea1d641588216f54893fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 19/25] fix: int powers are exact up to the largest int

---
 util/yasl_int.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/util/yasl_int.h b/util/yasl_int.h
index 8c87b50..5e422cb 100644
--- a/util/yasl_int.h
+++ b/util/yasl_int.h
@@ -48,9 +48,17 @@ static inline yasl_int yasl_int_from_float(const yasl_float val) {
 	return val >= -9223372036854775808.0 && val < 9223372036854775808.0 ? (yasl_int) val : INT64_MIN;
 }
 
-// right must not be negative.
-static inline yasl_int yasl_int_pow(const yasl_int left, const yasl_int right) {
-	return yasl_int_from_float(pow((yasl_float) left, (yasl_float) right));
+// right must not be negative. Anything that doesn't fit in an int gives the smallest int.
+static inline yasl_int yasl_int_pow(yasl_int left, yasl_int right) {
+	if (right == 1) return left;
+	// floats are not exact, but good enough to tell whether the result fits.
+	if (yasl_int_from_float(pow((yasl_float) left, (yasl_float) right)) == INT64_MIN) return INT64_MIN;
+	yasl_int result = 1;
+	for (; right > 0; right >>= 1) {
+		if (right & 1) result = yasl_int_mul(result, left);
+		left = yasl_int_mul(left, left);
+	}
+	return result;
 }
 
 #endif
-- 
2.43.0


From 1dc3a6dec23d15661b2dbfd500f37af2f81f9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 20/25] fix: an interpolation holds one expression

Anything whose last character was followed by the closing brace was accepted
and dropped, so "#{a b}" was read as "#{a}b}".
---
 compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/parser.c b/compiler/parser.c
index 1eabb1c..155adaf 100644
--- a/compiler/parser.c
+++ b/compiler/parser.c
@@ -1188,7 +1188,7 @@ static struct Node *parse_string(struct Parser *const parser) {
 		struct Node *expr = parse_expr(parser);
 		parser->lex.mode = L_INTERP;
 		cur_node = new_BinOp(parser, T_TILDE, cur_node, expr, parserline(parser));
-		if (parser->lex.c == '}') {
+		if (TOKEN_MATCHES(parser, T_RBRC)) {
 			parser->lex.c = lxgetc(parser->lex.file);
 		} else {
 			parser_print_err_syntax(parser, "Expected } in line %" PRI_SIZET ".\n", parserline(parser));
-- 
2.43.0


From bd947d91c524e4f59ea26e7c086fe2025b068ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 21/25] fix: the alternatives of a pattern bind the same names

A name bound before an alternative counted as bound by its left side, so
[let a, 1 | let a] was accepted.
---
 compiler/compiler.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 4e773bc..f7067b2 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -1059,6 +1059,16 @@ static void visit_AltPattern(struct Compiler *const compiler, const struct Node
 		}
 		YASL_Table_insert(&prev, item->key, YASL_INT(1));
 	}
+
+	// A binding from before the alternatives doesn't count as bound by the left one.
+	FOR_TABLE(j, binding, &compiler->seen_bindings) {
+		struct YASL_Object val = YASL_Table_search(&old, binding->key);
+		if (val.type == Y_END) {
+			compiler_print_err_syntax(compiler, "%.*s not bound on left side of | (line %" PRI_SIZET ").\n", (int)YASL_String_len(binding->key.value.sval), YASL_String_chars(binding->key.value.sval), node->line);
+			handle_error(compiler);
+			goto cleanup;
+		}
+	}
 	
 cleanup:
 	DEL_TABLE(&old);
-- 
2.43.0


From 58f23e1c75c0be3d0a1405ca55cd590590474d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 22/25] fix: an absent key in a table pattern skips that
 entry's value pattern too

---
 interpreter/VM.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index c7f9353..d9528ce 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1005,7 +1005,12 @@ static bool vm_MATCH_table_elements(struct VM *const vm, size_t len, struct YASL
 		default:
 			break;
 		}
-		if (val.type == Y_END || !(vm_MATCH_subpattern(vm, &val))) {
+		if (val.type == Y_END) {
+			// the value's pattern has not been read yet.
+			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)) + 1);
+			return false;
+		}
+		if (!vm_MATCH_subpattern(vm, &val)) {
 			vm_ff_subpatterns_multiple(vm, 2 * (len - (i + 1)));
 			return false;
 		}
-- 
2.43.0


From 54cd9d165f1afe95d6d3e8c0a0fdbab5d967c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 23/25] fix: variadic host functions get undef for missing
 fixed parameters

---
 interpreter/VM.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interpreter/VM.c b/interpreter/VM.c
index d9528ce..cbc2f35 100644
--- a/interpreter/VM.c
+++ b/interpreter/VM.c
@@ -1297,6 +1297,9 @@ static void vm_CALL_cfn(struct VM *const vm) {
 	vm->frames[vm->frame_num].pc = vm->pc;
 	struct CFunction *f = vm_peekcfn(vm, vm->fp);
 	if (f->num_args < 0) {
+		while (vm->sp - vm->fp < ~f->num_args) {
+			vm_pushundef(vm);
+		}
 		yasl_int diff = vm->sp - vm->fp - ~f->num_args;
 		YASL_VM_DEBUG_LOG("diff: %d\n", (int)diff);
 		vm_insert(vm, vm->fp + 1 + ~f->num_args, YASL_INT(diff));
-- 
2.43.0


From 38e9e678fb8919b75339f9e08ecfb7ea8cd117c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 24/25] fix: a match in a block of an interactive source leaves
 nothing on the stack

---
 compiler/compiler.c | 5 ++++-
 compiler/compiler.h | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index f7067b2..1427167 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -74,6 +74,7 @@ void compiler_reset(struct Compiler *const compiler, struct LEXINPUT *const lp)
 	compiler->params = NULL;
 	compiler->expected_returns = 1;
 	compiler->leftmost_pattern = true;
+	compiler->program = NULL;
 	compiler->stack_dirty = false;
 	compiler->at_base = false;
 	DEL_TABLE(&compiler->seen_bindings);
@@ -389,6 +390,7 @@ unsigned char *compile(struct Compiler *const compiler) {
 	struct Node *node;
 	gettok(&compiler->parser.lex);
 	enter_scope(compiler);
+	compiler->program = compiler->stack;
 	while (!peof(&compiler->parser)) {
 		if (peof(&compiler->parser)) break;
 		node = parse(&compiler->parser);
@@ -410,6 +412,7 @@ unsigned char *compile(struct Compiler *const compiler) {
 		compiler->buffer->count = 0;
 	}
 	exit_scope(compiler);
+	compiler->program = NULL;
 
 	return return_bytes(compiler);
 }
@@ -1212,7 +1215,7 @@ static void visit_Match(struct Compiler *const compiler, const struct Node *cons
 	}
 
 	// If none of the patterns matched, the expression is still on the stack.
-	if (!in_function(compiler) && compiler->stack && !compiler->stack->parent) {
+	if (!in_function(compiler) && compiler->stack && compiler->stack == compiler->program) {
 		compiler->stack_dirty = true;
 	} else {
 		reset_stack(compiler);
diff --git a/compiler/compiler.h b/compiler/compiler.h
index b0f26f4..6e1bc3a 100644
--- a/compiler/compiler.h
+++ b/compiler/compiler.h
@@ -23,6 +23,7 @@
 	.params = NULL,\
 	.expected_returns = 1,\
 	.leftmost_pattern = true,\
+	.program = NULL,\
 	.stack_dirty = false,\
 	.at_base = false,\
 	.seen_bindings = NEW_TABLE(),\
@@ -51,6 +52,7 @@ struct Compiler {
 	struct Env *params;
 	int expected_returns;
 	bool leftmost_pattern;
+	struct Scope *program;             // scope of a program's top level, NULL when interactive
 	bool stack_dirty;                  // there may be something left on the stack above the locals
 	bool at_base;                      // whether the next expression starts right above the locals on the stack
 	struct YASL_Table seen_bindings;
-- 
2.43.0


From 36ecf510ac25bdd88bc4f6b2f68bb3078be7c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 25/25] fix: an export in a block of an interactive source is
 rejected like in a program

---
 compiler/compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.c b/compiler/compiler.c
index 1427167..51e560b 100644
--- a/compiler/compiler.c
+++ b/compiler/compiler.c
@@ -606,7 +606,7 @@ static void visit_MultiReturn(struct Compiler *const compiler, const struct Node
 }
 
 static void visit_Export(struct Compiler *const compiler, const struct Node *const node) {
-	if (in_function(compiler) || compiler->stack && compiler->stack->parent) {
+	if (in_function(compiler) || compiler->stack != compiler->program) {
 		compiler_print_err_syntax(compiler, "`export` statement must be at top level of module (line %" PRI_SIZET ").\n", node->line);
 		handle_error(compiler);
 		return;
-- 
2.43.0

