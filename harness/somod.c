/* A shared-library module for C26; V says what loading it does. */
#include "yasl.h"
#include "yasl_aux.h"
#include "yasl_error.h"

long somod_count;
#define count somod_count        /* not static: a library must not see the variables of another one */

static int add(struct YASL_State *S) {
	yasl_int a = YASLX_checknint(S, "so.add", 0), b = YASLX_checknint(S, "so.add", 1);
	YASL_pushint(S, a + b);
	return 1;
}

static int next(struct YASL_State *S) {
	YASL_pushint(S, ++count);
	return 1;
}

static int va(struct YASL_State *S) {
	yasl_int n = YASL_peekvargscount(S);
	YASL_pushint(S, n);
	return 1;
}

static int three(struct YASL_State *S) {
	YASL_pushint(S, 1);
	YASL_pushlit(S, "two");
	YASL_pushint(S, ++count);
	return 3;
}

static void put(struct YASL_State *S, const char *name, YASL_cfn f, int n) {
	YASL_pushlit(S, name);
	YASL_pushcfunction(S, f, n);
	YASL_tableset(S);
}

#ifndef NOSYM
int YASL_load_dyn_lib(struct YASL_State *S) {
	count += 10;
	switch (V) {
	case 0:
		YASL_pushtable(S);
		put(S, "add", add, 2);
		put(S, "next", next, 0);
		put(S, "va", va, -1);
		put(S, "three", three, 0);
		YASL_pushlit(S, "name");
		YASL_pushlit(S, "so");
		YASL_tableset(S);
		return 1;
	case 1:
		YASL_pushint(S, 42);
		return 1;
	case 2:
		YASL_pushlit(S, "text of a library");
		return 1;
	case 3:
		YASL_pushlist(S);
		YASL_pushint(S, 1);
		YASL_listpush(S);
		YASL_pushlit(S, "x");
		YASL_listpush(S);
		return 1;
	case 4:
		YASL_pushcfunction(S, add, 2);
		return 1;
	case 5:
		YASL_print_err(S, "%s", "ValueError: not today.");
		YASL_throw_err(S, YASL_VALUE_ERROR);
	case 6:
		YASL_pushundef(S);
		return 1;
	case 7:
		YASL_pushlit(S, "below");
		YASL_pushint(S, count);
		return 1;
	}
	return 0;
}
#endif
