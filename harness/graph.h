/* Takes all the transitions of a state graph computed by TLC on the real code.
 * Input: "ns" states, each "parent nop op... nq q...", then "ne" edges, each
 * "from nop op... result to". For each edge the shortest path to its origin is
 * executed from the start, then its operation: the result and the observation,
 * a list of integers, have to be those of the specification. */
#ifndef VF_GRAPH_H
#define VF_GRAPH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define G_OBS 4096
void g_begin(void); /* new instance */
int g_apply(const int* op, int nop); /* executes an operation, and returns the result */
int g_observe(int* out); /* complete observation */
const char* g_end(unsigned n); /* deinitializes; 0 if all right */
const char* g_check(void); /* other checks in any state; 0 if all right */
typedef struct { int parent, nop, nq; int* op; int* q; } g_state;
static g_state* g_s;
static int* g_rd(int n)
{
	int i;
	int* v = (int*)malloc((n ? n : 1) * sizeof(int));
	for (i = 0; i < n; ++i) if (scanf("%d", &v[i]) != 1) exit(2);
	return v;
}
static void g_put(const char* t, const int* v, int n) { int i; printf("%s", t); for (i = 0; i < n; ++i) printf(" %d", v[i]); }
static void g_fail(const char* what, int* path, int np, const int* op, int nop, int res, int r, const int* exp, int nexp, const int* got, int ngot)
{
	int i;
	printf("MISMATCH %s: after", what);
	for (i = 0; i < np; ++i) g_put(" (", g_s[path[i]].op, g_s[path[i]].nop), printf(" )");
	g_put(" then (", op, nop);
	printf(" ) result %d expected %d", r, res);
	g_put("; expected observation", exp, nexp);
	g_put("; observed", got, ngot);
	printf("\n");
	fflush(stdout);
	exit(1);
}
static int g_main(void)
{
	int ns, ne, i, j;
	static int got[G_OBS];
	static int path[65536];
	if (scanf("%d", &ns) != 1) return 2;
	g_s = (g_state*)calloc(ns, sizeof(g_state));
	for (i = 0; i < ns; ++i) {
		if (scanf("%d %d", &g_s[i].parent, &g_s[i].nop) != 2) return 2;
		g_s[i].op = g_rd(g_s[i].nop);
		if (scanf("%d", &g_s[i].nq) != 1) return 2;
		g_s[i].q = g_rd(g_s[i].nq);
	}
	if (scanf("%d", &ne) != 1) return 2;
	for (i = 0; i < ne; ++i) {
		int from, nop, res, to, r, n, np = 0, s;
		int* op;
		const char* e;
		if (scanf("%d %d", &from, &nop) != 2) return 2;
		op = g_rd(nop);
		if (scanf("%d %d", &res, &to) != 2) return 2;
		for (s = from; g_s[s].parent >= 0; s = g_s[s].parent) path[np++] = s;
		for (j = 0; j < np / 2; ++j) { int t = path[j]; path[j] = path[np - 1 - j]; path[np - 1 - j] = t; }
		g_begin();
		for (j = 0; j < np; ++j) g_apply(g_s[path[j]].op, g_s[path[j]].nop);
		r = g_apply(op, nop);
		n = g_observe(got);
		if (res != -1 && r != res) g_fail("result", path, np, op, nop, res, r, g_s[to].q, g_s[to].nq, got, n);
		if (n != g_s[to].nq || memcmp(got, g_s[to].q, n * sizeof(int)) != 0) g_fail("observation", path, np, op, nop, res, r, g_s[to].q, g_s[to].nq, got, n);
		if ((e = g_check()) != 0) g_fail(e, path, np, op, nop, res, r, g_s[to].q, g_s[to].nq, got, n);
		if ((e = g_end(i)) != 0) g_fail(e, path, np, op, nop, res, r, g_s[to].q, g_s[to].nq, got, n);
		free(op);
	}
	printf("DONE %d\n", ne);
	return 0;
}
#endif
