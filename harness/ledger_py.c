/* C27, bindings: allocations and files of the extension modules (linked with --wrap), told to Python through ctypes. */
#include <stdio.h>
#include <stdlib.h>
static int on, nid, ntab, nev; static struct { void *p; int id; } tab[60000]; static int ev[120000];
static void tell(int k, int id) { if (nev < 119998) { ev[nev++] = k; ev[nev++] = id; } }
static void took(int k, void *p) { if (on && p && ntab < 60000) { tab[ntab].p = p; tab[ntab++].id = ++nid; tell(k, nid); } }
static void gave(int k, void *p) { int i; if (!p) return;
    for (i = ntab - 1; i >= 0; i--) if (tab[i].p == p) { if (on) tell(k, tab[i].id); tab[i] = tab[--ntab]; return; }
    if (on) tell(k, 0); }
void *__wrap_malloc(size_t n) { void *p = malloc(n); took(1, p); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = calloc(n, m); took(1, p); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p; gave(2, o); p = realloc(o, n); took(1, p); return p; }
void __wrap_free(void *p) { gave(2, p); free(p); }
FILE *__wrap_fopen(const char *n, const char *m) { FILE *f = fopen(n, m); took(3, f); return f; }
int __wrap_fclose(FILE *f) { gave(4, f); return fclose(f); }
void ledger_on(int x) { on = x; }
void ledger_reset(void) { ntab = nid = nev = 0; }
int *ledger_events(int *n) { *n = nev; nev = 0; return ev; }
