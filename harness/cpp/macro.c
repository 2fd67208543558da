/* C03: macro replacement, against an expander of our own (Prosser's algorithm). The text is a template in which
   every ? is an arbitrary byte of the alphabet; texts that C leaves undefined are left out. */
#include "cpph.h"
enum { NAME = 1, NUM, PUN, STR, NLT, PASTE };
#define TL 48
typedef struct { uint8_t t[TL]; int n, k, ws; unsigned hs, hu; } tok;   /* hs: macros that must not be replaced here again, hu: may not (unspecified) */
#define MAXT 220
typedef struct { tok a[MAXT]; int n; } list;
typedef struct { tok name; int fn, np, on; tok par[6], body[24]; int nb; } mac;
static mac M[10]; static int nm;
static int posting;
static void undefd(void) { if (posting) { qs_fail("the output is no sequence of tokens"); qs_stop(); } qs_assume(0); }
static int eqt(const tok* a, const tok* b) { if (a->n != b->n) return 0; for (int i = 0; i < a->n; i++) if (a->t[i] != b->t[i]) return 0; return 1; }
static int isl(int c) { return (c >= 'a' && c <= 'z') || c == 'L' || c == '_'; }
static int isd(int c) { return c >= '0' && c <= '9'; }
static int pun(const tok* t, int c) { return t->k == PUN && t->n == 1 && t->t[0] == c; }
/* punctuators of two characters */
static int two(int a, int b) {
  if (a == b) return a == '+' || a == '-' || a == '<' || a == '>' || a == '&' || a == '|' || a == '=' || a == '#';
  if (b == '=') return a == '+' || a == '-' || a == '*' || a == '/' || a == '<' || a == '>' || a == '!' || a == '&' || a == '|' || a == '^' || a == '%';
  return a == '-' && b == '>'; }
/* the next token of T[p..e); 0 at the end */
static int lex(int* pp, int e, tok* o) { int p = *pp; o->ws = 0; o->hs = o->hu = 0; o->n = 0;
  while (p < e && (T[p] == ' ' || T[p] == '\t')) { p++; o->ws = 1; }
  if (p >= e) { *pp = p; return 0; }
  int c = T[p];
  if (c == '\n') { o->k = NLT; p++; *pp = p; return 1; }
  if (isl(c)) { o->k = NAME; while (p < e && o->n < TL && (isl(T[p]) || isd(T[p]))) o->t[o->n++] = T[p++]; if (o->n == 1 && o->t[0] == 'L' && p < e && (T[p] == '"' || T[p] == '\'')) undefd(); }
  else if (isd(c) || (c == '.' && p + 1 < e && isd(T[p + 1]))) { o->k = NUM; while (p < e && o->n < TL && (isl(T[p]) || isd(T[p]) || T[p] == '.' || (o->n && o->t[o->n - 1] == 'e' && (T[p] == '+' || T[p] == '-')))) o->t[o->n++] = T[p++]; for (int i = 0; i + 1 < o->n; i++) if (o->t[i] == 'e' && o->t[i + 1] == 'e') undefd(); /* cpp ends such a number at a sign, so that 0xee+1 is a sum */ }
  else if (c == '"' || c == '\'') { o->k = STR; o->t[o->n++] = c; p++; while (1) { if (p >= e || T[p] == '\n' || o->n >= TL - 2) undefd(); int d = T[p++]; o->t[o->n++] = d; if (d == '\\') { if (p >= e || T[p] == '\n') undefd(); o->t[o->n++] = T[p++]; continue; } if (d == c) break; } }
  else { o->k = PUN; o->t[o->n++] = c; p++; if (p < e && two(c, T[p])) { o->t[o->n++] = T[p++]; if (p < e && T[p] == '=' && (c == '<' || c == '>') && o->t[1] == c) o->t[o->n++] = T[p++]; } if (c == '\\') undefd(); if (c == '/' && p < e && (T[p] == '/' || T[p] == '*') && o->n == 1) undefd(); }
  *pp = p; return 1; }
static mac* find(const tok* t) { if (t->k != NAME) return NULL; for (int i = 0; i < nm; i++) if (M[i].on && eqt(&M[i].name, t)) return &M[i]; return NULL; }
static void push(list* l, const tok* t) { if (l->n >= MAXT) qs_cut(); l->a[l->n++] = *t; }
static void expand(list* l);
static int param(mac* m, const tok* t) { if (m->fn && t->k == NAME) for (int i = 0; i < m->np; i++) if (eqt(&m->par[i], t)) return i; return -1; }
static tok stringize(const list* a) { tok r; memset(&r, 0, sizeof r); r.k = STR; r.t[r.n++] = '"';
  for (int i = 0; i < a->n; i++) { const tok* t = &a->a[i]; if (i && t->ws) r.t[r.n++] = ' '; for (int j = 0; j < t->n; j++) { if (r.n > TL - 5) qs_cut(); if (t->k == STR && (t->t[j] == '"' || t->t[j] == '\\')) r.t[r.n++] = '\\'; r.t[r.n++] = t->t[j]; } }
  r.t[r.n++] = '"'; return r; }
/* a ## b */
static tok paste(const tok* a, const tok* b) { tok r = *a; r.hs = 0; r.hu = a->hu | b->hu; if (a->n + b->n > TL) qs_cut(); memcpy(r.t + a->n, b->t, b->n); r.n = a->n + b->n;
  if (a->k == NAME && b->k == NAME) return r;
  if (a->k == NAME && b->k == NUM) { for (int i = 0; i < b->n; i++) if (!isl(b->t[i]) && !isd(b->t[i])) undefd(); return r; }
  if (a->k == NUM && (b->k == NAME || b->k == NUM)) return r;
  if (a->k == PUN && b->k == PUN && a->n == 1 && b->n == 1 && two(a->t[0], b->t[0])) return r;
  undefd(); return r; }
static void subst(mac* m, list* arg, const tok* name, unsigned hs, unsigned hu, list* out) {
  static list pool[6]; static int used; if (used >= 6) qs_cut(); list* r = &pool[used++]; r->n = 0;
  for (int i = 0; i < m->nb; i++) { tok* b = &m->body[i]; int p;
    if (m->fn && pun(b, '#')) { if (i + 1 >= m->nb || (p = param(m, &m->body[i + 1])) < 0) { undefd(); return; } tok s = stringize(&arg[p]); s.ws = b->ws; push(r, &s); i++; continue; }
    if ((p = param(m, b)) >= 0) { int raw = (i + 1 < m->nb && m->body[i + 1].k == PASTE) || (i && m->body[i - 1].k == PASTE);
      list* c = &pool[used++]; if (used > 5) qs_cut(); *c = arg[p]; if (!raw) expand(c);
      for (int j = 0; j < c->n; j++) { if (c->a[j].k == NLT) continue; tok x = c->a[j]; if (!j) x.ws = b->ws; push(r, &x); } if (!c->n && (raw || b->ws)) undefd(); used--; continue; }
    push(r, b); }
  int from = out->n;
  for (int i = 0; i < r->n; i++) { if (r->a[i].k == PASTE) { if (out->n == from || i + 1 >= r->n || r->a[i + 1].k == PASTE) { undefd(); return; } tok x = paste(&out->a[out->n - 1], &r->a[i + 1]); out->a[out->n - 1] = x; i++; } else push(out, &r->a[i]); }
  for (int i = from; i < out->n; i++) { out->a[i].hs |= hs; out->a[i].hu |= hu; }
  if (out->n > from) out->a[from].ws = name->ws; used--; }
static void expand(list* l) {
  static list W[3]; static list args[3][6]; static int lev; if (lev >= 3) qs_cut(); list* w = &W[lev];
  for (int i = 0; i < l->n;) {
    mac* m = find(&l->a[i]); if (!m || (l->a[i].hs >> (m - M) & 1)) { i++; continue; }
    if (l->a[i].hu >> (m - M) & 1) { undefd(); return; }
    int end = i + 1; int na = 0; unsigned hs = l->a[i].hs, hu = l->a[i].hu; tok name = l->a[i];
    if (m->fn) { list* A = args[lev];
      int j = i + 1; while (j < l->n && l->a[j].k == NLT) j++;
      if (j >= l->n || !pun(&l->a[j], '(')) { i++; continue; }
      int d = 0, nl = 0; j++; na = 1; A[0].n = 0;
      for (;; j++) { if (j >= l->n) { undefd(); return; } tok* t = &l->a[j]; if (t->k == NLT) { nl = 1; continue; }
        if (pun(t, '(')) d++;
        if (pun(t, ')') && d-- == 0) break;
        if (pun(t, ',') && !d) { if (na >= 5) qs_cut(); A[na++].n = 0; nl = 0; continue; }
        tok x = *t; if (nl) x.ws = 1; nl = 0; push(&A[na - 1], &x); }
      hs &= l->a[j].hs; hu |= l->a[j].hu;
      end = j + 1; if (!m->np && na == 1 && !A[0].n) na = 0;
      if (na != m->np) undefd(); for (int k = 0; k < na; k++) { if (!A[k].n) undefd(); } }
    w->n = 0; for (int k = 0; k < i; k++) push(w, &l->a[k]);
    lev++; subst(m, args[lev - 1], &name, hs | 1u << (m - M), hu | 1u << (m - M), w); lev--;
    /* the token after an empty replacement keeps the blank */
    if (w->n == i && end < l->n && name.ws) l->a[end].ws = 1;
    for (int k = end; k < l->n; k++) push(w, &l->a[k]);
    *l = *w; } }
/* ---- the whole text ---- */
static list OUTL; static list SEG;
static void flush(void) { expand(&SEG); for (int i = 0; i < SEG.n; i++) if (SEG.a[i].k != NLT) push(&OUTL, &SEG.a[i]); SEG.n = 0; }
static int word(const tok* t, const char* s) { int n = strlen(s); return t->k == NAME && t->n == n && !memcmp(t->t, s, n); }
static void directive(int p, int e) { tok t; mac n; memset(&n, 0, sizeof n); if (!lex(&p, e, &t)) return; if (t.k == NLT) return;
  if (word(&t, "undef")) { if (!lex(&p, e, &t) || t.k != NAME) { undefd(); return; } mac* m = find(&t); if (m) m->on = 0; tok u; if (lex(&p, e, &u) && u.k != NLT) undefd(); return; }
  if (!word(&t, "define")) { undefd(); return; }
  if (!lex(&p, e, &n.name) || n.name.k != NAME) { undefd(); return; } if (word(&n.name, "defined")) undefd(); n.on = 1;
  int any = lex(&p, e, &t);
  if (any && pun(&t, '(') && !t.ws) { n.fn = 1; any = lex(&p, e, &t); if (!any) { undefd(); return; }
    if (!pun(&t, ')')) while (1) { if (t.k != NAME || n.np >= 5) { undefd(); return; } for (int i = 0; i < n.np; i++) if (eqt(&n.par[i], &t)) undefd(); n.par[n.np++] = t; if (!lex(&p, e, &t)) { undefd(); return; } if (pun(&t, ')')) break; if (!pun(&t, ',')) { undefd(); return; } if (!lex(&p, e, &t)) { undefd(); return; } }
    any = lex(&p, e, &t); }
  else if (any && t.k != NLT && !t.ws) undefd();
  while (any && t.k != NLT) { if (n.nb >= 24) qs_cut(); if (t.k == PUN && t.n == 2 && t.t[0] == '#') t.k = PASTE; n.body[n.nb++] = t; any = lex(&p, e, &t); }
  if (n.nb && (n.body[0].k == PASTE || n.body[n.nb - 1].k == PASTE)) { undefd(); return; } if (n.nb) n.body[0].ws = 0;
  for (int i = 0; i < n.nb; i++) { if (n.fn && pun(&n.body[i], '#') && (i + 1 >= n.nb || param(&n, &n.body[i + 1]) < 0)) undefd(); if (i && n.body[i].k == PASTE && n.body[i - 1].k == PASTE) undefd(); if (i && n.body[i].k == PASTE && i > 1 && pun(&n.body[i - 2], '#') && n.fn) undefd(); if (n.body[i].k == PASTE && i + 1 < n.nb && pun(&n.body[i + 1], '#') && n.fn) undefd(); }
  for (int i = 0; i < nm; i++) if (M[i].on && eqt(&M[i].name, &n.name)) undefd();
  if (nm >= 10) qs_cut(); M[nm++] = n; }
static void oracle(void) { int p = 0; while (p < tn) { int e = p; while (e < tn && T[e] != '\n') e++; if (e < tn) e++;
    int q = p; tok t; if (lex(&q, e, &t) && pun(&t, '#')) { flush(); directive(q, e); } else { q = p; while (lex(&q, e, &t)) push(&SEG, &t); } p = e; }
  flush(); }
/* ---- what was written, read again, is that sequence of tokens ---- */
static void post(int st) { int p = 0, i = 0; tok x; otn = 0; out_keep = 1; out_text(); posting = 1; if (otn > (int)sizeof T) qs_cut(); memcpy(T, OT, otn);
  while (lex(&p, otn, &x)) { if (x.k == NLT) continue;
    if (i >= OUTL.n) { qs_fail("more tokens in the output than there should be"); qs_stop(); }
    if (!eqt(&x, &OUTL.a[i])) { qs_fail("a token of the output is not the right one"); qs_stop(); } i++; }
  qs_check(i == OUTL.n, "a token is missing in the output"); qs_check(st == 0, "no error reported"); qs_reach("expanded"); }
static const char* TPL[] = {
  "#define a `b` `+\n#define b `1`x\na `+ b\n",
  "#define a `b`(`x`)\n#define b `a`+`1`1\na b\n",
  "#define f(x) `x` `+`x`1\nf(a)\n",
  "#define f(x) x`+x\n#define g f\n`g`(`a`)\n",
  "#define f(x) x+x\n#define a `1\nf`(`(`a`,`1`)`)`1\n",
  "#define f(x,y) `x`+`y` `1\nf(a,b+1)\n",
  "#define f(x,y) x`##`y`+1\n#define ab `1\n#define aab `2\nf(a`a` ,`b)\n",
  "#define f(x) #x\nf(`a`b` `+`1`c)\n",
  "#define s(x) #x\n#define f(x) s(x)\n#define a `x` `y\nf(`+`1` a`b)\n",
  "#define a `x\n`a` `b\n#define b a\n`a` `b\n#undef a\n`b` b a\n",
  "#define a f\n#define f(x) `x` x`1\n#define g a\n`a`(`1`)(`b`)`g\n",
  "#define f(x) x`+`f(x)\n#define g(x) f(`x`)`+x\n`g`(`1`)\n",
  "#define c(x,y) x##y\n#define d(x,y) c(x,y)\n#define a `x\n`c`(`a`1`,`b`)\n",
  "#define n() `1` \n#define f(x) x`n`()`+`1\nf(`1`a)`n`()`b\n",
  "#define a +\n#define f(x) `x`+`x\n`a` `a`+`f(`a`)`+\n",
  "#define f(x,y) y`+x\nf(`a`,`b`+`c)\nf(`(`,`)`,`1)\n",
  "#define f(x) [x]\nf`\n`\n#define y 2\n`(`y`)`1\n",
  "#define e\n#define f(x) x e x\n`a`e`+`f(`+`e)`-e\n",
  "#define f(x) g(x`)`+\n#define g(x) x`1\nf(1)`+`1\n",
  "#define x(a`)` `a`+a\nx(`1`)`+`1`b\n",
  "#define f(x) s(x`+ x)\n#define s(x) #x` `1\nf(a` )`1\n",
  "#define a b`+`1\n#define b a`-`1\n#define f(x) x`+a\nf(a)` `b\n",
  "#define f(g) g(2)`+1\n#define h(x) [`x`+x]\nf(`h`)`f` (`h`)\n",
  "#define s(a,b) #a`#b` \ns(`'`\"`',`b)\ns(`\"`\\`\"`\"`,2)\n",
  "#define t(x,y,z) x`##y`##z\n#define abc`1\n#define ac 2\nt(a`,`b`,c) t(`a,b,`c)\n",
  "#define p(x) x`##`1\n#define q(x) `y##x\n#define y1 z\np(`y)q(`1`) y`1\n",
};
#define NTPL ((int)(sizeof TPL / sizeof TPL[0]))
static const char* ALPH[] = { "abxfg()+,1 ", "abx#\n", "fax(),1\n", "abx1+#(", "a1\"'\\ +\n", "a <=>&|-+*/%!.1e", "xyab#1 ", "gf(),a \n" };
/* `c in a template: an arbitrary byte of the alphabet for the holes from .. from + max - 1, else c */
void qs_main(void) { const char* al = ALPH[qs_param("alph", 0)]; const char* t = TPL[qs_param("tpl", 0)]; int n = strlen(al), from = qs_param("from", 0), max = qs_param("max", 0), k = 0; qs_fuel(40000000);
  for (; *t; t++) { if (*t != '`') { t_c(*t); continue; } t++; int h = k++ - from; if (h < 0 || h >= max) { t_c(*t); continue; }
    uint8_t c = qs_u8("text"); int ok = 0; for (int i = 0; i < n; i++) ok |= c == (uint8_t)al[i]; qs_assume(ok); T[tn++] = c; }
  oracle(); for (int i = 0; i < OUTL.n; i++) if (pun(&OUTL.a[i], '#')) undefd(); /* may look like a directive */
  post_fn = post; run_cpp(); }
