/* what a program keeps between calls; the functions are called several times */
static int sum, hist[4], n, tree[8], seed = 1; static char log_[8]; static struct { int x; char t; } last = { -1, 'z' };
static int t_sum(int a, int b, int c) { sum += a; return sum * 3 + b; }
static int t_hist(int a, int b, int c) { int r = hist[n & 3]; hist[n & 3] = a; n++; return r * 5 + n + hist[b & 3]; }
static int t_count(int a, int b, int c) { static int k = 10, m; k += a > b; m ^= c; return k * 3 + m; }
static int t_log(int a, int b, int c) { int i; for (i = 7; i > 0; i--) log_[i] = log_[i - 1]; log_[0] = a; return log_[0] + log_[1] * 3 + log_[2] * 5; }
static int t_last(int a, int b, int c) { int r = last.x + last.t; last.x = a; if (b & 1) last.t = c; return r; }
static int t_heap(int a, int b, int c) { int i = 1; while (i < 4) { if (tree[i] == 0) { tree[i] = (a & 255) + 1; return i; } i = i * 2 + ((a & 255) + 1 > tree[i]); } return tree[1] + b; }
static int t_first(int a, int b, int c) { static int done, keep; if (!done) { keep = a; done = 1; } return keep; }
static int t_lcg(int a, int b, int c) { seed = seed * 69069 + 1; return seed ^ a; }
static int t_ptr(int a, int b, int c) { static int v[2]; static int* p; if (!p) p = v; *p += a; p = p == v ? v + 1 : v; return *p * 3 + v[0]; }
static int t_lits(int a, int b, int c) { static char s[4] = "abc"; int r = s[a & 1]; s[a & 1] = b; return r * 3 + s[1]; }
