// Exact simplex with reuse: is (rows >= 0, unsigned columns >= 0, goal >= 0) unsatisfiable over the rationals?
// A row is m coefficients followed by the constant.  Any doubt (overflow) answers "satisfiable".
#include <stdlib.h>
#include <string.h>
typedef long long I;
typedef __int128 L;
#define LIM (((L)1) << 62)
#define MODELS 12

typedef struct {
    int n, m, state;        // state: 0 fine, 1 unsatisfiable, 2 given up
    unsigned char *nn;
    I *T, D;                // D * basic = T[i][m] + sum T[i][j] * nonbasic_j
    int *row, *col;         // variable of each row and column; slacks are m + i
    double *mod;
    int nmod, next;
    I *T2;
    int *row2, *col2;
} H;

static int pivot(I *T, I *D0, int *row, int *col, int n, int m, int r, int c) {
    int w = m + 1;
    I *R = T + (size_t)r * w, p = R[c], D = *D0;
    int s = p > 0 ? 1 : -1;
    for (int i = 0; i < n; i++) {
        I *A = T + (size_t)i * w, q = A[c];
        if (i == r) continue;
        if (!q && p == s * D) { continue; }
        for (int j = 0; j < w; j++) {
            I x, y, z;
            if (j == c) continue;
            if (!A[j] && (!q || !R[j])) continue;
            if (!__builtin_mul_overflow(p, A[j], &x) && !__builtin_mul_overflow(q, R[j], &y) && !__builtin_sub_overflow(x, y, &z)) {
                if (D != 1) z /= D;
            } else {
                L l = ((L)p * A[j] - (L)q * R[j]) / D;
                if (l >= LIM || l <= -LIM) return 0;
                z = (I)l;
            }
            A[j] = s > 0 ? z : -z;
        }
        A[c] = s > 0 ? q : -q;
    }
    for (int j = 0; j < w; j++) {
        if (j == c) R[j] = s > 0 ? D : -D;
        else R[j] = s > 0 ? -R[j] : R[j];
    }
    *D0 = s > 0 ? p : -p;
    int t = row[r];
    row[r] = col[c];
    col[c] = t;
    return 1;
}

// 1 unsatisfiable, 0 satisfiable, 2 given up.  Free variables that matter are in the basis already.
static int solve(I *T, I *D, int *row, int *col, int n, int m, const unsigned char *nn) {
    int w = m + 1;
    for (int step = 0; step < 5000; step++) {
        int r = -1, c = -1;
        for (int i = 0; i < n; i++)
            if (!(row[i] < m && !nn[row[i]]) && T[(size_t)i * w + m] < 0 && (r < 0 || row[i] < row[r])) r = i;
        if (r < 0) return 0;
        for (int j = 0; j < m; j++) {
            I x = T[(size_t)r * w + j];
            if (!x) continue;
            if (col[j] < m && !nn[col[j]]) { c = j; break; }       // free: moves either way, and stays in the basis
            if (x > 0 && (c < 0 || col[j] < col[c])) c = j;
        }
        if (c < 0) return 1;
        if (!pivot(T, D, row, col, n, m, r, c)) return 2;
    }
    return 2;
}

static void model(H *h, const I *T, I D, const int *row, int n) {
    double *x = h->mod + (size_t)h->next * h->m;
    for (int j = 0; j < h->m; j++) x[j] = 0;
    for (int i = 0; i < n; i++)
        if (row[i] < h->m) x[row[i]] = (double)T[(size_t)i * (h->m + 1) + h->m] / (double)D;
    h->next = (h->next + 1) % MODELS;
    if (h->nmod < MODELS) h->nmod++;
}

H *lp_new(const I *A, int n, int m, const unsigned char *nn) {
    int w = m + 1;
    H *h = calloc(1, sizeof *h);
    h->n = n;
    h->m = m;
    h->nn = malloc(m + 1);
    memcpy(h->nn, nn, m);
    h->T = malloc(sizeof(I) * w * (n + 1));
    h->T2 = malloc(sizeof(I) * w * (n + 1));
    h->row = malloc(sizeof(int) * (n + 1));
    h->row2 = malloc(sizeof(int) * (n + 1));
    h->col = malloc(sizeof(int) * (m + 1));
    h->col2 = malloc(sizeof(int) * (m + 1));
    h->mod = malloc(sizeof(double) * (m + 1) * MODELS);
    memcpy(h->T, A, sizeof(I) * w * n);
    h->D = 1;
    for (int i = 0; i < n; i++) h->row[i] = m + i;
    for (int j = 0; j < m; j++) h->col[j] = j;
    for (int j = 0; j < m; j++) {
        if (nn[j]) continue;
        for (int i = 0; i < n; i++)
            if (!(h->row[i] < m && !nn[h->row[i]]) && h->T[(size_t)i * w + j]) {
                if (!pivot(h->T, &h->D, h->row, h->col, n, m, i, j)) { h->state = 2; return h; }
                break;
            }
    }
    h->state = solve(h->T, &h->D, h->row, h->col, n, m, h->nn);
    if (!h->state) model(h, h->T, h->D, h->row, n);
    return h;
}

int lp_state(const H *h) { return h->state; }

void lp_free(H *h) {
    free(h->nn); free(h->T); free(h->T2); free(h->row); free(h->row2); free(h->col); free(h->col2); free(h->mod); free(h);
}

// with goal >= 0 added: 1 unsatisfiable, 0 satisfiable or unknown
int lp_query(H *h, const I *g) {
    int n = h->n, m = h->m, w = m + 1;
    if (h->state) return h->state == 1;
    for (int k = 0; k < h->nmod; k++) {
        const double *x = h->mod + (size_t)k * m;
        double v = (double)g[m];
        for (int j = 0; j < m; j++) if (g[j]) v += (double)g[j] * x[j];
        if (v >= 0) return 0;
    }
    memcpy(h->T2, h->T, sizeof(I) * w * n);
    memcpy(h->row2, h->row, sizeof(int) * n);
    memcpy(h->col2, h->col, sizeof(int) * m);
    I *R = h->T2 + (size_t)n * w, D = h->D;
    for (int j = 0; j <= m; j++) {
        L v = j == m ? (L)D * g[m] : h->col[j] < m ? (L)D * g[h->col[j]] : 0;
        for (int i = 0; i < n; i++)
            if (h->row[i] < m && g[h->row[i]]) v += (L)g[h->row[i]] * h->T[(size_t)i * w + j];
        if (v >= LIM || v <= -LIM) return 0;
        R[j] = (I)v;
    }
    h->row2[n] = m + n;
    int r = solve(h->T2, &D, h->row2, h->col2, n + 1, m, h->nn);
    if (r == 0) model(h, h->T2, D, h->row2, n + 1);
    return r == 1;
}
