/* Drives a Fibonacci heap with a script and logs every event: 1 key value (insert), 2 key value (decrease), 3 key num_nodes (extract), 4 key num_nodes (delete). */
#include "data_structures/fibonacci_heap.h"
void delete_node(FibonacciHeap *, OrdTreeNode *) __attribute__((weak));
#define MAXN 9000
static double *lg; static long lg_n, lg_max;
static void put(double v) { if (lg_n < lg_max) lg[lg_n] = v; lg_n++; }
static OrdTreeNode *node[MAXN];
static char in_heap[MAXN], keep[MAXN];
static int total;
static FibonacciHeap H;
static void ins(double v) {
    if (total >= MAXN) return;
    int k = total++;
    node[k] = malloc(sizeof(OrdTreeNode));          /* separate blocks: the sanitizer sees every stray access */
    in_heap[k] = 1;
    put(1); put(k); put(v);
    create_insert_node(&H, node[k], (unsigned short) k, v);
}
static int ext(void) {
    int k = extract_min(&H);
    put(3); put(k); put(H.num_nodes);
    if (k >= 0 && k < MAXN) in_heap[k] = 0;
    return k;
}
static void dec(int k, double v) {
    if (v > node[k]->value) return;
    put(2); put(k); put(v);
    decrease_value(&H, node[k], v);
}
static int nth_live(long r) {
    int live = 0;
    for (int i = 0; i < total; i++) live += in_heap[i];
    if (!live) return -1;
    r %= live;
    for (int i = 0; i < total; i++) if (in_heap[i] && r-- == 0) return i;
    return -1;
}
/* keeps of a tree the nodes that a thinnest tree of the same degree needs: every node but the root gives up its largest child */
static void mark(OrdTreeNode *t, int is_root) {
    keep[t->key] = 1;
    OrdTreeNode *big = NULL, *c = t->head_child_list;
    for (int i = 0; i < t->num_children; i++, c = c->right_sibling) if (!big || c->num_children > big->num_children) big = c;
    c = t->head_child_list;
    for (int i = 0; i < t->num_children; i++, c = c->right_sibling) if (is_root || c != big) mark(c, 0);
}
static void thin(void) {
    OrdTreeNode *best = NULL;
    for (int i = 0; i < total; i++) if (in_heap[i] && node[i]->parent == NULL && (!best || node[i]->num_children > best->num_children)) best = node[i];
    if (!best) return;
    for (int i = 0; i < total; i++) keep[i] = 0;
    mark(best, 1);
    int doomed = 0;
    double low = -1e6;
    for (int i = 0; i < total; i++) if (in_heap[i] && node[i]->value < low) low = node[i]->value;
    /* parents first: a doomed child of a kept node is cut exactly once */
    for (int depth = 0; depth < 64; depth++)
        for (int i = 0; i < total; i++) {
            if (!in_heap[i] || keep[i] || keep[i] == 2) continue;
            int d = 0;
            for (OrdTreeNode *p = node[i]->parent; p; p = p->parent) d++;
            if (d > 0 && d <= depth) dec(i, low -= 1);
        }
    for (int i = 0; i < total; i++) if (in_heap[i] && !keep[i]) { dec(i, low -= 1); doomed++; }
    while (doomed-- > 0) ext();
}
/* takes the children of the root's children away indirectly, by cutting two children of each, then removes everything else */
static void collect(OrdTreeNode *n) { keep[n->key] = 1; OrdTreeNode *c = n->head_child_list; for (int i = 0; i < n->num_children; i++, c = c->right_sibling) collect(c); }
static void thin_indirectly(int cuts) {
    static OrdTreeNode *a[MAXN], *b[MAXN], *g[MAXN];
    OrdTreeNode *best = NULL, *c;
    double low = -1e6;
    for (int i = 0; i < total; i++) {
        if (in_heap[i] && node[i]->parent == NULL && (!best || node[i]->num_children > best->num_children)) best = node[i];
        if (in_heap[i] && node[i]->value < low) low = node[i]->value;
    }
    if (!best) return;
    int na = best->num_children;
    c = best->head_child_list;
    for (int i = 0; i < na; i++, c = c->right_sibling) a[i] = c;
    for (int i = 0; i < na; i++) {
        int nb = a[i]->num_children;
        c = a[i]->head_child_list;
        for (int j = 0; j < nb; j++, c = c->right_sibling) b[j] = c;
        for (int j = 0; j < nb; j++) {
            int ng = b[j]->num_children;
            c = b[j]->head_child_list;
            for (int k = 0; k < ng; k++, c = c->right_sibling) g[k] = c;
            for (int k = 0; k < ng && k < cuts; k++) dec(g[k]->key, low -= 1);
        }
    }
    for (int i = 0; i < total; i++) keep[i] = 0;
    collect(best);
    int doomed = 0;
    for (int i = 0; i < total; i++) if (in_heap[i] && !keep[i]) { dec(i, low -= 1); doomed++; }
    while (doomed-- > 0) ext();
}
void vh_run(long nops, const double *ops, double *log, long max, long *used) {
    lg = log; lg_max = max; lg_n = 0; total = 0;
    create_fibonacci_heap(&H);
    for (long i = 0; i < nops; i++) {
        int kind = (int) ops[3 * i];
        double a = ops[3 * i + 1], b = ops[3 * i + 2];
        if (kind == 0) ins(a);
        else if (kind == 1) ext();
        else if (kind == 2) { int k = nth_live((long) b); if (k >= 0) dec(k, node[k]->value - a); }
        else if (kind == 7) {
            int k = nth_live((long) b);
            if (k >= 0 && delete_node) { delete_node(&H, node[k]); in_heap[k] = 0; put(4); put(k); put(H.num_nodes); }
        }
        else if (kind == 3) { for (int k = 0; k < (int) a; k++) ins(b + k); }          /* a run of insertions */
        else if (kind == 4) thin();
        else if (kind == 5) thin_indirectly((int) a);
        else if (kind == 6) {           /* one tree of degree a: 2^a + 1 insertions and an extraction */
            for (int k = 0; k <= 1 << (int) a; k++) ins(b + k);
            ext();
        }
    }
    while (ext() >= 0 && lg_n < lg_max) {}
    *used = lg_n;
    for (int i = 0; i < total; i++) free(node[i]);
}
