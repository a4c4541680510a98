/* Merge-find sets: after every operation, the representative of every element. ops: kind (0 merge by elements, 1 merge by roots, 2 find), a, b */
#include "data_structures/mfset.h"
int vu_max(void) { return MAX_VERTEX_NUM; }
void vu_run(int n, int candidate, long nops, const long *ops, double *log) {
    static Forest f;
    static Node nodes[MAX_VERTEX_NUM];
    memset(&f, 0x5a, sizeof f);
    for (int i = 0; i < n; i++) { memset(&nodes[i], 0, sizeof nodes[i]); nodes[i].positionInGraph = i; nodes[i].x = i + 0.5; }
    if (candidate >= 0) create_forest_constrained(&f, nodes, n, candidate);
    else create_forest(&f, nodes, n);
    *log++ = f.num_sets;
    for (long k = -1; k < nops; k++) {
        if (k >= 0) {
            Set *a = &f.sets[ops[3 * k + 1]], *b = &f.sets[ops[3 * k + 2]];
            if (ops[3 * k] == 0) merge(a, b);
            else if (ops[3 * k] == 1) merge(find(a), find(b));
            else find(a);
            if (k % 3) continue;                    /* do not compress all paths after every operation */
        }
        *log++ = -1;
        for (int i = 0; i < n; i++) {
            if (i == candidate) { *log++ = -2; continue; }
            Set *r = find(&f.sets[i]);
            *log++ = r->num_in_forest == r - f.sets && find(r) == r ? (double) r->num_in_forest : -3;
        }
    }
    *log++ = -1;
    for (int i = 0; i < n; i++) *log++ = i == candidate ? -2 : find(&f.sets[i])->num_in_forest;
    for (int i = 0; i < n; i++) *log++ = i == candidate || (f.sets[i].curr.positionInGraph == i && f.sets[i].curr.x == i + 0.5);
}
