/* Graph construction, edge sorting, minimum spanning trees and their printers. */
#include "algorithms/kruskal.h"
#include "algorithms/prim.h"
#include "data_structures/mst.h"
void vf_live(long *, long *);
static double *lg; static long lg_n, lg_max;
static void put(double v) { if (lg_n < lg_max) lg[lg_n] = v; lg_n++; }
long vg_log_size(void) { return lg_n; }
void vg_log(double *buf, long max) { lg = buf; lg_max = max; lg_n = 0; }
static Graph *G;
static Node nodes_in[MAX_VERTEX_NUM];
static Edge *edges_in;
static void fresh(void) {
    if (!G) { G = malloc(sizeof *G); edges_in = malloc(sizeof(Edge) * (MAX_EDGES_NUM + 1)); }
    memset(G, 0x5a, sizeof *G);
}
/* edges: src, dest, weight, prob */
void vg_create(int n, const double *xy, int m, const double *e, int unweighted) {
    long b0, y0, b1, y1;
    fresh();
    vf_live(&b0, &y0);
    List *nl = new_list(), *el = new_list();
    for (int i = 0; i < n; i++) { memset(&nodes_in[i], 0, sizeof(Node)); nodes_in[i].x = xy[2 * i]; nodes_in[i].y = xy[2 * i + 1]; nodes_in[i].positionInGraph = i; add_elem_list_bottom(nl, &nodes_in[i]); }
    for (int k = 0; k < m; k++) {
        edges_in[k].src = (unsigned short) e[4 * k]; edges_in[k].dest = (unsigned short) e[4 * k + 1];
        edges_in[k].weight = e[4 * k + 2]; edges_in[k].prob = e[4 * k + 3]; edges_in[k].symbol = k + 1; edges_in[k].positionInGraph = k;
        add_elem_list_bottom(el, &edges_in[k]);
    }
    create_graph(G, nl, el, unweighted ? UNWEIGHTED_GRAPH : WEIGHTED_GRAPH);
    vf_live(&b1, &y1);
    put(b1 - b0);
}
void vg_euclidean(int n, const double *xy) {
    long b0, y0, b1, y1;
    fresh();
    vf_live(&b0, &y0);
    List *nl = new_list();
    for (int i = 0; i < n; i++) { memset(&nodes_in[i], 0, sizeof(Node)); nodes_in[i].x = xy[2 * i]; nodes_in[i].y = xy[2 * i + 1]; nodes_in[i].positionInGraph = i; add_elem_list_bottom(nl, &nodes_in[i]); }
    create_euclidean_graph(G, nl);
    vf_live(&b1, &y1);
    put(b1 - b0);
}
/* kind cost n m ordered | nodes: pos x y deg neighbours | edges: src dest symbol weight prob pos, then both matrix cells: src dest symbol weight prob pos */
void vg_dump(void) {
    put(G->kind); put(G->cost); put(G->num_nodes); put(G->num_edges); put(G->orderedEdges);
    for (int i = 0; i < G->num_nodes && i < MAX_VERTEX_NUM; i++) {
        Node *v = &G->nodes[i];
        put(v->positionInGraph); put(v->x); put(v->y); put(v->num_neighbours);
        for (int k = 0; k < v->num_neighbours && k < MAX_VERTEX_NUM - 1; k++) put(v->neighbours[k]);
    }
    for (int k = 0; k < G->num_edges && k < MAX_EDGES_NUM; k++) {
        Edge *e = &G->edges[k];
        Edge *c[3] = {e, e, e};
        if (e->src < MAX_VERTEX_NUM && e->dest < MAX_VERTEX_NUM) { c[1] = &G->edges_matrix[e->src][e->dest]; c[2] = &G->edges_matrix[e->dest][e->src]; }
        for (int q = 0; q < 3; q++) { put(c[q]->src); put(c[q]->dest); put(c[q]->symbol); put(c[q]->weight); put(c[q]->prob); put(c[q]->positionInGraph); }
    }
}
void vg_sort(void) { wrap_quick_sort(G); }
/* valid cost prob n m | edges src dest weight prob | per edge: index held by both matrix cells | degrees */
static void put_mst(const MST *t) {
    put(t->isValid); put(t->cost); put(t->prob); put(t->num_nodes); put(t->num_edges);
    for (int k = 0; k < t->num_edges && k < MAX_VERTEX_NUM; k++) {
        const Edge *e = &t->edges[k];
        put(e->src); put(e->dest); put(e->weight); put(e->prob); put(e->positionInGraph); put(t->edges_matrix[e->src][e->dest]); put(t->edges_matrix[e->dest][e->src]);
    }
    for (int i = 0; i < t->num_nodes && i < MAX_VERTEX_NUM; i++) {
        put(t->nodes[i].positionInGraph); put(t->nodes[i].num_neighbours); put(t->nodes[i].x); put(t->nodes[i].y);
        for (int k = 0; k < t->nodes[i].num_neighbours && k < MAX_VERTEX_NUM - 1; k++) put(t->nodes[i].neighbours[k]);
    }
}
void vg_mst(int use_prim) {
    MST *t = malloc(sizeof *t);
    memset(t, 0x5a, sizeof *t);
    if (use_prim) prim(G, t); else kruskal(G, t);
    put_mst(t);
    free(t);
}
void vg_print(int what) {
    if (what == 0) print_graph(G);
    else {
        MST *t = malloc(sizeof *t);
        memset(t, 0x5a, sizeof *t);
        prim(G, t);
        if (what == 1) print_mst(t); else print_mst_original_weight(t, G);
        free(t);
    }
}
