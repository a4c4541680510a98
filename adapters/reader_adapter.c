/* The instance readers: the graph as read, in the layout of graph_adapter's vg_dump. */
#include "tsp_instance_reader.h"
void vf_live(long *, long *);
static double *lg; static long lg_n, lg_max;
static void put(double v) { if (lg_n < lg_max) lg[lg_n] = v; lg_n++; }
void vr_read(int tsplib, char *path, double *log, long max, long *used) {
    long b0, y0, b1, y1;
    lg = log; lg_max = max; lg_n = 0;
    vf_live(&b0, &y0);
    Graph *G = malloc(sizeof *G);                 /* its own block: an overrun is seen by the sanitizer */
    memset(G, 0x5a, sizeof *G);
    if (tsplib) read_tsp_lib_file(G, path); else read_tsp_csv_file(G, path);
    put(G->kind); put(G->cost); put(G->num_nodes); put(G->num_edges); put(G->orderedEdges);
    for (int i = 0; i < G->num_nodes && i < MAX_VERTEX_NUM; i++) {
        Node *v = &G->nodes[i];
        put(v->positionInGraph); put(v->x); put(v->y); put(v->num_neighbours);
        for (int k = 0; k < v->num_neighbours && k < MAX_VERTEX_NUM - 1; k++) put(v->neighbours[k]);
    }
    for (int k = 0; k < G->num_edges && k < MAX_EDGES_NUM; k++) {
        Edge *e = &G->edges[k];
        Edge *c[3] = {e, e, e};
        if (e->src < MAX_VERTEX_NUM && e->dest < MAX_VERTEX_NUM) { c[1] = &G->edges_matrix[e->src][e->dest]; c[2] = &G->edges_matrix[e->dest][e->src]; }
        for (int q = 0; q < 3; q++) { put(c[q]->src); put(c[q]->dest); put(c[q]->symbol); put(c[q]->weight); put(c[q]->prob); put(c[q]->positionInGraph); }
    }
    free(G);
    vf_live(&b1, &y1);
    put(b1 - b0);
    *used = lg_n;
}
