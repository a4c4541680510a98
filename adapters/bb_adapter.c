/* Step-by-step driver of the branch-and-bound API (branch_and_bound.h): every call and the state around it is appended
 * to a flat log of doubles, so that the harness depends neither on struct layouts nor on MAX_VERTEX_NUM. */
#include "algorithms/branch_and_bound.h"

static Problem P;
static double *lg;
static long lg_n, lg_max;
static void put_problem(int n);
static void put(double v) { if (lg_n < lg_max) lg[lg_n] = v; lg_n++; }
long vb_log_size(void) { return lg_n; }
void vb_log(double *buf, long max) { lg = buf; lg_max = max; lg_n = 0; }

static Node nodes_in[MAX_VERTEX_NUM];
static Edge edges_in[MAX_EDGES_NUM + 1];
void vb_setup(int n, const double *w, const double *p, int candidate) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < n; i++) {
        nodes_in[i].positionInGraph = i;
        add_elem_list_bottom(nl, &nodes_in[i]);
    }
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            if (w[i * n + j] > 0) {
                edges_in[z].src = i; edges_in[z].dest = j; edges_in[z].symbol = z + 1; edges_in[z].positionInGraph = z;
                edges_in[z].weight = w[i * n + j];
                edges_in[z].prob = HYBRID ? p[i * n + j] : 0;
                add_elem_list_bottom(el, &edges_in[z]);
                z++;
            }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    P.reformulationGraph = P.graph;
    P.candidateNodeId = candidate;
    P.totTreeLevels = 1;
    P.bestValue = INFINITE;
    P.bestSolution.value = INFINITE;
    P.bestSolution.num_edges_in_cycle = 0;
    P.bestSolution.type = CLOSED_NN;
    P.generatedBBNodes = 1;
    P.start = 0;
    set_problem(&P);
}
/* the search as the program runs it: the problem afterwards */
void vb_whole(int n) {
    branch_and_bound(&P);
    put_problem(n);
    put(P.candidateNodeId);
}
/* the same starting point for a search step by step: candidate and incumbent from the nearest-neighbour phase */
void vb_start(void) {
    P.exploredBBNodes = 0; P.num_fixed_edges = 0;
    P.candidateNodeId = find_candidate_node();
}
void vb_incumbent(double value) { P.bestValue = value; P.bestSolution.value = value; P.bestSolution.num_edges_in_cycle = 0; }

static void cell(SubProblem *s, int i, int j, ConstraintType t) { s->constraints[i][j] = t; s->constraints[j][i] = t; }
static void blank(SubProblem *s) {
    memset(s, 0, sizeof *s);
    for (int i = 0; i < MAX_VERTEX_NUM; i++)
        for (int j = 0; j < MAX_VERTEX_NUM; j++) s->constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    s->type = OPEN; s->edge_to_branch = -1; s->id = 1; s->treeLevel = 1; s->value = INFINITE;
}
/* state of a subproblem: value prob type level id father nmand nforb etb_src etb_dest, constraints n*n, mandatory list */
static void put_sub(const SubProblem *s, int n) {
    put(s->value); put(s->prob); put(s->type); put(s->treeLevel); put(s->id); put(s->fatherId);
    put(s->num_mandatory_edges); put(s->num_forbidden_edges);
    if (s->edge_to_branch >= 0 && s->edge_to_branch < P.graph.num_edges) {
        put(P.graph.edges[s->edge_to_branch].src); put(P.graph.edges[s->edge_to_branch].dest);
    } else { put(s->edge_to_branch == -1 ? -1 : -2); put(-1); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(s->constraints[i][j]);
    int m = s->num_mandatory_edges <= MAX_EDGES_NUM ? s->num_mandatory_edges : 0;
    put(m);
    for (int i = 0; i < m; i++) { put(s->mandatoryEdges[i].src); put(s->mandatoryEdges[i].dest); }
}
/* bestValue, bestSolution.value, type, cycle, counters, the graph's weights */
static void put_problem(int n) {
    put(P.bestValue); put(P.bestSolution.value); put(P.bestSolution.type);
    put(P.bestSolution.num_edges_in_cycle);
    for (int i = 0; i < P.bestSolution.num_edges_in_cycle && i < MAX_VERTEX_NUM; i++) { put(P.bestSolution.cycleEdges[i].src); put(P.bestSolution.cycleEdges[i].dest); }
    put(P.generatedBBNodes); put(P.exploredBBNodes); put(P.totTreeLevels); put(P.num_fixed_edges);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(i == j ? 0 : P.graph.edges_matrix[i][j].weight);
}
/* A whole search of at most max_steps subproblems from a root with the given constraints (0 none, 1 mandatory, 2 forbidden).
 * Per step:  1, subproblem popped, | bounded subproblem, problem | fixed?1:0 [num_fixed, subproblem] branched?1:0 [problem, list size, children appended in list order] */
void vb_trace(int n, const int *cons, int level, double value, int max_steps) {
    static SubProblem root;
    SubProblemsList open;
    new_SubProblemList(&open);
    blank(&root);
    root.treeLevel = level;
    root.value = value;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
            if (cons[i * n + j] == 1) {
                cell(&root, i, j, MANDATORY);
                root.mandatoryEdges[root.num_mandatory_edges].src = i;
                root.mandatoryEdges[root.num_mandatory_edges].dest = j;
                root.num_mandatory_edges++;
            } else if (cons[i * n + j] == 2) { cell(&root, i, j, FORBIDDEN); root.num_forbidden_edges++; }
        }
    add_elem_SubProblemList_bottom(&open, &root);
    for (int step = 0; step < max_steps && get_SubProblemList_size(&open) > 0; step++) {
        static SubProblem cur;
        cur = *get_SubProblemList_elem_index(&open, 0);
        delete_SubProblemList_elem_index(&open, 0);
        put(1);
        put_sub(&cur, n);
        double old = P.bestValue;
        bound(&cur);
        put_sub(&cur, n);
        put_problem(n);
        if (P.bestValue < old) {          /* the report of the new incumbent, on standard output */
            printf("\nIMPROVED AT STEP %d\n", step);
            print_subProblem(&P.bestSolution);
            fflush(stdout);
        }
        int go = cur.type == OPEN && cur.edge_to_branch != -1;
        put(go);
        if (!go) continue;
        int f = variable_fixing(&cur);
        P.num_fixed_edges += f;
        put(f);
        put_sub(&cur, n);
        unsigned before = P.generatedBBNodes;
        branch(&open, &cur);
        put(before); put(P.generatedBBNodes);
        put(get_SubProblemList_size(&open));
        for (size_t k = 0; k < get_SubProblemList_size(&open); k++) {
            SubProblem *s = get_SubProblemList_elem_index(&open, k);
            put(s->id); put(s->value); put(s->prob);
            put(s->id > before);
            if (s->id > before) put_sub(s, n);
        }
    }
    put(0);
    put(get_SubProblemList_size(&open));
    delete_SubProblemList(&open);
}
/* The open list on its own: ops are (kind, value, prob, edge): kind 0 pops the head, kind 1 branches a subproblem of that value and
 * probability on that edge. After each op: size, then id value prob per element in list order. */
static void put_list(SubProblemsList *open) {
    size_t size = get_SubProblemList_size(open);
    put(size);
    SubProblemsListIterator *it = create_SubProblemList_iterator(open);
    for (size_t i = 0; i < size; i++) {
        SubProblem *e = SubProblemList_iterator_get_next(it);
        if (!e) { put(-1); put(0); put(0); continue; }
        put(e->id); put(e->value); put(e->prob);
    }
    delete_SubProblemList_iterator(it);
}
/* fill branchings first (direct: as many insertions at the end), then the list is logged once and after each further operation */
void vb_open_list(int fill, int direct, int nops, const double *ops) {
    SubProblemsList open;
    new_SubProblemList(&open);
    static SubProblem s;
    for (int k = 0; k < nops; k++) {
        const double *o = ops + 4 * k;
        if (o[0] == 0) {
            if (get_SubProblemList_size(&open) > 0) delete_SubProblemList_elem_index(&open, 0);
        } else {
            blank(&s);
            s.treeLevel = 1; s.id = 1; s.value = o[1]; s.prob = o[2]; s.edge_to_branch = (int) o[3];
            if (direct && k < fill) { s.id = ++P.generatedBBNodes; add_elem_SubProblemList_bottom(&open, &s); }
            else branch(&open, &s);
        }
        if (k + 1 >= fill) put_list(&open);
    }
    delete_SubProblemList(&open);
}
/* inference on its own: returns the verdict and the resulting state */
void vb_infer(int n, const int *cons) {
    static SubProblem s, t;
    blank(&s);
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
            if (cons[i * n + j] == 1) {
                cell(&s, i, j, MANDATORY);
                s.mandatoryEdges[s.num_mandatory_edges].src = i;
                s.mandatoryEdges[s.num_mandatory_edges].dest = j;
                s.num_mandatory_edges++;
            } else if (cons[i * n + j] == 2) { cell(&s, i, j, FORBIDDEN); s.num_forbidden_edges++; }
        }
    memset(&t, 0, sizeof t);
    t.type = OPEN; t.edge_to_branch = -1;
    copy_constraints(&t, &s);
    put_sub(&t, n);
    put(infer_constraints(&t));
    put_sub(&t, n);
}
/* the tour test on a 1-tree made of the given edges: verdict, then the cycle found */
void vb_hamiltonian(int n, int m, const int *e) {
    static SubProblem s;
    blank(&s);
    s.num_edges_in_cycle = 0;
    create_mst(&s.oneTree, P.graph.nodes, n);
    for (int k = 0; k < m; k++) add_edge(&s.oneTree, &P.graph.edges_matrix[e[2 * k]][e[2 * k + 1]]);
    put(check_hamiltonian(&s));
    put(s.num_edges_in_cycle);
    for (int i = 0; i < s.num_edges_in_cycle && i < MAX_VERTEX_NUM; i++) { put(s.cycleEdges[i].src); put(s.cycleEdges[i].dest); }
    put(s.oneTree.cost); put(s.oneTree.prob); put(s.oneTree.num_edges);
}
