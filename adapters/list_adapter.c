/* Drives a List of tagged values and a SubProblemsList with the same script. After every operation the full contents, read in four ways, are logged. */
#include "data_structures/b_and_b_data.h"
void vf_live(long *, long *);
void *get_current_list_iterator_element(ListIterator *iterator);
void list_iterator_next(ListIterator *iterator);
static double *lg; static long lg_n, lg_max;
static void put(double v) { if (lg_n < lg_max) lg[lg_n] = v; lg_n++; }
static int tags[80000];
#define CAP 90000
/* a list too long to be read by index throughout is sampled */
static size_t stride(size_t n) { return n > 2000 ? n / 8 : 1; }
static void dump(List *l, int style) {
    put(get_list_size(l)); put(is_list_empty(l));
    for (size_t i = 0; i < get_list_size(l); i += stride(get_list_size(l))) { int *p = get_list_elem_index(l, i); put(p ? *p : -1); }
    put(get_list_elem_index(l, get_list_size(l)) == NULL);
    ListIterator *it = create_list_iterator(l);
    long k = 0;
    if (style % 2) for (int *p; k < CAP && (p = list_iterator_get_next(it)); k++) put(*p);
    else for (; k < CAP && is_list_iterator_valid(it); k++) { int *p = get_current_list_iterator_element(it); put(p ? *p : -1); list_iterator_next(it); }
    put(-7);
    put(is_list_iterator_valid(it)); put(list_iterator_get_next(it) == NULL);
    delete_list_iterator(it);
    k = 0;
    for (DllElem *e = l->tail; e && k < CAP; e = e->prev, k++) put(*(int *) e->value);
    put(-7);
}
static void sdump(SubProblemsList *l) {
    put(get_SubProblemList_size(l)); put(is_SubProblemList_empty(l));
    for (size_t i = 0; i < get_SubProblemList_size(l); i += stride(get_SubProblemList_size(l))) { SubProblem *p = get_SubProblemList_elem_index(l, i); put(p ? p->id + 1e6 * p->mandatoryEdges[1].src : -1); }
    put(get_SubProblemList_elem_index(l, get_SubProblemList_size(l)) == NULL);
    SubProblemsListIterator *it = create_SubProblemList_iterator(l);
    long k = 0;
    for (SubProblem *p; k < CAP && is_SubProblemList_iterator_valid(it) && (p = SubProblemList_iterator_get_next(it)); k++) put(p->id + 1e6 * p->mandatoryEdges[1].src);
    put(-7);
    put(is_SubProblemList_iterator_valid(it)); put(SubProblemList_iterator_get_next(it) == NULL);
    delete_SubProblemList_iterator(it);
    k = 0;
    for (SubProblemElem *e = l->tail; e && k < CAP; e = e->prev, k++) put(e->subProblem.id + 1e6 * e->subProblem.mandatoryEdges[1].src);
    put(-7);
}
/* the first quiet operations are not followed by a reading; ops: kind, index; kinds 0 add bottom, 1 add at index, 2 delete bottom (List only), 3 delete at index */
void vl_run(int sub, long quiet, long nops, const long *ops, double *log, long max, long *used) {
    lg = log; lg_max = max; lg_n = 0;
    long b0, y0, b1, y1;
    vf_live(&b0, &y0);
    if (!sub) {
        List *l = new_list();
        dump(l, 0);
        for (long i = 0; i < nops; i++) {
            tags[i] = (int) i + 1;
            switch (ops[2 * i]) {
            case 0: add_elem_list_bottom(l, &tags[i]); break;
            case 1: add_elem_list_index(l, &tags[i], (size_t) ops[2 * i + 1]); break;
            case 2: delete_list_elem_bottom(l); break;
            default: delete_list_elem_index(l, (size_t) ops[2 * i + 1]);
            }
            if (i >= quiet) dump(l, (int) i);
        }
        add_elem_list_bottom(NULL, &tags[0]); add_elem_list_index(NULL, &tags[0], 0); delete_list_elem_bottom(NULL); delete_list_elem_index(NULL, 0); del_list(NULL);
        put(get_list_size(NULL)); put(is_list_empty(NULL)); put(get_list_elem_index(NULL, 0) == NULL); put(create_list_iterator(NULL) == NULL);
        del_list(l);
    } else {
        SubProblemsList l;
        static SubProblem s;
        new_SubProblemList(&l);
        sdump(&l);
        for (long i = 0; i < nops; i++) {
            memset(&s, 0, sizeof s);
            s.id = (unsigned) i + 1;
            s.mandatoryEdges[1].src = (unsigned short) (i % 7);
            switch (ops[2 * i]) {
            case 0: add_elem_SubProblemList_bottom(&l, &s); break;
            case 1: add_elem_SubProblemList_index(&l, &s, (size_t) ops[2 * i + 1]); break;
            case 2: break;
            default: delete_SubProblemList_elem_index(&l, (size_t) ops[2 * i + 1]);
            }
            if (i >= quiet) sdump(&l);
        }
        add_elem_SubProblemList_bottom(NULL, &s); add_elem_SubProblemList_index(NULL, &s, 0); delete_SubProblemList_elem_index(NULL, 0); delete_SubProblemList(NULL);
        put(get_SubProblemList_size(NULL)); put(is_SubProblemList_empty(NULL)); put(get_SubProblemList_elem_index(NULL, 0) == NULL); put(create_SubProblemList_iterator(NULL) == NULL);
        delete_SubProblemList(&l);
    }
    vf_live(&b1, &y1);
    put(b1 - b0);
    *used = lg_n;
}
