/* Executes container operations read from stdin, one event per operation: result and the whole observable state. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "trick/dllist.h"
#include "trick/lqueue.h"
#include "trick/lstack.h"
#include "trick/bst.h"
#include "trick/MapStrToPtr.h"
#define V(x) ((void*)(long)(x))
#define I(p) ((long)(p))
static DLLIST *list; static LQUEUE *q; static LSTACK *st; static BST *bst; static MapStrToPtr *map;
static DLLPOS node[4000]; static int nnode;      /* node number -> address (0: removed) */
static int id(DLLPOS p) { int i; if (!p) return 0; for (i = nnode; i > 0; i--) if (node[i] == p) return i; return -1; }
static int fresh(DLLPOS p) { node[++nnode] = p; return nnode; }
static int gt(void *a, void *b) { return I(a) > I(b); }
static int eq(void *a, void *b) { return I(a) == I(b); }
static int cmp(void *a, void *b) { return I(a) < I(b) ? -1 : I(a) > I(b); }
static char tb[100000]; static int tn;
static void visit(void *i) { tn += sprintf(tb + tn, "%s%ld", tn ? "," : "", I(i)); }
static long del[4000]; static int ndel;
static void deleted(void *i) { ndel++; }
static void state(void) {
    DLLPOS p; int k, first, guard;
    printf(",\"fwd\":[");
    for (p = DLL_GetHeadPosition(list), first = 1, guard = 0; p && guard < 5000; guard++) { int i = id(p); long v = I(DLL_GetNext(&p, list)); printf("%s[%d,%ld]", first ? "" : ",", i, v); first = 0; }
    printf("],\"bwd\":[");
    for (p = DLL_GetTailPosition(list), first = 1, guard = 0; p && guard < 5000; guard++) { int i = id(p); long v = I(DLL_GetPrev(&p, list)); printf("%s[%d,%ld]", first ? "" : ",", i, v); first = 0; }
    printf("],\"n\":%d}\n", DLL_GetCount(list));
}
int main(void) {
    char op[64], key[64]; long a, b, r;
    static char line[256];
    while (fgets(line, sizeof line, stdin)) {
        a = b = 0; key[0] = 0;
        if (sscanf(line, "%63s %ld %ld", op, &a, &b) < 1) continue;
        if (op[0] == 'm') { b = 0; sscanf(line, "%63s %63s %ld", op, key, &b); }
        if (!strcmp(op, "new")) {
            list = DLL_Create(); q = LQ_Create(); st = LS_Create(); bst = (BST *)calloc(1, sizeof(BST)); bstInit(bst);
            bstSetCompareFunc(bst, cmp); bstSetTraverseFunc(bst, visit); bstSetDeleteFunc(bst, deleted);
            map = SM_Create(a); nnode = 0; printf("{\"e\":\"new\"}\n"); fflush(stdout); continue;
        }
        DLLPOS p = (a > 0 && a <= nnode) ? node[a] : NULL;
        const char *o = op; int seq = 1; r = 0;
        if (!strcmp(o, "addhead")) r = fresh(DLL_AddHead(V(a), list));
        else if (!strcmp(o, "addtail")) r = fresh(DLL_AddTail(V(a), list));
        else if (!strcmp(o, "before")) r = fresh(DLL_InsertBefore(p, V(b), list));
        else if (!strcmp(o, "after")) r = fresh(DLL_InsertAfter(p, V(b), list));
        else if (!strcmp(o, "remove")) { r = I(DLL_RemoveAt(p, list)); node[a] = NULL; }
        else if (!strcmp(o, "clear")) { DLL_RemoveAll(list); memset(node, 0, sizeof node); }
        else if (!strcmp(o, "getat")) r = I(DLL_GetAt(p, list));
        else if (!strcmp(o, "setat")) r = I(DLL_SetAt(p, V(b), list));
        else if (!strcmp(o, "findpos")) r = id(DLL_FindPos(V(a), list));
        else if (!strcmp(o, "find")) { list->compare = eq; r = I(DLL_Find(V(a), list)); list->compare = NULL; }
        else if (!strcmp(o, "index")) r = id(DLL_FindIndex(a, list));
        else if (!strcmp(o, "sort")) { list->compare = gt; bubble_sort(list); list->compare = NULL; }
        else seq = 0;
        if (seq) { printf("{\"e\":\"op\",\"o\":\"%s\",\"a\":%ld,\"b\":%ld,\"r\":%ld", o, a, b, r); state(); fflush(stdout); continue; }
        long n = 0; tn = 0; tb[0] = 0;
        if (!strcmp(o, "enq")) { LQ_EnQ(V(a), q); n = LQ_GetCount(q); }
        else if (!strcmp(o, "deq")) { r = I(LQ_DeQ(q)); n = LQ_GetCount(q); }
        else if (!strcmp(o, "qpeek")) { r = I(LQ_Peek(q)); n = LQ_GetCount(q); }
        else if (!strcmp(o, "push")) { LS_Push(V(a), st); n = LS_GetCount(st); }
        else if (!strcmp(o, "pop")) { r = I(LS_Pop(st)); n = LS_GetCount(st); }
        else if (!strcmp(o, "speek")) { r = I(LS_Peek(st)); n = LS_GetCount(st); }
        else if (!strcmp(o, "bins")) { bstInsert(V(a), bst); n = bstGetCount(bst); bstTraverseTree(bst); }
        else if (!strcmp(o, "bdel")) { bstNode *x = bstFind(V(a), bst); if (x) r = I(bstDelete(x, bst)); n = bstGetCount(bst); bstTraverseTree(bst); }
        else if (!strcmp(o, "bfind")) { bstNode *x = bstFind(V(a), bst); r = x ? I(bstGetInfo(x)) : 0; n = bstGetCount(bst); bstTraverseTree(bst); }
        else if (!strcmp(o, "bclear")) { ndel = 0; bstDeleteTree(bst); r = ndel; n = bstGetCount(bst); bstTraverseTree(bst); }
        else if (!strcmp(o, "mput")) { r = I(SM_Map(key, V(b), map)); n = map->m_Count; }
        else if (!strcmp(o, "mget")) { r = I(SM_Lookup(key, map)); n = map->m_Count; }
        else if (!strcmp(o, "mdel")) { r = I(SM_RemoveKey(key, map)); n = map->m_Count; }
        else if (!strcmp(o, "miter")) {
            StrMapIterator *it = SMI_Create(map); char *k = NULL; void *d; int g = 0;
            static struct { char k[64]; long v; } seen[4000]; int i, ns = 0;
            for (d = SMI_GetFirst(&k, it); d && g < 3000; d = SMI_GetNext(&k, it), g++) { strcpy(seen[ns].k, k); seen[ns++].v = I(d); }
            printf("{\"e\":\"iter\",\"fwd\":[");
            for (i = 0; i < ns; i++) printf("%s[\"%s\",%ld]", i ? "," : "", seen[i].k, seen[i].v);
            printf("],\"bwd\":[");
            /* back from the last element */
            if (ns) {
                SMI_GetFirst(&k, it); for (i = 1; i < ns; i++) SMI_GetNext(&k, it);
                for (i = 0, d = SMI_GetPrev(&k, it); d && i < 3000; d = SMI_GetPrev(&k, it), i++) printf("%s[\"%s\",%ld]", i ? "," : "", k, I(d));
            }
            printf("],\"n\":%d}\n", map->m_Count); fflush(stdout); SMI_Delete(it); continue;
        }
        printf("{\"e\":\"op\",\"o\":\"%s\",\"a\":%ld,\"b\":%ld,\"r\":%ld,\"n\":%ld,\"k\":\"%s\",\"in\":[%s]}\n", o, a, b, r, n, key, tb); fflush(stdout);
    }
    printf("{\"e\":\"end\"}\n");
    return 0;
}
