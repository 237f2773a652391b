/* Executes collect operations read from stdin over several collectors; after each, all collectors. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "trick/collect_macros.h"
#include "trick/collect_proto.hh"
int main() {
    static char line[256], op[64]; static void **col[5]; int c; long x;
    while (fgets(line, sizeof line, stdin)) {
        c = 0; x = 0;
        if (sscanf(line, "%63s %d %ld", op, &c, &x) < 1) continue;
        if (!strcmp(op, "new")) { memset(col, 0, sizeof col); printf("{\"e\":\"new\"}\n"); fflush(stdout); continue; }
        if (!strcmp(op, "collect")) col[c] = add_collect(col[c], (void *)x); else col[c] = delete_collect(col[c], (void *)x);
        printf("{\"e\":\"col\",\"o\":\"%s\",\"c\":%d,\"x\":%ld,\"all\":[", op, c, x);
        for (int i = 1; i < 5; i++) {
            long n = NUM_COLLECT(col[i]);
            printf("%s{\"n\":%ld,\"s\":[", i > 1 ? "," : "", n);
            for (long k = 0; k < n; k++) printf("%s%ld", k ? "," : "", (long)col[i][k]);
            printf("]}");
        }
        printf("]}\n"); fflush(stdout);
    }
    printf("{\"e\":\"end\"}\n");
}
