// Stand-in for graphviz: checks its input can be read and writes an output file that holds what was to be drawn.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int c, char **v) {
  const char *in = 0, *out = 0;
  for (int i = 1; i < c; i++) {
    if (!strcmp(v[i], "-o") && i + 1 < c) out = v[++i];
    else if (v[i][0] != '-') in = v[i];
  }
  if (!in) return 1;
  FILE *f = fopen(in, "r");
  if (!f) return 1;
  size_t n = 0, cap = 1 << 16, k; int last = 0;
  char *b = malloc(cap);
  while (b && (k = fread(b + n, 1, cap - n, f)) > 0) {
    n += k;
    if (n == cap) b = realloc(b, cap *= 2);
  }
  fclose(f);
  if (!b) return 1;
  for (size_t i = 0; i < n; i++) if (b[i] > 32) last = b[i];
  if (out) {
    FILE *o = fopen(out, "w");
    if (!o) return 1;
    fprintf(o, "drawn from %zu bytes\n", n);
    fwrite(b, 1, n, o);
    if (fclose(o)) return 1;
  }
  return last == '}' ? 0 : 1;
}
