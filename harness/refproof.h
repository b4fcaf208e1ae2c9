/* refproof.h - the proof format written out independently of the library */
static size_t rp_bits(unsigned char *o, const unsigned char *key, int from, int n) {
  size_t p = 0; int i;
  if (n >= 128) o[p++] = 0x80 | (n >> 8);
  o[p++] = n & 255;
  for (i = 0; i < (n + 7) / 8; i++) o[p + i] = 0;
  for (i = 0; i < n; i++) o[p + i / 8] |= bit_(key, from + i) << (7 - i % 8);
  return p + (n + 7) / 8;
}
static size_t ref_proof(unsigned char *out, const struct rmap *m, const unsigned char *key) {
  struct rent cur[16]; int n = m->n, depth = 0, cnt = 0, i, type; size_t p = 0, q; static unsigned char nodes[16 * 80], tail[1200]; int has[16]; size_t np = 0, tp = 0;
  memcpy(cur, m->e, sizeof(struct rent) * n);
  for (;;) {
    if (n == 0) { type = 0; break; }
    if (n == 1) {
      if (sx_eq(cur[0].key, key, 32)) { type = 3; tail[tp++] = cur[0].len & 255; tail[tp++] = cur[0].len >> 8; if (cur[0].len) memcpy(tail + tp, cur[0].val, cur[0].len); tp += cur[0].len; }
      else { type = 2; memcpy(tail, cur[0].key, 32); m_hash(tail + 32, cur[0].val, cur[0].len); tp = 64; }
      break;
    } else {
      int d, match = 1, na = 0, nb = 0; struct rent a[16], b[16];
      for (d = depth; d < 256; d++) { int same = 1; for (i = 1; i < n; i++) if (bit_(cur[i].key, d) != bit_(cur[0].key, d)) { same = 0; break; } if (!same) break; }
      for (i = depth; i < d; i++) if (bit_(key, i) != bit_(cur[0].key, i)) { match = 0; break; }
      for (i = 0; i < n; i++) if (bit_(cur[i].key, d)) b[nb++] = cur[i]; else a[na++] = cur[i];
      if (!match) { type = 1; tp = rp_bits(tail, cur[0].key, depth, d - depth); ref_node(tail + tp, a, na, d + 1); ref_node(tail + tp + 32, b, nb, d + 1); tp += 64; break; }
      has[cnt] = d > depth; if (d > depth) np += rp_bits(nodes + np, cur[0].key, depth, d - depth);
      if (bit_(key, d)) { ref_node(nodes + np, a, na, d + 1); memcpy(cur, b, sizeof(struct rent) * nb); n = nb; }
      else { ref_node(nodes + np, b, nb, d + 1); memcpy(cur, a, sizeof(struct rent) * na); n = na; }
      np += 32; cnt++; depth = d + 1;
    }
  }
  out[p++] = depth & 255; out[p++] = (type << 6) | (depth >> 8); out[p++] = cnt & 255; out[p++] = cnt >> 8;
  q = p; for (i = 0; i < (cnt + 7) / 8; i++) out[p++] = 0;
  for (i = 0; i < cnt; i++) if (has[i]) out[q + i / 8] |= 0x80 >> (i % 8);
  memcpy(out + p, nodes, np); p += np; memcpy(out + p, tail, tp); p += tp;
  if (type == 0) sx_reach("deadend"); else if (type == 1) sx_reach("short"); else if (type == 2) sx_reach("collision"); else sx_reach("exists");
  return p;
}
