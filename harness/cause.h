/* cause.h - what is wrong with a proof, worked out from its bytes independently of the library: the error a failed
   verification reports must be one of the things that are wrong (in whatever order they are looked for) */
static unsigned cz_(unsigned v, const char *nm) { (void)nm; return (unsigned)sx_concretize(v); }
static int getsize(const unsigned char *p, size_t n, size_t *o, unsigned *size) { /* 1: malformed */
  unsigned s; if (*o >= n) return 1;
  s = p[(*o)++]; if (s & 0x80) { if (*o >= n) return 1; s = (s & 0x7f) << 8 | p[(*o)++]; if (s < 0x80) return 1; }
  if (s == 0 || s > 256) return 1;
  if (*o + (s + 7) / 8 > n) return 1;
  *size = cz_(s, "prefix"); return 0;
}
static void check_cause(const unsigned char *p, size_t n, const unsigned char *q, const unsigned char *root, int err) {
  static struct { unsigned size; const unsigned char *bits, *hash; } nd[260]; unsigned type, depth, cnt, i, j, sum = 0, neg = 0, tsz = 0, vsz = 0, miss = 0, bad = 0, pos, same; size_t o; const unsigned char *t = NULL, *tb = NULL; unsigned char h[32], pre[100]; static unsigned char leafpre[1100];
  if (n < 4) { sx_assert(err == URKEL_EINVAL, "a proof with missing bytes is invalid"); return; }
  depth = p[0] | (p[1] & 0x3f) << 8; cnt = p[2] | p[3] << 8;
  if (depth > 256 || cnt > 256) { sx_assert(err == URKEL_EINVAL, "a proof with an impossible depth or count is invalid"); return; }
  if (4 + (cnt + 7) / 8 + cnt * 32 > n) { sx_assert(err == URKEL_EINVAL, "a proof with missing nodes is invalid"); return; }
  type = cz_(p[1] >> 6, "type"); cnt = cz_(cnt, "count"); o = 4 + (cnt + 7) / 8; /* depth stays symbolic */
  for (i = 0; i < cnt && !bad; i++) {
    nd[i].size = 0; nd[i].bits = NULL;
    if (cz_(p[4 + i / 8] >> (7 - i % 8) & 1, "has prefix")) {
      if (o >= n) { bad = 1; break; }
      if (getsize(p, n, &o, &nd[i].size)) { bad = 1; break; }
      nd[i].bits = p + o; o += (nd[i].size + 7) / 8;
    }
    nd[i].hash = p + o; o += 32; bad = o > n; sum += nd[i].size + 1;
  }
  if (!bad) {
    if (type == 1) {
      { if (getsize(p, n, &o, &tsz)) bad = 1; else { tb = p + o; o += (tsz + 7) / 8; t = p + o; o += 64; } }
    } else if (type == 2) { t = p + o; o += 64; }
    else if (type == 3) { if (o + 2 > n) bad = 1; else { vsz = p[o] | p[o + 1] << 8; o += 2; t = p + o; if (o + vsz != n || vsz > 1023) bad = 1; else { vsz = cz_(vsz, "value size"); o = n; } } }
    if (o != n) bad = 1;
  }
  if (bad) { sx_assert(err == URKEL_EINVAL, "a proof that cannot be parsed is invalid"); sx_reach("malformed"); return; }
  sx_reach("well formed");
  switch (err) {
    case URKEL_EINVAL: sx_assert(type == 1 && depth + tsz > 256, "only a malformed proof is invalid"); return;
    case URKEL_ESAMEKEY: sx_assert(type == 2 && sx_eq(t, q, 32), "ESAMEKEY means that the proof of absence is for the key itself"); return;
    case URKEL_ESAMEPATH: depth = cz_(depth, "depth"); same = type == 1; for (j = 0; same && j < tsz; j++) same &= depth + j < 256 && bit_(tb, j) == bit_(q, depth + j); sx_assert(same, "ESAMEPATH means that the key follows the path that is said to be cut short"); return;
    case URKEL_ENEGDEPTH: sx_assert(sum > depth, "ENEGDEPTH means that the path is longer than the stated depth"); return;
    case URKEL_ETOODEEP: sx_assert(sum < depth, "ETOODEEP means that the path is shorter than the stated depth"); return;
    case URKEL_EPATHMISMATCH: depth = cz_(depth, "depth"); pos = depth; for (i = cnt; i-- && !neg;) { if (pos < nd[i].size + 1) { neg = 1; break; } pos -= nd[i].size + 1; for (j = 0; j < nd[i].size; j++) miss |= bit_(nd[i].bits, j) != bit_(q, pos + j); } sx_assert(miss, "EPATHMISMATCH means that a prefix on the path is not the key's"); return;
    case URKEL_EHASHMISMATCH: if (sum != depth) { sx_assert(0, "a path of the wrong length is reported as such"); return; } depth = sum; break;
    default: sx_fail("an undocumented verification error"); return;
  }
  /* EHASHMISMATCH: the proof does not lead to the root */
  if (type == 0) memset(h, 0, 32);
  else if (type == 1) { size_t m = 0; pre[m++] = 2; pre[m++] = tsz & 255; pre[m++] = tsz >> 8; for (i = 0; i < (tsz + 7) / 8; i++) pre[m++] = tb[i]; { static unsigned char big[110]; memcpy(big, pre, m); memcpy(big + m, t, 64); m_hash(h, big, m + 64); } }
  else { leafpre[0] = 0; memcpy(leafpre + 1, type == 2 ? t : q, 32); if (type == 2) memcpy(leafpre + 33, t + 32, 32); else m_hash(leafpre + 33, t, vsz); m_hash(h, leafpre, 65); }
  for (pos = depth, i = cnt; i--;) { size_t m = 0; static unsigned char b[140]; unsigned right; pos--; right = bit_(q, pos);
    if (nd[i].size == 0) b[m++] = 1; else { b[m++] = 2; b[m++] = nd[i].size & 255; b[m++] = nd[i].size >> 8; for (j = 0; j < (nd[i].size + 7) / 8; j++) b[m++] = nd[i].bits[j]; }
    for (j = 0; j < 32; j++) { b[m + j] = right ? nd[i].hash[j] : h[j]; b[m + 32 + j] = right ? h[j] : nd[i].hash[j]; } m_hash(h, b, m + 64); pos -= nd[i].size; }
  sx_assert(!sx_eq(h, root, 32), "EHASHMISMATCH means that the proof does not lead to the root");
}
