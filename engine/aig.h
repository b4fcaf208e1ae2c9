// aig.h - hash-consed AND/XOR graph, the bit-level expression language of usym.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <unordered_map>
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8; typedef int64_t i64;
typedef u32 Lit;                       // node<<1 | negated
static const Lit L0 = 0, L1 = 1;       // constants
enum { NT_CONST, NT_VAR, NT_AND, NT_XOR };
struct Node { Lit a, b; u8 type, taint; };
struct Aig {
  std::vector<Node> n;
  std::vector<u32> vars;               // node index of each input
  std::vector<u32> tab; u64 cnt = 0;
  Aig() { n.push_back({0, 0, NT_CONST, 0}); tab.assign(1 << 16, 0); }
  static u64 h(Lit a, Lit b, u8 t) {
    u64 x = ((u64)a << 32 | b) * 0x9E3779B97F4A7C15ull + t * 0xD1B54A32D192ED03ull;
    return x ^ (x >> 29);
  }
  void grow() {
    std::vector<u32> t2(tab.size() * 2, 0);
    u64 m = t2.size() - 1;
    for (u32 x : tab) if (x) {
      u64 k = h(n[x].a, n[x].b, n[x].type) & m;
      while (t2[k]) k = (k + 1) & m;
      t2[k] = x;
    }
    tab.swap(t2);
  }
  Lit mk(Lit a, Lit b, u8 t) {
    if (cnt * 2 > tab.size()) grow();
    u64 m = tab.size() - 1, k = h(a, b, t) & m;
    while (tab[k]) {
      Node &q = n[tab[k]];
      if (q.a == a && q.b == b && q.type == t) return tab[k] << 1;
      k = (k + 1) & m;
    }
    u32 id = n.size();
    n.push_back({a, b, t, (u8)(n[a >> 1].taint | n[b >> 1].taint)});
    tab[k] = id; cnt++;
    return id << 1;
  }
  Lit var(bool taint = false) {
    u32 id = n.size();
    n.push_back({(Lit)vars.size(), 0, NT_VAR, (u8)taint});
    vars.push_back(id);
    return id << 1;
  }
  bool isAnd(Lit l) const { return n[l >> 1].type == NT_AND; }
  bool isXor(Lit l) const { return n[l >> 1].type == NT_XOR; }
  Lit And(Lit a, Lit b) {
    if (a == b) return a;
    if (a == (b ^ 1)) return L0;
    if (a == L0 || b == L0) return L0;
    if (a == L1) return b;
    if (b == L1) return a;
    // one-level look-through
    for (int k = 0; k < 2; k++) {
      if (isAnd(b)) {
        const Node &q = n[b >> 1];
        if (!(b & 1)) {
          if (q.a == a || q.b == a) return b;
          if (q.a == (a ^ 1) || q.b == (a ^ 1)) return L0;
        } else {
          if (q.a == (a ^ 1) || q.b == (a ^ 1)) return a;
          if (q.a == a) return And(a, q.b ^ 1);
          if (q.b == a) return And(a, q.a ^ 1);
        }
      }
      Lit t = a; a = b; b = t;
    }
    if (a > b) { Lit t = a; a = b; b = t; }
    return mk(a, b, NT_AND);
  }
  Lit Or(Lit a, Lit b) { return And(a ^ 1, b ^ 1) ^ 1; }
  Lit Xor(Lit a, Lit b) {
    Lit s = (a ^ b) & 1; a &= ~1u; b &= ~1u;
    if (a == b) return s;
    if (a == L0) return b ^ s;
    if (b == L0) return a ^ s;
    if (isXor(a)) { const Node &q = n[a >> 1]; if (q.a == b) return q.b ^ s; if (q.b == b) return q.a ^ s; }
    if (isXor(b)) { const Node &q = n[b >> 1]; if (q.a == a) return q.b ^ s; if (q.b == a) return q.a ^ s; }
    if (a > b) { Lit t = a; a = b; b = t; }
    return mk(a, b, NT_XOR) ^ s;
  }
  Lit Mux(Lit c, Lit t, Lit e) {
    if (t == e) return t;
    if (c == L1) return t;
    if (c == L0) return e;
    if (t == (e ^ 1)) return Xor(c, e);
    return Or(And(c, t), And(c ^ 1, e));
  }
};
