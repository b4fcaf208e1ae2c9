// sat.h - incremental CDCL over AIG nodes (var == node index), assumption based.
#pragma once
#include "aig.h"
#include <algorithm>
#include <cmath>
struct Sat {
  Aig &g;
  struct W { u32 c; Lit bl; };
  std::vector<u32> A;                    // clause arena: [size<<1|learnt][lits...]
  std::vector<std::vector<W>> wl;        // watches by literal
  std::vector<signed char> val;          // by literal: 1 true, -1 false, 0 unassigned
  std::vector<int> lev; std::vector<u32> why;
  std::vector<u8> phase, enc, seen; std::vector<u32> mark;
  std::vector<double> act; std::vector<int> hpos; std::vector<u32> heap;
  std::vector<Lit> trail; std::vector<int> lims; size_t qh = 0;
  std::vector<u32> learnts; double inc = 1; u32 era = 1;
  std::vector<Lit> asum;                 // current assumption literals (levels 1..)
  u64 conflicts = 0, nlearnt = 0; bool ok = true;
  double (*clock)() = nullptr; double deadline = 0;   // give up after this time
  Sat(Aig &g_) : g(g_) { A.push_back(0); ensure(); val[1] = 1; val[0] = -1; lev[0] = 0; enc[0] = 1; }
  void ensure() {
    size_t n = g.n.size();
    if (lev.size() >= n) return;
    size_t o = lev.size();
    n = std::max(n, o * 3 / 2 + 1024);
    wl.resize(2 * n); val.resize(2 * n, 0); lev.resize(n, 0); why.resize(n, 0);
    phase.resize(n, 0); enc.resize(n, 0); seen.resize(n, 0); mark.resize(n, 0);
    act.resize(n, 0); hpos.resize(n, -1);
  }
  // ---- heap
  bool lt(u32 a, u32 b) { return act[a] > act[b]; }
  void up(int i) { u32 x = heap[i]; while (i > 0) { int p = (i - 1) / 2; if (!lt(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
  void down(int i) { u32 x = heap[i]; int n = heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && lt(heap[c + 1], heap[c])) c++; if (!lt(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void hins(u32 v) { if (hpos[v] >= 0) return; heap.push_back(v); hpos[v] = heap.size() - 1; up(hpos[v]); }
  u32 hpop() { u32 r = heap[0]; hpos[r] = -1; u32 x = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = x; hpos[x] = 0; down(0); } return r; }
  void bump(u32 v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
  int level() { return lims.size(); }
  void enq(Lit l, u32 r) { val[l] = 1; val[l ^ 1] = -1; lev[l >> 1] = level(); why[l >> 1] = r; trail.push_back(l); }
  void cancel(int lv) {
    if (level() <= lv) return;
    int b = lims[lv];
    for (int i = trail.size() - 1; i >= b; i--) {
      Lit l = trail[i]; val[l] = val[l ^ 1] = 0; phase[l >> 1] = !(l & 1);
      if (mark[l >> 1] == era) hins(l >> 1);
    }
    trail.resize(b); lims.resize(lv); qh = std::min(qh, (size_t)b);
    if ((int)asum.size() > lv) asum.resize(lv);
  }
  u32 alloc(const Lit *c, int n, bool learnt) { u32 r = A.size(); A.push_back(n << 1 | learnt); A.insert(A.end(), c, c + n); return r; }
  void attach(u32 c) { Lit *l = &A[c + 1]; wl[l[0] ^ 1].push_back({c, l[1]}); wl[l[1] ^ 1].push_back({c, l[0]}); }
  // add a definitional clause under the current trail
  void add(Lit *c, int n) {
    // order: true/unassigned first, then false by decreasing level
    auto key = [&](Lit l) { return val[l] >= 0 ? 1 << 30 : lev[l >> 1]; };
    for (int i = 1; i < n; i++) for (int j = i; j > 0 && key(c[j]) > key(c[j - 1]); j--) std::swap(c[j], c[j - 1]);
    if (n == 1) { cancel(0); if (val[c[0]] == 0) enq(c[0], 0); else if (val[c[0]] < 0) ok = false; return; }
    if (val[c[0]] < 0) { // all false: back up below the highest level
      int hl = lev[c[0] >> 1]; if (hl == 0) { ok = false; return; } cancel(hl - 1); add(c, n); return;
    }
    u32 r = alloc(c, n, false); attach(r);
    if (val[c[1]] < 0 && val[c[0]] == 0) { cancel(lev[c[1] >> 1]); enq(c[0], r); }
  }
  void c2(Lit a, Lit b) { Lit c[2] = {a, b}; add(c, 2); }
  void c3(Lit a, Lit b, Lit d) { Lit c[3] = {a, b, d}; add(c, 3); }
  std::vector<u32> st;
  void encode(Lit root) {
    ensure();
    st.clear(); st.push_back(root >> 1);
    while (!st.empty()) {
      u32 v = st.back(); 
      if (mark[v] == era && enc[v]) { st.pop_back(); continue; }
      const Node q = g.n[v];
      if (q.type == NT_AND || q.type == NT_XOR) {
        if (mark[v] != era) { mark[v] = era; if (val[v << 1] == 0) hins(v); st.push_back(q.a >> 1); st.push_back(q.b >> 1); continue; }
        st.pop_back();
        if (enc[v]) continue;
        enc[v] = 1; Lit x = v << 1, a = q.a, b = q.b;
        if (q.type == NT_AND) { c2(x ^ 1, a); c2(x ^ 1, b); c3(x, a ^ 1, b ^ 1); }
        else { c3(x ^ 1, a, b); c3(x ^ 1, a ^ 1, b ^ 1); c3(x, a ^ 1, b); c3(x, a, b ^ 1); }
      } else { enc[v] = 1; if (mark[v] != era) { mark[v] = era; if (v && val[v << 1] == 0) hins(v); } st.pop_back(); }
    }
  }
  u32 propagate() {
    while (qh < trail.size()) {
      Lit p = trail[qh++]; auto &ws = wl[p]; size_t i = 0, j = 0, n = ws.size();
      while (i < n) {
        W w = ws[i];
        if (val[w.bl] > 0) { ws[j++] = ws[i++]; continue; }
        Lit *c = &A[w.c + 1]; int sz = A[w.c] >> 1; Lit np = p ^ 1;
        if (c[0] == np) { c[0] = c[1]; c[1] = np; }
        i++;
        if (val[c[0]] > 0) { ws[j++] = {w.c, c[0]}; continue; }
        bool f = false;
        for (int k = 2; k < sz; k++) if (val[c[k]] >= 0) { c[1] = c[k]; c[k] = np; wl[c[1] ^ 1].push_back({w.c, c[0]}); f = true; break; }
        if (f) continue;
        ws[j++] = {w.c, c[0]};
        if (val[c[0]] < 0) { while (i < n) ws[j++] = ws[i++]; ws.resize(j); qh = trail.size(); return w.c; }
        enq(c[0], w.c);
      }
      ws.resize(j);
    }
    return 0;
  }
  std::vector<Lit> lc;
  int analyze(u32 cf) {
    lc.clear(); lc.push_back(0); int cnt = 0, idx = trail.size() - 1; Lit p = 0; bool first = true; int bt = 0;
    std::vector<u32> clr;
    do {
      Lit *c = &A[cf + 1]; int sz = A[cf] >> 1;
      for (int k = 0; k < sz; k++) {
        Lit q = c[k]; if (!first && q == p) continue;
        u32 v = q >> 1;
        if (!seen[v] && lev[v] > 0) {
          seen[v] = 1; clr.push_back(v); bump(v);
          if (lev[v] >= level()) cnt++; else { lc.push_back(q); bt = std::max(bt, lev[v]); }
        }
      }
      while (!seen[trail[idx] >> 1]) idx--;
      p = trail[idx]; idx--; cf = why[p >> 1]; seen[p >> 1] = 0; cnt--; first = false;
    } while (cnt > 0);
    lc[0] = p ^ 1;
    for (u32 v : clr) seen[v] = 0;
    if (lc.size() > 1) { size_t m = 1; for (size_t k = 2; k < lc.size(); k++) if (lev[lc[k] >> 1] > lev[lc[m] >> 1]) m = k; std::swap(lc[1], lc[m]); }
    return bt;
  }
  void reduce() {
    // drop old long learnt clauses; only called at level 0
    std::vector<u32> keep; size_t n = learnts.size();
    std::vector<u8> dead; 
    std::vector<u32> rm;
    for (size_t i = 0; i < n; i++) { u32 c = learnts[i]; if (i < n / 2 && (A[c] >> 1) > 3) rm.push_back(c); else keep.push_back(c); }
    std::sort(rm.begin(), rm.end());
    for (auto &w : wl) { size_t j = 0; for (auto &x : w) if (!std::binary_search(rm.begin(), rm.end(), x.c)) w[j++] = x; w.resize(j); }
    for (u32 l : trail) why[l >> 1] = 0;
    learnts.swap(keep);
  }
  void newEra() { era++; for (u32 v : heap) hpos[v] = -1; heap.clear(); }
  // budget: max conflicts; returns 1 sat, 0 unsat, -1 unknown
  int solve(const std::vector<Lit> &as, u64 budget) {
    ensure(); if (!ok) return 0;
    size_t k = 0; while (k < asum.size() && k < as.size() && asum[k] == as[k]) k++;
    cancel(k);
    for (Lit l : as) encode(l);
    u64 left = budget, rst = 100, rc = 0, ticks = 0;
    if (learnts.size() > 20000) { cancel(0); reduce(); }
    for (;;) {
      if ((++ticks & 511) == 0 && clock && deadline && clock() > deadline) return -1;
      if (!ok) return 0;
      u32 cf = propagate();
      if (cf) {
        conflicts++; rc++;
        if (level() == 0) { ok = false; return 0; }
        int bt = analyze(cf);
        // conflict entirely inside assumptions is detected when re-asserting them
        cancel(bt);
        if (lc.size() == 1) { cancel(0); if (val[lc[0]] < 0) { ok = false; return 0; } if (!val[lc[0]]) enq(lc[0], 0); }
        else { u32 r = alloc(lc.data(), lc.size(), true); learnts.push_back(r); attach(r); enq(lc[0], r); }
        inc /= 0.95;
        if (--left == 0) return -1;
        continue;
      }
      if (rc >= rst) { rc = 0; rst = rst * 11 / 10; cancel(std::min((int)as.size(), level())); }
      // assumptions, one per level
      if (level() < (int)as.size()) {
        Lit p = as[level()];
        if (val[p] < 0) return 0;
        lims.push_back(trail.size()); asum.push_back(p);
        if (val[p] == 0) enq(p, 0);
        continue;
      }
      u32 v = 0; bool got = false;
      while (!heap.empty()) { v = hpop(); if (val[v << 1] == 0) { got = true; break; } }
      if (!got) return 1;
      lims.push_back(trail.size());
      enq(v << 1 | (phase[v] ? 0 : 1), 0);
    }
  }
  bool model(u32 node) { return val[node << 1] > 0 || (val[node << 1] == 0 && phase[node]); }
};
