// Compiled in place of SAPPOROBDD/bddc.cc: includes the unmodified file, so that
// the node tables (static in that file) can be audited from outside, and adds C
// entry points which the monitors call through ctypes.
#include VF_BDDC
#include <stdint.h>
#include <stdarg.h>
#include <vector>
#include <map>
#include <string>

namespace {
std::string message;

bool say(const char* fmt, ...) {
  char b[400];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  message = b;
  return false;
}

inline bool used(bddp ix) { return Node[ix].varrfc != 0; }

// the reference counter of a node, wherever it is kept
bool counter(bddp ix, std::map<bddp, bddp> const& over, unsigned long long* n) {
  struct B_NodeTable* np = Node + ix;
  if (np->varrfc < B_RFC_MASK) {
    *n = B_RFC_NP(np);
    return true;
  }
  std::map<bddp, bddp>::const_iterator i = over.find(ix);
  if (i == over.end()) return say("node %llu: its counter is full but the overflow table does not list it", (unsigned long long)ix);
  *n = B_RFC_NP(np) + (unsigned long long)i->second;
  return true;
}

bool child(bddp ix, bddp f, int b, std::vector<unsigned>& refs) {
  if (B_CST(f)) {
    if (f != bddfalse && f != bddtrue) return say("node %llu: its %d-edge is the constant %llx", (unsigned long long)ix, b, (unsigned long long)f);
    return true;
  }
  bddp c = B_NDX(f);
  if (c >= NodeSpc) return say("node %llu: its %d-edge leads outside the table", (unsigned long long)ix, b);
  if (!used(c)) return say("node %llu: its %d-edge leads to the free node %llu", (unsigned long long)ix, b, (unsigned long long)c);
  bddvar v = B_VAR_NP(Node + ix), w = B_VAR_NP(Node + c);
  if (Var[w].lev >= Var[v].lev)
    return say("node %llu of level %u: its %d-edge leads to level %u", (unsigned long long)ix, (unsigned)Var[v].lev, b, (unsigned)Var[w].lev);
  refs[c]++;
  return true;
}

bool audit_all(unsigned long long* external, unsigned long long* dead) {
  *external = *dead = 0;
  std::vector<char> mark(NodeSpc, 0);
  // the free list
  bddp nfree = 0;
  for (bddp ix = Avail; ix != bddnull; ix = B_GET_BDDP(Node[ix].nx)) {
    if (ix >= NodeSpc) return say("the free list leaves the table (%llu)", (unsigned long long)ix);
    if (used(ix)) return say("the free list contains the used node %llu", (unsigned long long)ix);
    if (mark[ix]) return say("the free list runs in a circle at %llu", (unsigned long long)ix);
    mark[ix] = 1;
    nfree++;
  }
  if (nfree + NodeUsed != NodeSpc)
    return say("%llu free and %llu used nodes in a table of %llu", (unsigned long long)nfree, (unsigned long long)NodeUsed, (unsigned long long)NodeSpc);
  // variables and levels
  for (bddvar v = 1; v <= VarUsed; v++)
    if (Var[v].lev < 1 || Var[v].lev > VarUsed || VarID[Var[v].lev] != v) return say("variable %u has level %u, whose variable is another", (unsigned)v, (unsigned)Var[v].lev);
  // the unique tables
  bddp listed = 0;
  for (bddvar v = 1; v <= VarUsed; v++) {
    struct B_VarTable* vp = &Var[v];
    bddp n = 0;
    if (vp->hashSpc & (vp->hashSpc - 1)) return say("variable %u: the size of its table is %llu", (unsigned)v, (unsigned long long)vp->hashSpc);
    for (bddp i = 0; i < vp->hashSpc; i++) {
      bddp_32* p_32;
      bddp_h8* p_h8;
      B_SET_NXP(p, vp->hash, i);
      std::map<std::pair<bddp, bddp>, bddp> seen;
      for (bddp ix = B_GET_BDDP(*p); ix != bddnull; ix = B_GET_BDDP(Node[ix].nx)) {
        if (ix >= NodeSpc) return say("variable %u: a chain leaves the table", (unsigned)v);
        if (mark[ix]) return say("variable %u: node %llu is listed twice, or free", (unsigned)v, (unsigned long long)ix);
        mark[ix] = 2;
        if (!used(ix)) return say("variable %u: the free node %llu is listed", (unsigned)v, (unsigned long long)ix);
        if (B_VAR_NP(Node + ix) != v) return say("variable %u: node %llu of variable %u is listed", (unsigned)v, (unsigned long long)ix, (unsigned)B_VAR_NP(Node + ix));
        bddp f0 = B_GET_BDDP(Node[ix].f0), f1 = B_GET_BDDP(Node[ix].f1);
        if (B_HASHKEY(f0, f1, vp->hashSpc) != i) return say("variable %u: node %llu is in the wrong chain", (unsigned)v, (unsigned long long)ix);
        if (!seen.insert(std::make_pair(std::make_pair(f0, f1), ix)).second)
          return say("variable %u: node %llu is a duplicate", (unsigned)v, (unsigned long long)ix);
        n++;
      }
    }
    if (n != vp->hashUsed) return say("variable %u: %llu nodes are listed, %llu counted", (unsigned)v, (unsigned long long)n, (unsigned long long)vp->hashUsed);
    listed += n;
  }
  if (listed != NodeUsed) return say("%llu nodes are listed, %llu are used", (unsigned long long)listed, (unsigned long long)NodeUsed);
  // overflowed counters
  std::map<bddp, bddp> over;
  bddp nover = 0;
  for (bddp i = 0; i < RFCT_Spc; i++) {
    bddp ix = B_GET_BDDP(RFCT[i].nx);
    if (ix == bddnull) continue;
    nover++;
    if (ix >= NodeSpc) return say("the overflow table lists node %llu outside the table", (unsigned long long)ix);
    if (over.count(ix)) return say("the overflow table lists node %llu twice", (unsigned long long)ix);
    over[ix] = B_GET_BDDP(RFCT[i].rfc);
  }
  if (nover != RFCT_Used) return say("the overflow table lists %llu nodes, %llu counted", (unsigned long long)nover, (unsigned long long)RFCT_Used);
  // nodes
  std::vector<unsigned> refs(NodeSpc, 0);
  for (bddp ix = 0; ix < NodeSpc; ix++) {
    if (!used(ix)) continue;
    bddp f0 = B_GET_BDDP(Node[ix].f0), f1 = B_GET_BDDP(Node[ix].f1);
    if (B_Z_NP(Node + ix)) {
      f0 = B_NOT(f0);                    // the mark of a ZBDD node
      if (f1 == bddfalse) return say("node %llu is redundant", (unsigned long long)ix);
      if (B_NEG(f0)) return say("node %llu: a marked 0-edge", (unsigned long long)ix);
    }
    else if (f0 == f1)
      return say("node %llu is redundant", (unsigned long long)ix);
    if (!child(ix, f0, 0, refs) || !child(ix, f1, 1, refs)) return false;
  }
  for (bddp ix = 0; ix < NodeSpc; ix++) {
    if (!used(ix)) continue;
    unsigned long long n;
    if (!counter(ix, over, &n)) return false;
    if (n < refs[ix]) return say("node %llu is counted %llu times and %u nodes refer to it", (unsigned long long)ix, n, refs[ix]);
    *external += n - refs[ix];
    if (n == 0) ++*dead;
  }
  // the cache of operations
  for (bddp i = 0; i < CacheSpc; i++) {
    struct B_CacheTable* c = Cache + i;
    bddp f = B_GET_BDDP(c->f), g = B_GET_BDDP(c->g), h = B_GET_BDDP(c->h);
    bool bg = false, bh = false;
    switch (c->op) {
    case BC_AND: case BC_XOR: case BC_INTERSEC: case BC_UNION: case BC_SUBTRACT:
      bg = bh = true;
      break;
    case BC_CHANGE: case BC_AT0: case BC_AT1: case BC_OFFSET: case BC_ONSET:
      bh = true;
      break;
    case BC_CARD: case BC_LIT: case BC_LEN:
      break;
    default:
      continue;
    }
    if (!B_CST(f) && (B_NDX(f) >= NodeSpc || !used(B_NDX(f)))) return say("cached operation %d: its operand is a free node", c->op);
    if (bg && !B_CST(g) && (B_NDX(g) >= NodeSpc || !used(B_NDX(g)))) return say("cached operation %d: its operand is a free node", c->op);
    if (bh && !B_CST(h) && (B_NDX(h) >= NodeSpc || !used(B_NDX(h)))) return say("cached operation %d: its result is a free node", c->op);
  }
  return true;
}
}

extern "C" {
unsigned long long vf_node_used() { return NodeUsed; }
unsigned long long vf_node_spc() { return NodeSpc; }
unsigned long long vf_hash_used() { unsigned long long n = 0; for (bddvar v = 1; v <= VarUsed; v++) n += Var[v].hashUsed; return n; }
unsigned long long vf_overflowed() { return RFCT_Used; }
// the table may not grow beyond n nodes (but never shrinks)
void vf_limit(unsigned long long n) { NodeLimit = n < NodeSpc ? NodeSpc : n > B_NODE_MAX ? B_NODE_MAX : n; }
int vf_gc() { return bddgc(); }
const char* vf_message() { return message.c_str(); }
// 1 if everything is in order; the references from outside and the dead nodes
int vf_audit(unsigned long long* external, unsigned long long* dead) { return audit_all(external, dead); }
}
