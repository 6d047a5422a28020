"""Executable definitions: families as Python sets of bit masks."""
from itertools import combinations


def join(F, G): return {a | b for a in F for b in G}
def meet(F, G): return {a & b for a in F for b in G}
def subs(F, G): return {f for f in F if any(f & ~g == 0 for g in G)}
def sups(F, G): return {f for f in F if any(g & ~f == 0 for g in G)}
def nsubs(F, G): return {f for f in F if not any(f & ~g == 0 for g in G)}
def nsups(F, G): return {f for f in F if not any(g & ~f == 0 for g in G)}
def minimal(F): return {f for f in F if not any(g != f and g & ~f == 0 for g in F)}
def maximal(F): return {f for f in F if not any(g != f and f & ~g == 0 for g in F)}
def hitting(F, n): return {h for h in range(1 << n) if all(h & f for f in F)}


def quotient(F, G):
    G = list(G)
    g0 = G[0]
    cand = {f & ~g0 for f in F if f & g0 == g0}
    return {a for a in cand if all(a & g == 0 and (a | g) in F for g in G)}


def remainder(F, G): return set(F) - join(G, quotient(F, G))
def size(m): return bin(m).count('1')
