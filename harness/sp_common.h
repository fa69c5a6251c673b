// shared by the shortest-path harnesses: small topologies and reference search
#pragma once
#include "vp.h"
#include "shortest_path.h"
#include <vector>
struct SpLink { int id, from, to; };
// topologies: nodes are 0..n-1, destination is 0
static std::vector<SpLink> sp_topology (int k, int &n)
{
  switch (k)
    {
    case 0: // two-way square with a diagonal, two parallel links
      n = 4;
      return { { 10, 3, 1 }, { 11, 3, 2 }, { 12, 1, 0 }, { 13, 2, 0 }, { 14, 2, 1 }, { 15, 1, 2 }, { 16, 2, 0 } };
    case 1: // node 3 cannot reach 0 (only 0 -> 3), cycle 1-2
      n = 4;
      return { { 20, 1, 2 }, { 21, 2, 1 }, { 22, 1, 0 }, { 23, 2, 0 }, { 24, 0, 3 }, { 25, 0, 1 } };
    case 2: // chain with shortcuts: 4 nodes, acyclic
      n = 4;
      return { { 30, 3, 2 }, { 31, 2, 1 }, { 32, 1, 0 }, { 33, 3, 1 }, { 34, 2, 0 }, { 35, 3, 0 } };
    case 3: // ring of 4 both ways
      n = 4;
      return { { 40, 0, 1 }, { 41, 1, 2 }, { 42, 2, 3 }, { 43, 3, 0 }, { 44, 1, 0 }, { 45, 2, 1 }, { 46, 3, 2 } };
    default: // 5 nodes, two levels
      n = 5;
      return { { 50, 4, 3 }, { 51, 4, 2 }, { 52, 3, 1 }, { 53, 2, 1 }, { 54, 3, 0 }, { 55, 1, 0 }, { 56, 2, 3 } };
    }
}
static void sp_paths (const std::vector<SpLink> &L, int n, int at, int mask, std::vector<int> &cur, std::vector<std::vector<int>> &out)
{
  if (at == 0) { out.push_back (cur); return; }
  for (size_t i = 0; i < L.size (); i++)
    if (L[i].from == at && !(mask & (1 << L[i].to)))
      { cur.push_back ((int) i); sp_paths (L, n, L[i].to, mask | (1 << L[i].to), cur, out); cur.pop_back (); }
}
