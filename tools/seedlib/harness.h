// Small test bench: one body on one processor, its fields and neighbour lists.
#pragma once
#include "Peridigm_DataManager.hpp"
#include "Peridigm_Field.hpp"
#include "Peridigm_InfluenceFunction.hpp"
#include <Epetra_SerialComm.h>
#include <Epetra_Map.h>
#include <Teuchos_ParameterList.hpp>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
using namespace PeridigmNS;
using std::vector;
using std::string;

static unsigned long long rs = 88172645463325252ull;
inline double rnd(double a, double b) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return a + (b - a) * (double)(rs >> 11) / 9007199254740992.0; }

struct World {
  int N;
  vector<int> own, lst;
  vector<vector<int> > nb;
  Epetra_SerialComm comm;
  Teuchos::RCP<Epetra_BlockMap> s, v, b;
  DataManager dm;
  World(const vector<int>& fields, const vector<vector<int> >& nb_) : N(nb_.size()), nb(nb_) {
    vector<int> ids, sz;
    for(int i = 0; i < N; ++i){
      own.push_back(i);
      lst.push_back(nb[i].size());
      for(size_t k = 0; k < nb[i].size(); ++k) lst.push_back(nb[i][k]);
      if(nb[i].size()){ ids.push_back(i); sz.push_back(nb[i].size()); }
    }
    s = Teuchos::rcp(new Epetra_BlockMap(N, N, &own[0], 1, 0, comm));
    v = Teuchos::rcp(new Epetra_BlockMap(N, N, &own[0], 3, 0, comm));
    b = Teuchos::rcp(new Epetra_BlockMap(-1, (int)ids.size(), &ids[0], &sz[0], 0, comm));
    dm.setMaps(s, s, v, v, b);
    dm.allocateData(fields);
  }
  double* f(const string& name, PeridigmField::Step st) { double* p; dm.getData(FieldManager::self().getFieldId(name), st)->ExtractView(&p); return p; }
  double* c(const string& name) { return f(name, PeridigmField::STEP_NONE); }
  double* n(const string& name) { return f(name, PeridigmField::STEP_N); }
  double* np1(const string& name) { return f(name, PeridigmField::STEP_NP1); }
  int bond(int i, int k) const { int r = k; for(int j = 0; j < i; ++j) r += nb[j].size(); return r; }
};

inline vector<vector<int> > all_to_all(int N) {
  vector<vector<int> > r(N);
  for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) if(i != j) r[i].push_back(j);
  return r;
}
// a jittered cloud of points around the unit lattice
inline void cloud(double* x, int N, double jit = 0.2) {
  for(int i = 0; i < N; ++i){
    x[3*i] = (i % 2) + rnd(-jit, jit); x[3*i+1] = ((i / 2) % 2) + rnd(-jit, jit); x[3*i+2] = (i / 4) + rnd(-jit, jit);
  }
}
inline bool close_(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b)); }
inline int verdict(bool ok, const char* what) { std::printf("%s: %s\n", what, ok ? "ok" : "BROKEN"); return ok ? 0 : 1; }
