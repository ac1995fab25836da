// Runs conditions, or the manager of conditions, of /repo on given vectors and prints the vectors afterwards.
#include <vector>
#include <set>
#include <map>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <BelosLinearProblem.hpp>
#include <BelosBlockCGSolMgr.hpp>
#include <BelosBlockGmresSolMgr.hpp>
#include <BelosEpetraAdapter.hpp>
#include <Epetra_FECrsMatrix.h>
#include <Epetra_MpiComm.h>
#include <Epetra_SerialComm.h>
#include <NOX.H>
#include <NOX_Epetra.H>
#include <Teuchos_FancyOStream.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_RCP.hpp>
#define private public
#define protected public
#include "Peridigm.hpp"
#include "Peridigm_DegreesOfFreedomManager.hpp"
#include "Peridigm_BoundaryCondition.hpp"
#undef private
#undef protected
using namespace PeridigmNS;
using namespace std;
using Teuchos::RCP;
using Teuchos::rcp;

// one process, no message passing
extern "C" int MPI_Comm_size(MPI_Comm, int* n) { *n = 1; return 0; }
extern "C" int MPI_Comm_rank(MPI_Comm, int* n) { *n = 0; return 0; }

typedef map<string, vector<int> > Sets;
static map<string, RCP<Epetra_Vector> > vec;
static void show(const string& n, const Epetra_Vector& v){ printf("OUT|%s|1|", n.c_str()); for(int i = 0; i < v.MyLength(); ++i) printf("%.17g ", v[i]); printf("\n"); }

// a condition that records what it is given and then fills its vector
struct Recorder : public BoundaryCondition {
  int k; vector<double> fill;
  static int count;
  Recorder(int k_, const Teuchos::ParameterList& p, RCP<Epetra_Vector> to, Peridigm* P, const vector<double>& f) : BoundaryCondition("c", p, to, P), k(k_), fill(f) {}
  void apply(RCP<Sets>, const double& t, const double& t0){
    ++count;
    char n[40]; snprintf(n, sizeof n, "before %d", count);
    show(n, *toVector);
    printf("APPLIED|%d|%.17g|%.17g\n", k, t, t0);
    for(int i = 0; i < toVector->MyLength() && i < (int)fill.size(); ++i) (*toVector)[i] = fill[i];
  }
};
int Recorder::count = 0;

struct Mesh : public Discretization {
  RCP<Epetra_BlockMap> one;
  Mesh() : Discretization(rcp(new Epetra_SerialComm())) {}
  RCP<const Epetra_BlockMap> getGlobalOwnedMap(int) const { return one; }
  RCP<const Epetra_BlockMap> getGlobalOverlapMap(int) const { return one; }
  RCP<const Epetra_BlockMap> getGlobalBondMap() const { return one; }
  RCP<Epetra_Vector> getInitialX() const { return vec["x"]; }
  RCP<Epetra_Vector> getHorizon() const { return vec["x"]; }
  RCP<Epetra_Vector> getCellVolume() const { return vec["x"]; }
  RCP<Epetra_Vector> getBlockID() const { return vec["x"]; }
  RCP<NeighborhoodData> getNeighborhoodData() const { return RCP<NeighborhoodData>(); }
  RCP<InterfaceData> getInterfaceData() const { return RCP<InterfaceData>(); }
  bool InterfacesAreConstructed() const { return false; }
  unsigned int getNumBonds() const { return 0; }
  unsigned int getNumElem() const { return 0; }
  unsigned int getMaxNumBondsPerElem() const { return 0; }
  double getMinElementRadius() const { return 1.0; }
  double getMaxElementRadius() const { return 1.0; }
  double getMaxElementDimension() const { return 1.0; }
};

static vector<string> cut(const string& s, char c){ vector<string> r; string t; istringstream is(s); while(getline(is, t, c)) r.push_back(t); return r; }
template<class X> static vector<X> nums(const string& s){ vector<X> r; istringstream is(s); string w; while(is >> w) r.push_back((X)strtod(w.c_str(), 0)); return r; }

int main(int argc, char** argv)
{
  ifstream in(argv[1]);
  string line, entry, cls, target, lst;
  vector<int> ids;
  Epetra_SerialComm comm;
  Peridigm* P = (Peridigm*)calloc(1, sizeof(Peridigm));
  RCP<Sets> sets = rcp(new Sets());
  vector<double> extra;
  double t = 0, t0 = 0;
  Teuchos::ParameterList par, dofs, all;
  vector<vector<string> > conds;
  map<int, vector<double> > fills;
  vector<double> tangent; vector<int> pattern;
  RCP<Mesh> mesh = rcp(new Mesh());
  mesh->nodeSets = rcp(new Sets());
  while(getline(in, line)){
    vector<string> f = cut(line, '|');
    if(f.empty()) continue;
    while(f.size() < 5) f.push_back("");
    if(f[0] == "ids"){ ids = nums<int>(f[1]); mesh->one = rcp(new Epetra_BlockMap(-1, ids.size(), &ids[0], 1, 0, comm)); }
    else if(f[0] == "vec"){
      int w = atoi(f[2].c_str());
      RCP<Epetra_Vector> v;
      if(f[3] == "flat"){
        vector<int> g; for(size_t i = 0; i < ids.size(); ++i) for(int c = 0; c < w; ++c) g.push_back(w * ids[i] + c);
        v = rcp(new Epetra_Vector(Epetra_BlockMap(-1, g.size(), &g[0], 1, 0, comm)));
      }
      else v = rcp(new Epetra_Vector(Epetra_BlockMap(-1, ids.size(), &ids[0], w, 0, comm)));
      vector<double> x = nums<double>(f[4]);
      for(size_t i = 0; i < x.size(); ++i) (*v)[i] = x[i];
      vec[f[1]] = v;
    }
    else if(f[0] == "set"){ (*sets)[f[1]] = nums<int>(f[2]); }
    else if(f[0] == "meshset"){ (*mesh->nodeSets)[f[1]] = nums<int>(f[2]); }
    else if(f[0] == "times"){ t = strtod(f[1].c_str(), 0); t0 = strtod(f[2].c_str(), 0); }
    else if(f[0] == "extra"){ extra = nums<double>(f[1]); }
    else if(f[0] == "class"){ cls = f[1]; target = f[2]; }
    else if(f[0] == "entry"){ entry = f[1]; lst = f[2]; }
    else if(f[0] == "string"){ par.set(f[1], f[2]); }
    else if(f[0] == "double"){ par.set(f[1], strtod(f[2].c_str(), 0)); }
    else if(f[0] == "dof"){ dofs.set(f[1], f[2] == "1"); }
    else if(f[0] == "cond"){ conds.push_back(f); }
    else if(f[0] == "fill"){ fills[atoi(f[1].c_str())] = nums<double>(f[2]); }
    else if(f[0] == "tangent"){ tangent = nums<double>(f[1]); pattern = nums<int>(f[2]); }
    else if(f[0] == "text"){ all.set(f[1], f[2]); }
    else if(f[0] == "list"){ Teuchos::ParameterList& l = all.sublist(f[1]); for(size_t i = 2; i + 1 < f.size(); i += 2) if(f[i].size()){ if(f[i] == "Value" && f[i+1][0] == '#') l.set("Value", strtod(f[i+1].c_str() + 1, 0)); else l.set(f[i], f[i+1]); } }
  }
#define V(N) new (&P->N) RCP<Epetra_Vector>(vec[#N]);
  V(x) V(u) V(y) V(v) V(a) V(force) V(externalForce) V(contactForce) V(scratch) V(deltaU) V(density) V(volume) V(temperature) V(deltaTemperature) V(concentration)
  V(fluidPressureU) V(fluidPressureY) V(fluidPressureV) V(fluidPressureDeltaU)
  if(cls.size()){
    BoundaryCondition* b = cls == "DirichletBC" ? (BoundaryCondition*)new DirichletBC("c", par, vec[target], P) : (BoundaryCondition*)new DirichletIncrementBC("c", par, vec[target], P, extra[0], extra[1], extra[2] != 0);
    b->apply(sets, t, t0);
  }
  else{
    BoundaryAndInitialConditionManager m(all, P);
    if(conds.empty() && all.numParams())
      m.initialize(mesh);
    else{
      m.nodeSets = sets;
      for(size_t k = 0; k < conds.size(); ++k){
        Teuchos::ParameterList p;
        p.set("Type", conds[k][1]); p.set("Node Set", conds[k][2]); p.set("Value", string("0.0"));
        RCP<Epetra_Vector> to = vec[conds[k][4]];
        Recorder* r = new Recorder(k + 1, p, to, P, fills[k + 1]);
        r->coord = atoi(conds[k][3].c_str());
        (lst == "initialConditions" ? m.initialConditions : lst == "forceContributions" ? m.forceContributions : m.boundaryConditions).push_back(rcp((BoundaryCondition*)r));
      }
    }
    if(dofs.numParams()) DegreesOfFreedomManager::self().initialize(dofs);
    vector<string> es = cut(entry, ' ');
    for(size_t i = 0; i < es.size(); ++i){
      string e = es[i];
      if(e == "applyBoundaryConditions") m.applyBoundaryConditions(t, t0);
      else if(e == "applyForceContributions") m.applyForceContributions(t, t0);
      else if(e == "applyInitialConditions") m.applyInitialConditions();
      else if(e == "applyKinematicBC_ComputeReactions") m.applyKinematicBC_ComputeReactions(vec["force"], vec["reaction"]);
      else if(e == "applyKinematicBC_InsertZerosAndSetDiagonal"){
        int w = DegreesOfFreedomManager::self().totalNumberOfDegreesOfFreedom();
        vector<int> g; for(size_t k = 0; k < ids.size(); ++k) for(int c = 0; c < w; ++c) g.push_back(w * ids[k] + c);
        int D = g.size();
        Epetra_Map rows(-1, D, &g[0], 0, comm);
        RCP<Epetra_FECrsMatrix> A = rcp(new Epetra_FECrsMatrix(Copy, rows, D));
        for(int r = 0; r < D; ++r) for(int s = 0; s < D; ++s) if(pattern[r*D + s]) A->InsertGlobalValues(g[r], 1, &tangent[r*D + s], &g[s]);
        A->FillComplete();
        m.applyKinematicBC_InsertZerosAndSetDiagonal(A);
        vector<double> B(D*D, 0.0);
        for(int r = 0; r < D; ++r){
          vector<double> x(D); vector<int> k(D); int n;
          A->ExtractGlobalRowCopy(g[r], D, n, &x[0], &k[0]);
          for(int q = 0; q < n; ++q) for(int s = 0; s < D; ++s) if(g[s] == k[q]) B[r*D + s] += x[q];
        }
        printf("OUT|tangent|1|"); for(size_t q = 0; q < B.size(); ++q) printf("%.17g ", B[q]); printf("\n");
      }
      else if(e == "applyKinematicBC_InsertZeros") m.applyKinematicBC_InsertZeros(vec["force"]);
    }
  }
  for(map<string, RCP<Epetra_Vector> >::iterator i = vec.begin(); i != vec.end(); ++i) show(i->first, *i->second);
  fflush(stdout);
  _exit(0);
}
