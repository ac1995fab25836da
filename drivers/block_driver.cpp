// Runs one compute class, or a function on a block, of /repo on given data and prints every field afterwards.
#include HEADER
#include "Peridigm_Block.hpp"
#include "Peridigm_Field.hpp"
#include "Peridigm_HorizonManager.hpp"
#include <Epetra_SerialComm.h>
#include <Epetra_Map.h>
#include <Teuchos_ParameterList.hpp>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
using namespace PeridigmNS;
using namespace std;

struct Mat : public Material {
  double rho, K, G;
  Mat(double r, double k, double g) : Material(Teuchos::ParameterList()), rho(r), K(k), G(g) {}
  string Name() const { return "harness"; }
  double Density() const { return rho; }
  double BulkModulus() const { return K; }
  double ShearModulus() const { return G; }
  vector<int> FieldIds() const { return vector<int>(); }
  void computeForce(const double, const int, const int*, const int*, DataManager&) const {}
  void computeStoredElasticEnergyDensity(const double, const int, const int*, const int*, DataManager&) const {}
};

// access to what a block is normally given step by step
struct Open : public Block {
  static void put(Block& b, string name, int id, Teuchos::RCP<NeighborhoodData> nd, Teuchos::RCP<DataManager> dm, Teuchos::RCP<Material> m, Teuchos::RCP<const Epetra_BlockMap> own){
    Open& o = static_cast<Open&>(b);
    o.blockName = name; o.blockID = id; o.neighborhoodData = nd; o.dataManager = dm; o.materialModel = m; o.ownedScalarPointMap = own;
  }
};

struct FD { string name; int step; vector<double> v; };
struct BD { int N, M, nb; double rho, K, G; vector<int> lst; vector<FD> f; };

int main(int argc, char** argv)
{
  ifstream in(argv[1]);
  string line, horizon;
  Teuchos::RCP<Teuchos::ParameterList> params = Teuchos::rcp(new Teuchos::ParameterList());
  FieldManager& fm = FieldManager::self();
  vector<BD> bd;
  vector<int> ids;
  while(getline(in, line)){
    istringstream is(line);
    string k, n, v;
    getline(is, k, '|');
    if(k == "double"){ getline(is,n,'|'); getline(is,v,'|'); params->set(n, strtod(v.c_str(),0)); }
    else if(k == "int"){ getline(is,n,'|'); getline(is,v,'|'); params->set(n, atoi(v.c_str())); }
    else if(k == "bool"){ getline(is,n,'|'); getline(is,v,'|'); params->set(n, v=="1"); }
    else if(k == "string"){ getline(is,n,'|'); getline(is,v,'|'); params->set(n, v); }
    else if(k == "reg"){ int a, b, t; char c; getline(is,n,'|'); is >> a >> c >> b >> c >> t; ids.push_back(fm.getFieldId((PeridigmField::Relation)a, (PeridigmField::Length)b, (PeridigmField::Temporal)t, n)); }
    else if(k == "horizon"){ getline(is,horizon,'|'); }
    else if(k == "block"){ BD b; char c; is >> b.N >> c >> b.M >> c >> b.nb; bd.push_back(b); }
    else if(k == "mat"){ is >> bd.back().rho >> bd.back().K >> bd.back().G; }
    else if(k == "list"){ int i; while(is >> i) bd.back().lst.push_back(i); }
    else if(k == "field"){ FD f; string s; getline(is,f.name,'|'); getline(is,s,'|'); f.step = atoi(s.c_str()); string w; while(is >> w) f.v.push_back(strtod(w.c_str(),0)); bd.back().f.push_back(f); }
  }
  Teuchos::RCP<const Epetra_Comm> comm = Teuchos::rcp(new Epetra_SerialComm());
  Teuchos::RCP<Teuchos::ParameterList> global = Teuchos::rcp(new Teuchos::ParameterList());
#ifdef CLASS
  CLASS obj(params, comm, global);
  vector<int> fid = obj.FieldIds();
  ids.insert(ids.end(), fid.begin(), fid.end());
#endif
  Teuchos::ParameterList hp;
  for(size_t k=0;k<bd.size();++k){
    ostringstream nm; nm << "block_" << k+1;
    char* end; double h = strtod(horizon.c_str(), &end);
    if(*end == 0) hp.sublist("B"+nm.str()).set("Horizon", h); else hp.sublist("B"+nm.str()).set("Horizon", horizon);
    hp.sublist("B"+nm.str()).set("Block Names", nm.str());
  }
  if(horizon != "") HorizonManager::self().loadHorizonInformationFromBlockParameters(hp);
  Teuchos::RCP<vector<Block> > blocks = Teuchos::rcp(new vector<Block>(bd.size()));
  for(size_t k=0;k<bd.size();++k){
    BD& b = bd[k];
    Teuchos::RCP<NeighborhoodData> nd = Teuchos::rcp(new NeighborhoodData());
    nd->SetNumOwned(b.N);
    nd->SetNeighborhoodListSize(b.lst.size());
    for(int i=0;i<b.N;++i) nd->OwnedIDs()[i] = i;
    for(size_t i=0;i<b.lst.size();++i) nd->NeighborhoodList()[i] = b.lst[i];
    vector<int> all(b.M); for(int i=0;i<b.M;++i) all[i] = 100*k + i;
    vector<int> bi, bs; int p=0;
    for(int i=0;i<b.N;++i){ int n=b.lst[p]; p+=n+1; if(n>0){ bi.push_back(all[i]); bs.push_back(n); } }
    if(bi.empty()){ bi.push_back(all[0]); bs.push_back(1); }
    Teuchos::RCP<const Epetra_BlockMap> ownS = Teuchos::rcp(new Epetra_BlockMap(-1, b.N, &all[0], 1, 0, *comm)), ownV = Teuchos::rcp(new Epetra_BlockMap(-1, b.N, &all[0], 3, 0, *comm)),
      ovS = Teuchos::rcp(new Epetra_BlockMap(-1, b.M, &all[0], 1, 0, *comm)), ovV = Teuchos::rcp(new Epetra_BlockMap(-1, b.M, &all[0], 3, 0, *comm)),
      bm = Teuchos::rcp(new Epetra_BlockMap(-1, (int)bi.size(), &bi[0], &bs[0], 0, *comm));
    Teuchos::RCP<DataManager> dm = Teuchos::rcp(new DataManager());
    dm->setMaps(ownS, ovS, ownV, ovV, bm);
    dm->allocateData(ids);
    for(size_t j=0;j<b.f.size();++j){
      Epetra_Vector& v = *dm->getData(fm.getFieldId(b.f[j].name), (PeridigmField::Step)b.f[j].step);
      for(int i=0;i<v.MyLength() && i<(int)b.f[j].v.size();++i) v[i] = b.f[j].v[i];
    }
    ostringstream nm; nm << "block_" << k+1;
    Open::put((*blocks)[k], nm.str(), k+1, nd, dm, Teuchos::rcp(new Mat(b.rho, b.K, b.G)), ownS);
  }
  CODE
  for(size_t k=0;k<bd.size();++k)
    for(size_t j=0;j<ids.size();++j){
      FieldSpec s = fm.getFieldSpec(ids[j]);
      for(int st=1; st<4; ++st){
        bool two = (s.getTemporal() == PeridigmField::TWO_STEP);
        if((st==1) == two) continue;
        Epetra_Vector& v = *(*blocks)[k].getData(ids[j], (PeridigmField::Step)st);
        printf("OUT|%d|%s|%d|", (int)k+1, s.getLabel().c_str(), st);
        for(int i=0;i<v.MyLength();++i) printf("%.17g ", v[i]);
        printf("\n");
      }
    }
  return 0;
}
