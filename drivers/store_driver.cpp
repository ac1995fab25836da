// Runs a script of operations on field stores of /repo and prints every stored value afterwards.
#include "Peridigm_DataManager.hpp"
#include "Peridigm_Field.hpp"
#include <Epetra_SerialComm.h>
#include <Epetra_BlockMap.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
using namespace PeridigmNS;
using namespace std;
using Teuchos::RCP;
using Teuchos::rcp;

static Epetra_SerialComm comm;
static vector<string> cut(const string& s, char c){ vector<string> r; string t; istringstream is(s); while(getline(is, t, c)) r.push_back(t); return r; }
template<class X> static vector<X> nums(const string& s){ vector<X> r; istringstream is(s); string w; while(is >> w) r.push_back((X)strtod(w.c_str(), 0)); return r; }
static RCP<const Epetra_BlockMap> points(const vector<int>& g, int size){ vector<int> x(g); x.push_back(0); return rcp(new Epetra_BlockMap(-1, g.size(), &x[0], size, 0, comm)); }
static RCP<const Epetra_BlockMap> bonds(const vector<int>& g, const vector<int>& n)
{
  vector<int> id, sz;
  for(size_t i = 0; i < g.size(); ++i) if(n[i] > 0){ id.push_back(g[i]); sz.push_back(n[i]); }
  size_t k = id.size();
  id.push_back(0); sz.push_back(0);
  return rcp(new Epetra_BlockMap(-1, k, &id[0], &sz[0], 0, comm));
}

int main(int argc, char** argv)
{
  ifstream in(argv[1]);
  string line;
  map<string, RCP<DataManager> > dm;
  FieldManager& fm = FieldManager::self();
  vector<int> ids;
  vector<string> names;
  vector<int> temporal;
  map<string, int> id;
  while(getline(in, line)){
    vector<string> f = cut(line, '|');
    while(f.size() < 7) f.push_back("");
    if(f[0] == "field"){
      int k = fm.getFieldId((PeridigmField::Relation)atoi(f[2].c_str()), (PeridigmField::Length)atoi(f[3].c_str()), (PeridigmField::Temporal)atoi(f[4].c_str()), f[1]);
      id[f[1]] = k; names.push_back(f[1]); temporal.push_back(atoi(f[4].c_str()));
    }
    else if(f[0] == "store"){
      // name | owned | overlap | bonds of the owned | fields
      vector<int> own = nums<int>(f[2]), all = nums<int>(f[3]), nb = nums<int>(f[4]), fl;
      istringstream is(f[5]); string w;
      while(is >> w) fl.push_back(id[w]);
      RCP<DataManager> d = rcp(new DataManager);
      d->setMaps(points(own, 1), points(all, 1), points(own, 3), points(all, 3), bonds(own, nb));
      d->allocateData(fl);
      dm[f[1]] = d;
    }
    else if(f[0] == "set"){
      RCP<Epetra_Vector> v = dm[f[1]]->getData(id[f[2]], (PeridigmField::Step)atoi(f[3].c_str()));
      vector<double> x = nums<double>(f[4]);
      for(size_t i = 0; i < x.size() && (int)i < v->MyLength(); ++i) (*v)[i] = x[i];
    }
    else if(f[0] == "scatter") dm[f[1]]->scatterToGhosts();
    else if(f[0] == "update") dm[f[1]]->updateState();
    else if(f[0] == "copy") dm[f[1]]->copyLocallyOwnedDataFromDataManager(*dm[f[2]]);
    else if(f[0] == "rebalance"){
      vector<int> own = nums<int>(f[2]), all = nums<int>(f[3]), nb = nums<int>(f[4]);
      dm[f[1]]->rebalance(points(own, 1), points(all, 1), points(own, 3), points(all, 3), bonds(own, nb));
    }
    else if(f[0] == "show"){
      RCP<Epetra_Vector> v = dm[f[1]]->getData(id[f[2]], (PeridigmField::Step)atoi(f[3].c_str()));
      for(int i = 0; i < v->MyLength(); ++i) printf("%.17g ", (*v)[i]);
      printf("\n");
    }
  }
  return 0;
}
