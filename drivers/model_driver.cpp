// Runs one material / damage / contact / compute class of /repo on given data
// and prints every field afterwards.  CLASS and HEADER are set on the command line.
#include HEADER
#include "Peridigm_DataManager.hpp"
#include "Peridigm_Field.hpp"
#include "Peridigm_InfluenceFunction.hpp"
#include <Epetra_SerialComm.h>
#include <Epetra_Map.h>
#include <Teuchos_ParameterList.hpp>
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
using namespace PeridigmNS;
using namespace std;



// "A->B->name" names a parameter of a sublist
static Teuchos::ParameterList& at(Teuchos::ParameterList& p, string& n)
{
  size_t k = n.find("->");
  if(k == string::npos) return p;
  string a = n.substr(0, k);
  n = n.substr(k+2);
  return at(p.sublist(a), n);
}

int main(int argc, char** argv)
{
  ifstream in(argv[1]);
  string line;
  Teuchos::ParameterList params;
  vector<string> calls;
  int N=0, M=0, nb=0;
  vector<int> own, lst, given;
  double dt = 1.0;
  string infl = "One";
  FieldManager& fm = FieldManager::self();
  struct FD { string name; int step; vector<double> v; };
  vector<FD> fields;
  vector<string> dumps;
  while(getline(in, line)){
    istringstream is(line);
    string k; 
    getline(is, k, '|');
    if(k == "double"){ string n, v; getline(is,n,'|'); getline(is,v,'|'); at(params, n).set(n, strtod(v.c_str(),0)); }
    else if(k == "int"){ string n, v; getline(is,n,'|'); getline(is,v,'|'); at(params, n).set(n, atoi(v.c_str())); }
    else if(k == "bool"){ string n, v; getline(is,n,'|'); getline(is,v,'|'); at(params, n).set(n, v=="1"); }
    else if(k == "string"){ string n, v; getline(is,n,'|'); getline(is,v,'|'); at(params, n).set(n, v); }
    else if(k == "size"){ char c; is >> N >> c >> M >> c >> nb; }
    else if(k == "reg" || k == "need"){ string n; int a, b, t; char c; getline(is,n,'|'); is >> a >> c >> b >> c >> t; int id = fm.getFieldId((PeridigmField::Relation)a, (PeridigmField::Length)b, (PeridigmField::Temporal)t, n); if(k == "need") given.push_back(id); }
    else if(k == "influence"){ getline(is,infl,'|'); }
    else if(k == "dt"){ string v; getline(is,v,'|'); dt = strtod(v.c_str(),0); }
    else if(k == "own"){ int i; while(is >> i) own.push_back(i); }
    else if(k == "list"){ int i; while(is >> i) lst.push_back(i); }
    else if(k == "call"){ string n; getline(is,n,'|'); calls.push_back(n); }
    else if(k == "field"){ FD f; string s; getline(is,f.name,'|'); getline(is,s,'|'); f.step = atoi(s.c_str()); string w; while(is >> w) f.v.push_back(strtod(w.c_str(),0)); fields.push_back(f); }
  }
  InfluenceFunction::self().setInfluenceFunction(infl);

  CLASS obj(params);
  Epetra_SerialComm comm;
  Epetra_BlockMap ownS(N, N, &own[0], 1, 0, comm), ownV(N, N, &own[0], 3, 0, comm);
  vector<int> all(M); for(int i=0;i<M;++i) all[i]=i;
  Epetra_BlockMap ovS(M, M, &all[0], 1, 0, comm), ovV(M, M, &all[0], 3, 0, comm);
  vector<int> ids, sz; int p=0;
  for(int i=0;i<N;++i){ int n=lst[p]; p+=n+1; if(n>0){ ids.push_back(own[i]); sz.push_back(n);} }
  if(ids.empty()){ ids.push_back(0); sz.push_back(1); }
  Epetra_BlockMap bm(-1, (int)ids.size(), &ids[0], &sz[0], 0, comm);
  DataManager dm;
  dm.setMaps(Teuchos::rcp(&ownS,false), Teuchos::rcp(&ovS,false), Teuchos::rcp(&ownV,false), Teuchos::rcp(&ovV,false), Teuchos::rcp(&bm,false));
  vector<int> fid = obj.FieldIds();
  for(size_t i=0;i<given.size();++i) if(find(fid.begin(), fid.end(), given[i]) == fid.end()) fid.push_back(given[i]);
  dm.allocateData(fid);
  for(size_t k=0;k<fields.size();++k){
    FD& f = fields[k];
    Epetra_Vector& v = *dm.getData(fm.getFieldId(f.name), (PeridigmField::Step)f.step);
    for(int i=0;i<v.MyLength() && i<(int)f.v.size();++i) v[i] = f.v[i];
  }
  for(size_t k=0;k<calls.size();++k){
    const string& c = calls[k];
#ifdef CALLS
    CALLS
#endif
    if(c == "_never_") return 3;
  }
#ifdef GETTERS
  GETTERS
#endif
  for(size_t k=0;k<fid.size();++k){
    FieldSpec s = fm.getFieldSpec(fid[k]);
    for(int st=1; st<4; ++st){
      bool two = (s.getTemporal() == PeridigmField::TWO_STEP);
      if((st==1) == two) continue;
      Epetra_Vector& v = *dm.getData(fid[k], (PeridigmField::Step)st);
      printf("OUT|%s|%d|", s.getLabel().c_str(), st);
      for(int i=0;i<v.MyLength();++i) printf("%.17g ", v[i]);
      printf("\n");
    }
  }
  return 0;
}
