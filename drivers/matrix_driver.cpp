// Adds values to a sparse matrix of /repo and prints all its entries.
#include "Peridigm_SerialMatrix.hpp"
#include <Epetra_SerialComm.h>
#include <Epetra_Map.h>
#include <Epetra_FECrsMatrix.h>
#include <cstdio>
#include <fstream>
#include <string>
#include <vector>
using namespace std;

int main(int argc, char** argv)
{
  ifstream in(argv[1]);
  string entry;
  int w, row, col, n;
  double value;
  in >> entry >> w >> row >> col >> value >> n;
  vector<int> ids(w), g(n);
  vector<double> V(n * n), M(w * w);
  for(int i = 0; i < w; ++i) in >> ids[i];
  for(int i = 0; i < n; ++i) in >> g[i];
  for(int i = 0; i < n * n; ++i) in >> V[i];
  for(int i = 0; i < w * w; ++i) in >> M[i];
  Epetra_SerialComm comm;
  Epetra_Map map(-1, w, &ids[0], 0, comm);
  Teuchos::RCP<Epetra_FECrsMatrix> mat = Teuchos::rcp(new Epetra_FECrsMatrix(Copy, map, w));
  vector<int> all(w);
  for(int i = 0; i < w; ++i) all[i] = i;
  for(int i = 0; i < w; ++i) mat->InsertGlobalValues(i, w, &M[i * w], &all[0]);
  mat->GlobalAssemble();
  PeridigmNS::SerialMatrix s(mat);
  vector<const double*> rows(n);
  for(int i = 0; i < n; ++i) rows[i] = &V[i * n];
  if(entry == "addValue") s.addValue(row, col, value);
  else if(entry == "addValues") s.addValues(n, &g[0], &rows[0]);
  else if(entry == "addBlockDiagonalValues") s.addBlockDiagonalValues(n, &g[0], &rows[0]);
  else s.putScalar(value);
  mat->GlobalAssemble();
  for(int i = 0; i < w; ++i){
    vector<double> v(w, 0.0), x(w);
    vector<int> c(w);
    int k = 0;
    mat->ExtractGlobalRowCopy(i, w, k, &x[0], &c[0]);
    for(int j = 0; j < k; ++j) v[c[j]] += x[j];
    for(int j = 0; j < w; ++j) printf("%.17g ", v[j]);
  }
  printf("\n");
  return 0;
}
