// Neighbour lists of scattered points, on any number of processes.
// Input, per search: number of points, addition to the radii, then x y z radius owner for each point.
// Output to the file <input>.<process>, per search and point: L|search|point|neighbours (identifiers)
#include "Peridigm_ProximitySearch.hpp"
#include <Epetra_MpiComm.h>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <vector>
#include <mpi.h>
using namespace std;
using Teuchos::RCP;
using Teuchos::rcp;

int main(int argc, char** argv){
  MPI_Init(&argc, &argv);
  {
    Epetra_MpiComm comm(MPI_COMM_WORLD);
    ifstream in(argv[1]);
    int n; double more;
    ostringstream out;
    for(int search = 0; in >> n >> more; ++search){
      vector<double> x(3*n), r(n); vector<int> mine, owner(n);
      for(int i = 0; i < n; ++i){
        in >> x[3*i] >> x[3*i+1] >> x[3*i+2] >> r[i] >> owner[i];
        if(owner[i] % comm.NumProc() == comm.MyPID()) mine.push_back(i);
      }
      Epetra_BlockMap one(-1, mine.size(), mine.data(), 1, 0, comm), three(-1, mine.size(), mine.data(), 3, 0, comm);
      RCP<Epetra_Vector> X = rcp(new Epetra_Vector(three)), R = rcp(new Epetra_Vector(one));
      for(size_t k = 0; k < mine.size(); ++k){
        (*R)[k] = r[mine[k]];
        for(int c = 0; c < 3; ++c) (*X)[3*k+c] = x[3*mine[k]+c];
      }
      RCP<Epetra_BlockMap> overlap;
      int size = 0, *list = 0;
      vector< shared_ptr<PdBondFilter::BondFilter> > filters;
      PeridigmNS::ProximitySearch::GlobalProximitySearch(X, R, overlap, size, list, filters, more);
      int at = 0;
      for(size_t k = 0; k < mine.size(); ++k){
        int m = list[at++];
        out << "L|" << search << "|" << mine[k] << "|";
        for(int j = 0; j < m; ++j) out << overlap->GID(list[at++]) << " ";
        out << "\n";
      }
      delete[] list;
    }
    // one file per process
    ostringstream name; name << argv[1] << "." << comm.MyPID();
    ofstream(name.str().c_str()) << out.str();
  }
  MPI_Finalize();
  return 0;
}
