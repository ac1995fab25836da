// Positions of the virtual functions the verified code calls on objects it does not create.
#include "Peridigm_Material.hpp"
#include "Peridigm_BoundaryCondition.hpp"
#include <Epetra_Comm.h>
#include <Epetra_Vector.h>
#include <Epetra_FECrsMatrix.h>
using PeridigmNS::Material;
double (Material::*slot_Material_Density)() const = &Material::Density;
double (Material::*slot_Material_BulkModulus)() const = &Material::BulkModulus;
double (Material::*slot_Material_ShearModulus)() const = &Material::ShearModulus;
void (Material::*slot_Material_computeStoredElasticEnergyDensity)(const double, const int, const int*, const int*, PeridigmNS::DataManager&) const = &Material::computeStoredElasticEnergyDensity;
int (Epetra_Comm::*slot_Epetra_Comm_MyPID)() const = &Epetra_Comm::MyPID;
int (Epetra_Comm::*slot_Epetra_Comm_NumProc)() const = &Epetra_Comm::NumProc;
#define REDUCE(T, X) \
  int (Epetra_Comm::*slot_Epetra_Comm_SumAll_##X)(T*, T*, int) const = &Epetra_Comm::SumAll; \
  int (Epetra_Comm::*slot_Epetra_Comm_MinAll_##X)(T*, T*, int) const = &Epetra_Comm::MinAll; \
  int (Epetra_Comm::*slot_Epetra_Comm_MaxAll_##X)(T*, T*, int) const = &Epetra_Comm::MaxAll;
REDUCE(double, d)
REDUCE(int, i)
const Epetra_BlockMap& (Epetra_DistObject::*slot_Epetra_Vector_Map)() const = &Epetra_DistObject::Map;
using PeridigmNS::BoundaryCondition;
extern "C" { void (BoundaryCondition::*slot_BoundaryCondition_apply)(Teuchos::RCP< std::map< std::string, std::vector<int> > >, const double&, const double&) = &BoundaryCondition::apply; }
int (Epetra_CrsMatrix::*slot_Matrix_SumIntoMyValues)(int, int, const double*, const int*) = &Epetra_FECrsMatrix::SumIntoMyValues;
int (Epetra_CrsMatrix::*slot_Matrix_SumIntoGlobalValues_row)(int, int, const double*, const int*) = &Epetra_CrsMatrix::SumIntoGlobalValues;
