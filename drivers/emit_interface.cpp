// makes clang emit the member functions of /repo's class that are defined in its header only
#include "Peridigm_InterfaceAwareDamageModel.hpp"
void (PeridigmNS::InterfaceAwareDamageModel::*emit_interface)(Teuchos::RCP<PeridigmNS::BoundaryAndInitialConditionManager>) = &PeridigmNS::InterfaceAwareDamageModel::setBCManager;
