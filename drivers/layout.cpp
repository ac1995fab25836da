// Positions of the members of the objects the verified code works on and does not create.
#include <vector>
#include <set>
#include <map>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstddef>
#include <BelosLinearProblem.hpp>
#include <BelosBlockCGSolMgr.hpp>
#include <BelosBlockGmresSolMgr.hpp>
#include <BelosEpetraAdapter.hpp>
#include <Epetra_FECrsMatrix.h>
#include <Epetra_MpiComm.h>
#include <Epetra_SerialComm.h>
#include <NOX.H>
#include <NOX_Epetra.H>
#include <NOX_Epetra_Interface_Required.H>
#include <NOX_Epetra_Interface_Jacobian.H>
#include <NOX_Epetra_Interface_Preconditioner.H>
#include <Teuchos_FancyOStream.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Teuchos_RCP.hpp>
#define private public
#define protected public
#include "Peridigm.hpp"
#include "Peridigm_DegreesOfFreedomManager.hpp"
#include "Peridigm_DataManager.hpp"
#include "Peridigm_State.hpp"
#pragma clang diagnostic ignored "-Winvalid-offsetof"
#define AT(C, M) extern const unsigned long at_##C##_##M; const unsigned long at_##C##_##M = offsetof(PeridigmNS::C, M);
#define A(M) AT(Peridigm, M)
A(x) A(u) A(y) A(v) A(a) A(force) A(externalForce) A(contactForce) A(density) A(scratch) A(volume) A(temperature) A(deltaTemperature) A(concentration)
A(deltaU) A(fluidPressureU) A(fluidPressureY) A(fluidPressureV) A(fluidPressureDeltaU)
A(blocks) A(contactBlocks) A(blockIt) A(contactBlockIt) A(peridigmComm) A(workset) A(modelEvaluator) A(boundaryAndInitialConditionManager) A(contactManager)
A(outputManager) A(dataLoader) A(peridigmParams) A(analysisHasContact) A(analysisHasDataLoader) A(analysisHasReadRestart) A(out)
A(coordinatesFieldId) A(displacementFieldId) A(velocityFieldId) A(accelerationFieldId) A(temperatureFieldId) A(deltaTemperatureFieldId) A(concentrationFieldId)
A(analysisHasMultiphysics) A(fluxDivergence) A(concentrationFluxDivergence) A(fluidFlow) A(fluxDivergenceFieldId) A(concentrationFluxDivergenceFieldId)
A(fluidFlowDensityFieldId) A(fluidPressureUFieldId) A(fluidPressureYFieldId) A(fluidPressureVFieldId)
A(forceDensityFieldId) A(contactForceDensityFieldId) A(externalForceDensityFieldId)
AT(BoundaryCondition, toVector) AT(BoundaryCondition, coord) AT(BoundaryCondition, tensorOrder) AT(BoundaryCondition, bcType) AT(BoundaryCondition, nodeSetName)
AT(BoundaryAndInitialConditionManager, boundaryConditions) AT(BoundaryAndInitialConditionManager, initialConditions)
AT(BoundaryAndInitialConditionManager, forceContributions) AT(BoundaryAndInitialConditionManager, nodeSets) AT(BoundaryAndInitialConditionManager, peridigm)
AT(BoundaryCondition, function) AT(BoundaryCondition, rtcFunction) AT(BoundaryCondition, peridigm)
AT(DegreesOfFreedomManager, total_number_of_degrees_of_freedom_)
AT(DataManager, stateN) AT(DataManager, stateNP1) AT(DataManager, stateNONE) AT(State, pointData) AT(State, bondData)
