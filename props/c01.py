from .common import *

F = "Force_Density@NP1"
CONTRACTS = []
for key in ["elastic", "elastic_thermal", "bond_based", "bond_based_2d", "plastic", "plastic_planar", "hardening", "viscoelastic", "multiphysics",
            "multiphysics_thermal", "linear_lps", "pals", "correspondence", "hypoelastic", "bond_associated"]:
    CONTRACTS.append(Contract(MATERIALS[key](), balance(F, "Volume"), name=key))
