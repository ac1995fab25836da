from .common import *

CONTRACTS = [Contract(MATERIALS[k](), balance_ang(FD, VOL, Y), name=k) for k in
             ["elastic", "elastic_thermal", "bond_based", "bond_based_2d", "plastic", "plastic_planar", "hardening", "viscoelastic", "multiphysics",
              "multiphysics_thermal", "pals"]]
