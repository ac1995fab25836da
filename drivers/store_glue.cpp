// Gives the member functions defined in the header a body in this translation unit.
#include "Peridigm_DataManager.hpp"
namespace PeridigmNS {
struct StoreGlue { static void advance(DataManager& d); };
void StoreGlue::advance(DataManager& d){ d.updateState(); }
}
