// Stand-ins for parts of the library that are not in the simulation (see tools/build.py, SKIP).
#include <Pothos/Plugin/Path.hpp>
#include <vector>
