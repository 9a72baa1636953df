// C37 (part 3): the functions on meshes and arrays of the default C++ build, called with containers of every kind
#include "c37_containers.h"
