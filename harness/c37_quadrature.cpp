// C37 (part 2): the element classes of the default C++ build, called with containers of every kind
#define C37_QUADRATURE
#include "c37_containers.h"
