// C05: periodic node pairs and periodic DOFs of every regular mesh (oracles in c04_nodesets.cpp).
#define DO_C05 1
#include "c04_nodesets.cpp"
