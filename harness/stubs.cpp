// Stand-ins linked instead of Others/randgen.cpp and Others/Timer.cpp (symbolic and replay builds alike)
#include "sym.h"
#ifndef REAL_RANDGEN
void genrandseed(unsigned int) {}
double genrandreal(void) { return sym_real("rnd", 0, 1); }
double genrandnormal(void) { return sym_real("rndn"); }
#endif
namespace ROPTLIB { unsigned long getTickCount(void) { return 0; } }
// Rarely needed functions that would drag most of the library into every build: real ones replace these where they are linked.
#include "Manifolds/Manifold.h"
#include "Problems/SphereTxRQ.h"
#include <cstdlib>
namespace ROPTLIB { __attribute__((weak)) Vector MinMaxEigValHessian(Variable *, Manifold *, const Problem *) { abort(); } }
