// included first in every harness: standard headers are read with normal access control, repository headers with
// every member accessible (layout and mangling are unaffected)
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <limits>
#include <cassert>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <fstream>
#include <list>
#include <set>
#include <algorithm>
#include <numeric>
#include <memory>
#include <ctime>
#include <typeinfo>
#include <stdexcept>
#include <iterator>
#include <complex>
#undef complex
#include "sym.h"
#define protected public
#define private public
