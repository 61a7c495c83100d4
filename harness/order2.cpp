// A second translation unit that uses the ordering functions: they have to be usable in several.
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
NS::DynamicVector<NS::Index> otherUnit(const NS::DynamicVector<NS::Index>& p) { return NS::inverse_permutation(p); }
