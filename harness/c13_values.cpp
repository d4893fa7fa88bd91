// C13: runs whose steps hand on any number of values end and are released
#include "c12_values.hpp"

VF_PROP(values_once, 6000, 120000) { values::any_shape<1>(s); }
VF_PROP(values_round, 6000, 120000) { values::any_shape<2>(s); }
