// C12: steps that hand on any number of values
#include "c12_values.hpp"

VF_PROP(values_now, 3000, 60000) { values::any_shape<0>(s); }
VF_PROP(values_later, 6000, 120000) { values::any_shape<1>(s); }
