// C13: asynchronous runs own their pipeline and release it exactly once
#include "c12_driver.hpp"

VF_PROP(loops_and_residents, 12000, 300000) { drive(s); }
