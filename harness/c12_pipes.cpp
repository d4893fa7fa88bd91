// C12: promise pipelines run each step once, in order, and route failures
#include "c12_driver.hpp"

VF_PROP(pipelines, 12000, 300000) { drive(s); }
