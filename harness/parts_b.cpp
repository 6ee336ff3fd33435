#define PART part_b
#include "parts_body.hpp"
