#define PART part_a
#include "parts_body.hpp"
