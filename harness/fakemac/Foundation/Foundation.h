#pragma once
#include <fake_appkit.h>
