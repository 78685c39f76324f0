#pragma once
// forced include: things newer library versions pull in transitively
#include <random>
#include <algorithm>
#include "fmt/base.h"
