#include <hwy/highway.h>
