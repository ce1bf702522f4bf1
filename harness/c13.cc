#define ERASING 0
#include "c13.h"
