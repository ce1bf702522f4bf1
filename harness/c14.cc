#define ERASING 1
#include "c13.h"
