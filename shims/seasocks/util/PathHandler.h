#include "../PageHandler.h"
