#include "configs.h"
