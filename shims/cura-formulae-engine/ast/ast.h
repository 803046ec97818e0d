#include "../eval.h"
