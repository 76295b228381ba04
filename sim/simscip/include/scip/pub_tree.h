#pragma once
#include "scip/scip.h"
