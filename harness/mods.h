#pragma once
#include "api.h"
#include "gen.h"
#include "model.h"
#include "runner.h"
