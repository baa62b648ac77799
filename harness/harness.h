#pragma once
#include "json.h"
void run_program(const J &prog); // executed inside fiber 0, instrumented
