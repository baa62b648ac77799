#include "fut_impl.h"
void fut::run_val() { fut::Run<Val>::run(); }
