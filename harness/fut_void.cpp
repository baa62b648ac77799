#include "fut_impl.h"
void fut::run_void() { fut::Run<void>::run(); }
