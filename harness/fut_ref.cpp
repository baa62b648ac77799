#include "fut_impl.h"
void fut::run_ref() { fut::Run<Obj &>::run(); }
