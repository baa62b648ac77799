#include "fut_impl.h"
void fut::run_mov() { fut::Run<Mov>::run(); }
