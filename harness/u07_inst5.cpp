#include "pipes_run.h"

void pk::enlist5()
{
	enlist<std::string, StrKinds, 0, 20>();
}
