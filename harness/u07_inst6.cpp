#include "pipes_run.h"

void pk::enlist6()
{
	enlist<std::string, StrKinds, 20, 20>();
}
