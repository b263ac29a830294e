#include "pipes_run.h"

void pk::enlist0()
{
	enlist<int, IntKinds, 0, 20>();
}
