#include "pipes_run.h"

void pk::enlist2()
{
	enlist<int, IntKinds, 40, 20>();
}
