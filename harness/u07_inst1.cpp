#include "pipes_run.h"

void pk::enlist1()
{
	enlist<int, IntKinds, 20, 20>();
}
