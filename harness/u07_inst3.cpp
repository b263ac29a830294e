#include "pipes_run.h"

void pk::enlist3()
{
	enlist<int, IntKinds, 60, 20>();
}
