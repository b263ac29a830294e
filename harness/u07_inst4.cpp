#include "pipes_run.h"

void pk::enlist4()
{
	enlist<int, IntKinds, 80, 20>();
}
