#include <stored>
namespace vhcfg {
AllocState allocState = {0, 0, 0, -1, false, 0};
}
