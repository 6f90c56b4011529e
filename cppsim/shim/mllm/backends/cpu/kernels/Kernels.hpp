// Stand-in: the kernels need libraries that are not here; their users in these builds only ask for the architecture.
#pragma once
#include "mllm/utils/CPUArchHelper.hpp"
