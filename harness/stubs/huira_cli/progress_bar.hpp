// the original has no include guard, and the harness takes in several sources
#pragma once
#include_next "huira_cli/progress_bar.hpp"
