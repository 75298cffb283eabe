// splitParStr, for the proof of U02.
#include <cctype>
#include <string>
#include <vector>
#include "splitparstr.hpp"
