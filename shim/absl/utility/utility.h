#pragma once
#include <utility>
