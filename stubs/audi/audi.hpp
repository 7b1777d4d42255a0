#pragma once
// Environment stub: audi is not installed in this sandbox. What dcgp uses of it is modelled here:
// truncated Taylor polynomials up to order 2 over a sorted symbol set, over double or vectorized<double>.
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <initializer_list>
#include <iostream>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include <boost/serialization/version.hpp>
#include <audi/vectorized.hpp>
#include <audi/gdual.hpp>
#include <audi/functions.hpp>
#include <audi/io.hpp>
