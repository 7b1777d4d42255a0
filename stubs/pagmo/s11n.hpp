#pragma once
// Environment stub: boost's serialization front end is the real one; archives are the harness's own (see harness/archive.hpp).
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <locale>
#include <memory>
#include <boost/serialization/access.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/tracking.hpp>
#include <boost/serialization/version.hpp>
#define PAGMO_S11N_PROBLEM_EXPORT_KEY(...)
#define PAGMO_S11N_PROBLEM_IMPLEMENT(...)
#define PAGMO_S11N_PROBLEM_EXPORT(...)
#define PAGMO_S11N_ALGORITHM_EXPORT_KEY(...)
#define PAGMO_S11N_ALGORITHM_IMPLEMENT(...)
#define PAGMO_S11N_ALGORITHM_EXPORT(...)
