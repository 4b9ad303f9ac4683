#include <htd/main.hpp>
