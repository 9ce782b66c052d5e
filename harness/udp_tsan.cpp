// The same harness, built with the race detector.
#include "udp.cpp"
