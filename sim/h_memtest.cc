// The code under test, compiled so that every memory access is announced to memrt.cc
#include "util/mem_test.hh"

bool call_check(uint32_t *start, uint32_t *stop) {
	return MemTest::check(start, stop);
}
bool call_check_addr(uint32_t start, uint32_t stop) {
	return MemTest::check(start, stop);
}
