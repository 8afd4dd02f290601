#ifndef STUB_ASSERT_H
#define STUB_ASSERT_H
void native_assert(int);
#define assert(x) native_assert((x) ? 1 : 0)
#endif
