#ifndef STUB_PARAM_H
#define STUB_PARAM_H
#define MAX(a,b) (((a)>(b))?(a):(b))
#define MIN(a,b) (((a)<(b))?(a):(b))
#endif
